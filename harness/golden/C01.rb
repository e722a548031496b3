nil
---
a = 1
b = a + 2 * 3
---
def fact(n)
  if n < 2 then 1 else n * fact(n - 1) end
end
fact 10
---
class Foo < Bar::Baz
  attr_reader :x
  def initialize(x, y = 2, *rest, k:, o: 3, **kw, &blk)
    @x = x
    @@count ||= 0
    $total += y
  end
  def self.build(...) = new(...)
  def ==(other); other.x == @x; end
  def []=(i, v); @a[i] = v; end
  class << self
    def z; end
  end
end
---
module M
  X = 1
  Y = [1, 2, [3]]
  Z = { a: 1, "b" => 2, :c => 3 }
end
---
case x
when 1, 2 then :a
when Integer, *others
  :b
when /re#{1}x/mi
  :c
else
  :d
end
---
begin
  foo
rescue A, B => e
  bar
rescue
  baz
else
  qux
ensure
  quux
end
---
x = if a then b elsif c then d else e end
---
while i < 10 do i += 1; next if i == 3; break if i == 5; redo unless i end
---
until done?
  step!
end
---
begin; i += 1; end while i < 10
---
for i, j in [[1, 2], [3, 4]]
  p i, j
end
---
foo.bar(1, *a, k: 2, **h, &b).baz { |x, (y, z), *w| x + y }.qux do |v| v end
---
foo&.bar&.baz = 3
---
a, (b, c), *d = 1, [2, 3], 4
---
a, b = b, a
---
a.b, c[1], @d, $e, F = 1, 2, 3, 4, 5
---
x ||= 1; x &&= 2; x += 3; x <<= 4; a.b ||= 5; a[1] += 6; @x **= 2; X ||= 1
---
->(a, b = 2, *c, d:, e: 3, **f, &g) { a + b }
---
-> do |x| x end
---
"abc#{1 + 2}def #{"nested #{x} y"} end"
---
'single \' \\ quoted'
---
"\n\t\s\\\"\e\a\b\r\0\x41\101\u3042\u{41 42 1F600}"
---
%w(a b c) + %i[d e]
---
%q(single (nested) quoted) + %Q{double #{x} {nested}} + %(plain)
---
/regexp #{x} [a-z\/]+/mix =~ y
---
%r{a/b#{c}}i
---
<<A + <<-B + <<~C
a text #{x}
A
  b text
  B
  c text
    indented #{y}
  C
---
<<'RAW'
no #{interp} \n
RAW
---
`ls #{dir}`
---
:sym; :"quoted sym"; :"interp #{x}"; :+; :[]=; :a?; :b!; :c=; :@iv; :$gv; :A
---
0; 1_000; 0x1F; 0b1010; 0o17; 017; 123456789012345678901234567890; 1.5; 1e10; 1.5e-3; 3i; 2.5i
---
1..2; 1...2; (1..); a..b; "a".."z"
---
!a; not b; -c; +d; ~e; a ? b : c; a && b || c; a and b or not c
---
a <=> b; a == b; a != b; a === b; a =~ b; a !~ b; a < b; a <= b; a > b; a >= b
---
a << b >> c & d | e ^ f ** -g % h / i
---
-2 ** 2; 2 ** -1; -a ** b; !a == b
---
defined? x; defined?(@y); defined? yield
---
alias foo bar
---
alias $new $old
---
yield; yield 1, 2; yield(x) ; yield [1]
---
super; super(); super(1, k: 2); super a do |x| x end
---
return 1, 2 if x
---
def a; return; end
---
[1, 2, *x, a: 1, "b": 2]
---
{ a: 1, "b": 2, "c" => 3, d => 4, **e, f: }
---
puts [1, 2].map { |x| x * 2 }.inspect
---
puts -1
---
puts - 1
---
foo [1]; foo[1]; foo [1][0]; x = []; x [1]
---
p *a, **b, &c
---
foo a, b do |x| x end
---
foo(a) { _1 + _2 }
---
foo { it + 1 }
---
A::B::C; ::D; A::b; A::b(1); a::B
---
__LINE__; __FILE__; __method__; self; true; false; nil
---
$0; $1; $~; $'; $!; $@; $_; $;; $,; $/; $\; $LOAD_PATH; $-w
---
?a + ?\n + ?あ
---
# comment
x # trailing
=begin
block comment
=end
y
---
x = 1
  .foo
  # comment
  .bar
  &.baz
---
x = a +
  b
---
foo \
  bar
---
あ = 1; い = あ + 1; puts "日本語 #{い}"
---
begin; 1; end until x
---
x = begin 1 rescue 2 end
---
a = b rescue c
---
a = *b; a, *b = c; *a, b = c; *, a = b; a, * = b; (a, b), c = d
---
def f(a, (b, c), d) end
---
def f a, b = 1; a; end
---
def f() = 1 + 2
---
private def g(x) x end
---
if (a = b) then a end
---
unless a; b; else; c; end
---
a unless b; a while c; a until d; a if e; a rescue f
---
loop do break 1, 2 end
---
x.each do |a| next a if a; redo end
---
BEGIN { x }; END { y }
---
undef foo
---
class A; def m; @a = 1; end; end; class A::B; end; class ::C; end
---
def (a).b; end
---
def self.[](x) x end
---
def +(o) end; def -@; end; def !; end; def <=>(o) end; def `(s) end; def foo=(x) end; def a?; end; def b!; end
---
foo.class.if.end; foo.+(1); foo.(1); foo::bar
---
{}; x = {}; foo {}; foo({}); -> {}
---
a[1, 2] = 3; a[] ; a[*b]; a[1] [2]
---
a.b = c, d
---
a = b = c = 1
---
a = [
  1,
  2,
]
---
foo(
  1,
  k: 2,
)
---
foo k: 1, "s": 2, **z
---
foo :a => 1, "b" => 2
---
foo ? bar : baz
---
x ?a :b
---
a ? b ? c : d : e ? f : g
---
%w(
  a b
  c
)
---
"a" "b" 'c'
---
"#@a #@@b #$c #{}"
---
/a/ ; a / b ; a /b/ ; a %w ; a % w
---
x = y / z / w
---
def m; yield; end; m { |a; b| b = a }
---
case; when a then b; end
---
case x; when 1; when 2, 3; else; end
---
__END__
garbage ( [ {
---
1
__END__
garbage
---
x = 5 unless defined?(x)
---
a&.b; a&.b(1); a&.b = 1; a&.b += 1; a&.b { }
---
puts <<~EOS
  a
    b #{<<~INNER}
  inner
    INNER
  c
EOS
---
foo(<<A, 1)
x
A
---
-> x, y { x }
---
->(x; y) { y }
---
lambda { |x = 1, *y, z: 2| }
---
proc { |(a, b), c| }
---
proc { |a,| a }
---
[[1, [2, [3, [4, [5]]]]]]
---
((((((1))))))
---
a.b.c.d.e(f(g(h(i))))
---
raise ArgumentError, "x" unless y
---
return unless x
---
@a, @b = foo
---
x = ->(a) do a end
---
foo.bar baz do |x| x end
---
foo bar { 1 }
---
foo bar do 1 end
---
while foo do bar end
---
while (foo do bar end) do baz end
---
if foo then bar else baz end if qux
---
i = 0; i += 1 while i < 5
---
a = 1 if b = 2
---
p((1..3).map do |x| x end)
---
1.+(2); 1.0.floor; 1.times {}
---
"a\
b"
---
%s(sym)
---
"\u00e9\M-a\C-b\c?"
---
:a.b; :"a b".c
---
p:a
---
a ?1:2
---
{a: 1}[:a]
---
[1][0]
---
!!a; --a; +-a; ~~a; not not a
---
a or b and c
---
x = (a or b)
---
f(a, (b; c), [d; ])
---
f (1), 2
---
f (1).to_s
---
f() { }
---
f(&b)
---
f(&:sym)
---
f(*)
---
def f(*, **, &) end
---
def f(a:, b: a, **nil) end
---
"#{a ? "b" : 'c'}"
---
"#{foo { |x| "#{x}" }}"
---
"}#{"{"}#{'}'}"
---
/#{/#{1}/}/
---
`#{`a`}`
---
a
  .b
---
a ||
b
---
a &&
b or
c
---
[*a, *b]
---
{**a, b: 1}
---
def m(a = (b = 1; b), c = a) end
---
x = y = *z
---
x, y = *z, 1
---
a.b&.c::d
---
a::B = 1
---
::A = 1
---
A::B ||= 1
---
$a ||= $b
---
@@a = @@b
---
"é𝄞あ" + 'é𝄞あ' + %w(é 𝄞).x + :é + ?é
---
é𝄞 = 1
---
x = "unterminated
---
foo(1, 2
---
[1, 2
---
{ a: 1
---
def f
---
class
---
1 +
---
"#{
---
<<A
text
---
%w(a b
---
/re
---
:"
---
?
---
)
---
end
---
a b c d
---
1 2
---
foo(a:)
---
redo
---
break
---
class A; class B; end; end
---
def f; class A; end; end
---
def f; A = 1; end
---
def f(a, a) end
---
foo { |a, a| }
---
_1 = 2
---
0x
---
0b12
---
09
---
1__2
---
1_
---
1e
---
1.e5
---
@
---
@1
---
$
---
@@
