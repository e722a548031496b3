{ a => 1 }
---
{ a - 1 => 2 }
---
{ a.b => 1, c: 2 }
---
{ foo(1) => 1 }
---
{ A => 1, A::B => 2, B: 3 }
---
{ nil => 1, true => 2, self => 3 }
---
{ if: 1, end: 2, self: 3, nil: 4 }
---
{ a ? b : c => d }
---
{ x + y * z => w, v: u }
---
{ "a" => 1, :b => 2, 3 => 4 }
---
{ a
 => 1 }
---
{ a: b, c: d ? e : f }
---
{ foo[1] => 2, bar => [b] }
---
{ a! => 1, b? => 2 }
---
{ a!: 1, b?: 2 }
---
{ self.x => 1, nil.y => 2 }
---
{ if a then b end => 1 }
---
{ -> { a } => b }
---
{ while: { while: 1 } }
---
{ __LINE__ => 1 }
---
{ defined?(a) => 1 }
---
{ a => { b => { c => d } } }
---
x = { a && b => c || d }
---
{ a
.b => 1 }
---
{
a - 1
=> 2
}
---
-2 ** 2
---
-2.5 ** 3
---
- 2 ** 2
---
-2
---
-2.abs
---
-2 + 3 * -4 ** 5
---
- a ** 2
---
-a.b
---
-(2) ** 2
---
a - -2 ** 2
---
a = 1; a -1
---
a - 1
---
a-1
---
foo -1
---
foo -1, -2 ** 2
---
foo.bar -1
---
foo.bar -2 ** 2
---
x = -2
---
[-1, -2 ** -3, - 4]
---
-123456789012345678901234567890 ** 2
---
--2 ** 2
---
2 ** -1
---
-1.0e3 ** 2
---
-1; -2 ** 2; -3
---
!-2
---
-2
** 3
---
-2
-3 ** 4
---
def a
1
end
---
def a
@x
end
---
def a=
@x
end
---
def a=(x)
x
end
---
def a!
1
end
---
def a?
1
end
---
def A
1
end
---
def A.b
1
end
---
def self.b=(x)
x
end
---
def a.b
1
end
---
def a.b=(x)
x
end
---
def ==(o) o end
---
def if
1
end
---
def self.end
2
end
---
def class=(x)
x
end
---
def +@
1
end
---
def []=(a, b)
1
end
---
alias a b
---
alias a= b=
---
alias :a :b
---
alias + -
---
alias if end
---
alias a? b!
---
alias $a $b
---
alias [] []=
---
alias << >>
---
alias a b; alias c d
---
:a
---
:a=
---
:a ? b : :c
---
a ? :b : :c
---
x ? y : z
---
a ? [b] : [c]
---
a ? -1 : +1
---
a ? b ? c : d : e
---
a ? (b) : c
---
a ? {b: 1} : {c: 2}
---
a ? A::B : C
---
a ? b.c : d.e
---
a
.b
---
a
.b
.c(1)
---
a
  .b { |x| x }
  .c do |y| y end
---
a
-1
---
a
[1]
---
a
(1)
---
a
:b
---
a = 1
.b
---
if a
b
else
c
end
---
if a then b end
---
if a
then b end
---
while a do b end
---
while a
b
end
---
case a
when 1
then 2
end
---
case
when a then b
end
---
a if b
---
a
if b
c
end
---
a unless b
---
foo { }
---
foo {|a| a }
---
foo { |a, b = 1| a }
---
foo do end
---
foo a { |b| b }
---
foo[1]
---
foo(1)
---
foo (1)
---
foo *a
---
foo = 1; foo * a
---
foo*a
---
foo &b
---
foo = 1; foo & b
---
foo::A
---
foo :a
---
foo a: 1
---
foo a: 1, b: 2
---
foo(a: 1, b: 2)
---
foo(a - 1 => 2)
---
foo(a, b - 1, c: d)
---
foo(a.b, c => d)
---
foo /a/
---
foo = 1; foo / a
---
foo/a
---
foo %w(a b)
---
foo = 1; foo % w
---
foo <<A
x
A

---
foo = 1; foo << A
---
foo(<<A, 1)
x
A

---
[<<A, <<B]
x
A
y
B

---
x = <<A
t
A
y
---
<<A.b
t
A
c
---
{ a: <<A, b: 1 }
t
A

---
{ <<A => 1, b - 1 => <<B }
t
A
u
B
c
---
foo ->{ 1 }
---
foo ->(x) { x }
---
foo !a
---
"a" "b"
---
"a"
"b"
---
x = a b
---
x = a, b
---
x, y = a, b
---
*x, y = a
---
x, *y = a
---
a, b.c, d[1] = e
---
a.b = 1
---
a.b += 1
---
a[1] = 2
---
a[1] ||= 2
---
a ||= b
---
return
---
return 1
---
return if a
---
return a, b
---
while a do break end
---
while a do next 1 if b end
---
yield
---
yield 1
---
yield a, b
---
super
---
super()
---
super a
---
begin; a; rescue; b; end
---
begin; a; rescue A; b; end
---
begin; a; rescue A => e; b; end
---
begin; a; rescue A, B => e then b; end
---
begin; a; rescue => e; b; end
---
begin; a; rescue; c; else; a; ensure; c; end
---
class A < B; end
---
class A; end
---
class A::B; end
---
class << a; b; end
---
module A; end
---
1..2
---
1...2
---
a..b
---
foo(1..2)
---
1.step
---
1.5.floor
---
1.e
---
a.if
---
a.end.class
---
a.b?
---
a.b!
---
a.B(1)
---
a::B
---
a::B(1)
---
a.()
---
a.+(1)
---
a.b.c = 1
---
"#{a}"
---
"#{a} #{b}"
---
"#{-2 ** 2}"
---
"#{{ a - 1 => 1 }}"
---
"#{x ? y : z}"
---
"a#{b
}c"
---
/a#{-2 ** 2}b/
---
`a#{ { b - 1 => 2 } }`
---
p(a) { b }
---
p({ a - 1 => 2 })
---
p [{ a - 1 => 2 }, -2 ** 2]
---
not a
---
not a and b
---
a and b or c
---
a or
b
---
a &&
b
---
a +
b
---
a,
b = 1, 2
---
foo(
1,
2
)
---
[
1,
2
]
---
{
a: 1,
b: 2
}
---
a = [1,
2]; b
---
defined? a
---
defined?(a)
---
a;;b
---

;a
---
a \
+ b
---
loop do
redo
end
---
for a, b in c
d
end
---
->{}
---
->(a) do a end
---
foo.bar(a) do b end
---
foo.bar = a
---
foo.bar a
---
foo.bar a, b: 1
---
foo.bar { }
---
foo.bar[1]
---
foo.bar *a
---
foo&.bar a
---
a; "

---
a; 'b
---
a
.b
"
---
a ? "
---
{ a " => 1 }
---
-2 "
---
