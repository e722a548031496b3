[x.y, a = 1, 2]
---
[a = 1, 2]
---
[1,2,]
x = 1, 2
---
[1]
x = 1, 2
---
[]
x = 1, 2
---
[[1], a = 2, 3]
b = 4, 5
---
[foo { a = 1 }, b = 2, 3]
---
foo([1, 2])
x = 1, 2
---
foo [1, 2]
x = 1, 2
---
while (while x
end) && foo do
1
end
---
while a do
foo do b end
end
---
while a
foo do b end
end
---
until a do
foo do b end
end
---
until a
foo do |x| b end
end
foo do c end
---
for i in foo
bar do b end
end
foo do c end
---
while foo { |x| x } do
b do c end
end
---
while [a, b] do c do d end end
---
while a do while b do c do d end end; e do f end end
---
while a do until b do c end; e do f end end
---
until a do while b do c end; e do f end end
---
while a do break end; while b do next end
---
while a; def b; break; end; end
---
while a; def b; next; end; end
---
while a; def b; redo; end; end
---
while a; class B; break; end; end
---
while a; module B; next; end; end
---
while a; class << b; break; end; end
---
while a do end; break
---
while a do end; next
---
foo { }; break
---
foo { break }; redo
---
foo do end; next
---
-> { break }; next
---
-> { next 1 }; a
---
break
---
next
---
redo
---
while a; def b; end; break; end
---
while a; class B; end; next; end
---
while a; foo { }; break; end
---
while a; foo { break }; next; end
---
while a; while b; break; end; break; end
---
until a; foo do next end; break; end
---
for i in a; for j in b; break; end; next; end
---
for i in a; end; break
---
foo { while a; break; end; next }
---
foo { def m; end; break }
---
loop { def m; next; end }
---
def m; while a; break; end; break; end
---
def m; -> { break }; end; foo { break }
---
def m(a = (while b; break; end)) c end
---
while a; begin; break; rescue; next; ensure; redo; end; end
---
while a; if b then break else next end; end
---
while a; "#{break}"; end
---
foo { "#{break}" }; a
---
"#{while a do break end}"; b = 1, 2
---
"#{[1, 2]}"; b = 1, 2
---
"#{a = 1, 2}"
---
x = [1, 2]; y = 3, 4
---
x = *a, 1; y = 3, 4
---
a.b = 1, 2
---
a[1] = 2, 3
---
a, b = 1, 2; c = 3, 4
---
if [a, b] then c = 1, 2 end
---
case [1, 2] when 3 then a = 1, 2 end
---
def f(x = [1, 2], y = 3)
z = 1, 2
end
x = 1, 2
---
->(a = [b, c = 1]) { d }
e = 1, 2
---
foo { |a = [1], b = 2| c = 1, 2 }
---
foo(*[1, 2], **{ a: 1 }); b = 1, 2
---
begin; a = 1, 2; rescue [A]; b = 1, 2; end; c = 1, 2
---
a ? [b] : [c]; d = 1, 2
---
a[b, 1]; c = 1, 2
---
a[b = 1, 2]
---
return [a, b = 1]
---
yield [a]; b = 1, 2
---
super [a]; b = 1, 2
---
defined? [a]; b = 1, 2
---
defined?(a); b = 1
---
class A < B[1]; a = 1, 2; end; b = 1, 2
---
def a.b(c = 1) d = 1, 2 end; e = 1, 2
---
while a do b = 1, 2 end; c = 1, 2
---
a = b ? c : d; e = 1, 2
---
foo a, b; c = 1, 2
---
foo a { b = 1 }; c = 1, 2
---
p(while a do b end); c do d end
---
x = while a do b end; c do d end
---
def m(a = foo { b }) c do d end end
---
-> { while a do b end; c do d end }
---
begin; while a do b end; end; c do d end
---
(while a do b end); c do d end
---
a if while b do c end; d do e end
---
/#{while a do b end}/; c do d end
---
<<A; b do c end
#{while a do b end}
A
---
<<A; b = 1, 2
#{[1, 2]}
A
---
[<<A, c = 1, 2]
#{x = 1, 2}
A
---
while <<A do b end
#{foo do c end}
A
---
while a; <<A; break; end
#{1}
A
---
