//! Text generators: mutation of the corpus and a small grammar.
use crate::Rng;

pub const TOKENS: &[&str] = &[
    "alias", "and", "begin", "BEGIN", "break", "case", "class", "def", "defined?", "do", "else", "elsif", "end", "ensure", "false", "for", "if", "in", "module", "next", "nil", "not", "or", "redo", "rescue", "return", "self", "super", "then", "true", "undef", "unless", "until", "when", "while", "yield", "__LINE__", "__FILE__", "loop",
    "+", "-", "*", "/", "%", "**", "=", "==", "===", "!=", "=~", "!~", "!", "<", "<=", "<=>", "<<", ">", ">=", ">>", "&", "&&", "&.", "|", "||", "^", "~", "?", ":", "::", ";", ",", ".", "..", "...", "(", ")", "[", "]", "{", "}", "=>", "->", "+=", "-=", "*=", "/=", "%=", "**=", "&=", "&&=", "|=", "||=", "^=", "<<=", ">>=", "+@", "-@", "[]", "[]=",
    "\n", " ", "\t", "\r", "\r\n", "\\\n", "#c\n", "\"", "'", "`", "#{", "\\", "#", "$", "@", "@@", "%w", "%i", "%q(", "%Q(", "%r{", "%(", "<<A\n", "<<~A\n", "<<-A\n", "A\n", "<<'A'\n", "__END__\n", "=begin\n", "=end\n",
    "0", "1", "42", "0x1f", "0b101", "0o17", "017", "1_000", "1.5", "1e3", "1e-2", "3i", "2.0i", "9223372036854775807", "9223372036854775808", "0x", "1_", "1__0", "1e", "0b2",
    "a", "b", "foo", "foo?", "foo!", "bar=", "A", "Foo", "@x", "@@x", "$x", "$1", "$99999999999", "$~", "$_", "$", "$-w", "?a", "?", "?\\n", "_1", "_2", "it", "あ", "x", "é", "𝄞", "\u{0}", "\u{7f}",
    "\\n", "\\x41", "\\x", "\\u3042", "\\u{41 42}", "\\u{", "\\101", "\\C-a", "\\M-a", "\\e", "\"a#{b}c\"", "'s'", ":sym", ":\"s\"", "a:", "\"k\": 1", "/re/", "/a#{1}/mix", "`ls`", "|x|", "|a, b = 1, *c, d, e:, f: 1, **g, &h|", "*a", "**h", "&b", "&:s", "->(x) { x }", "do |x|", "<<~X",
];

pub const TEMPLATES: &[&str] = &[
    "$", "def f; $; end", "def f(a, b = 1, *c, d:, e: 2, **g, &h)\n$\nend", "class A; $; end", "module M; $; end", "class << self; $; end", "($)", "[$]", "{ a: $ }", "foo($)", "foo $", "foo { |x| $ }", "foo do |x, y| $ end", "x = $", "a, b = $", "x += $", "if $ then 1 else 2 end", "if x; $; end", "while $; x; end", "while x do $ end",
    "begin; $; rescue A => e; $; else; 1; ensure; 2; end", "case $; when 1, 2 then $; else 3; end", "for i in $ do i end", "for i, j in x do $ end", "\"#{$}\"", "\"a#{$}b#{$}c\"", "/#{$}/", "`#{$}`", ":\"#{$}\"", "<<A\n#{$}\nA\n", "<<~A\n  x\n #{$}\n  A\n", "->(x, y = $) { $ }", "-> { $ }", "$ ? $ : $", "!$", "-$", "not $", "$ && $", "$ + $", "$; $", "$\n$", "$.foo", "$&.foo($)", "$[$]", "$::X", "return $", "yield $", "break $", "super($)", "defined? $", "*$", "$ if $", "$ while $", "$ unless $", "$ rescue $", "$..$", "def self.g; $; end", "alias a b; $", "%w($)", "x = { $ => $ }", "p(*$, **$, &$)",
];

pub fn corpus_pick(rng: &mut Rng, corpus: &[String]) -> String {
    rng.pick(corpus).clone()
}

fn split(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut last = 9;
    for c in s.chars() {
        let k = if c.is_alphanumeric() || c == '_' { 0 } else if c == ' ' || c == '\n' { 1 } else { 2 };
        if k == last && k != 2 { v.last_mut().unwrap().push(c) } else { v.push(c.to_string()) }
        last = k;
    }
    v
}

pub fn mutate(rng: &mut Rng, corpus: &[String], depth: usize) -> String {
    let mut s = match rng.below(10) {
        0 => (0..rng.below(8) + 1).map(|_| format!("{}{}", rng.pick(TOKENS), if rng.one_in(2) { " " } else { "" })).collect(),
        1 | 2 if depth < 3 => {
            let t = *rng.pick(TEMPLATES);
            let mut o = String::new();
            for c in t.chars() {
                if c == '$' { o += &mutate(rng, corpus, depth + 1) } else { o.push(c) }
            }
            o
        }
        _ => corpus_pick(rng, corpus),
    };
    let n = match rng.below(6) { 0 | 1 => 0, 2 | 3 => 1, 4 => 2, _ => 1 + rng.below(5) };
    if n > 0 {
        let mut v = split(&s);
        for _ in 0..n {
            if v.is_empty() { break; }
            let i = rng.below(v.len());
            match rng.below(9) {
                0 => { v.remove(i); }
                1 => { let x = v[i].clone(); v.insert(i, x) }
                2 | 3 => v.insert(i, rng.pick(TOKENS).to_string()),
                4 => v[i] = rng.pick(TOKENS).to_string(),
                5 => { let j = rng.below(v.len()); v.swap(i, j) }
                6 => v.truncate(i),
                7 => { v.drain(..i); }
                _ => {
                    let o = split(&corpus_pick(rng, corpus));
                    let a = rng.below(o.len());
                    let b = a + rng.below((o.len() - a).min(6)) ;
                    for (k, x) in o[a..b].iter().enumerate() { v.insert(i + k, x.clone()) }
                }
            }
        }
        s = v.concat();
    }
    s
}
