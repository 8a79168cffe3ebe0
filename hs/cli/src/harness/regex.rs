//! Named patterns, their combination and the `regex` command.
use super::common::*;
use super::util::*;
use crate::*;
use sym::*;

/// A custom or named pattern and its meaning: does it match the whole of `s`?
struct Pat(&'static str, fn(&[u8]) -> bool);

fn lower(c: &u8) -> bool {
    c.is_ascii_lowercase()
}
fn upper(c: &u8) -> bool {
    c.is_ascii_uppercase()
}
fn skip_space(s: &[u8]) -> &[u8] {
    s.strip_prefix(b" ").unwrap_or(s)
}
fn some(s: &[u8], f: fn(&u8) -> bool) -> bool {
    !s.is_empty() && s.iter().all(f)
}
fn cap(s: &[u8]) -> bool {
    s.len() >= 2 && upper(&s[0]) && s[1..].iter().all(lower)
}
fn count(s: &[u8], f: fn(&u8) -> bool, max: usize) -> bool {
    some(s, f) && s.len() <= max
}
fn prefixed(s: &[u8], c: u8) -> Option<&[u8]> {
    s.split_first().filter(|x| *x.0 == c).map(|x| x.1)
}
fn decimal(s: &[u8]) -> bool {
    s.len() >= 3 && s[s.len() - 2] == b'.' && s[s.len() - 1].is_ascii_digit() && count(&s[..s.len() - 2], u8::is_ascii_digit, 3)
}
fn wrapped(s: &[u8], a: &[u8], b: &[u8]) -> bool {
    s.len() >= 3 && a.contains(&s[0]) && b.contains(&s[s.len() - 1]) && s[1..s.len() - 1].iter().all(u8::is_ascii_alphabetic)
}
const OPS: &[&str] = &[
    "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "&&", "||", "==", "!=", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "=>", "->", ".", "...", "?", "=", ":=", "[]",
    "()",
];
fn op_space(s: &[u8]) -> bool {
    OPS.iter().any(|o| {
        [format!("{}", o), format!(" {}", o), format!("{} ", o), format!(" {} ", o)].iter().any(|x| same(x.as_bytes(), s))
    })
}
/// The named patterns that speak about ASCII only.
const NAMED: &[Pat] = &[
    Pat("lowercase-word", |s| some(s, lower)),
    Pat("uppercase-word", |s| some(s, upper)),
    Pat("capitalized-word", cap),
    Pat("word", |s| some(s, u8::is_ascii_alphabetic)),
    Pat("space-lowercase-word", |s| some(skip_space(s), lower)),
    Pat("space-uppercase-word", |s| some(skip_space(s), upper)),
    Pat("space-capitalized-word", |s| cap(skip_space(s))),
    Pat("space-word", |s| some(skip_space(s), u8::is_ascii_alphabetic)),
    Pat("english-contraction", |s| [&b"'re"[..], b"'ve", b"'s", b"'d", b"'ll", b"'t", b"'m"].iter().any(|x| same(x, s))),
    Pat("space-digit", |s| s.len() == 2 && s[0] == b' ' && s[1].is_ascii_digit()),
    Pat("short-number", |s| count(s, u8::is_ascii_digit, 3)),
    Pat("space-short-number", |s| prefixed(s, b' ').map_or(false, |s| count(s, u8::is_ascii_digit, 3))),
    Pat("short-decimal-number", decimal),
    Pat("space-short-decimal-number", |s| prefixed(s, b' ').map_or(false, decimal)),
    Pat("word-wrapped-in-brackets", |s| wrapped(s, b"[", b"]")),
    Pat("word-wrapped-in-quotes", |s| wrapped(s, b"'\"", b"'\"")),
    Pat("word-wrapped-in-angle-brackets", |s| wrapped(s, b"<", b">")),
    Pat("punct-word", |s| s.len() >= 2 && s[0].is_ascii_punctuation() && some(&s[1..], u8::is_ascii_alphabetic)),
    Pat("word-punct", |s| s.len() == 2 && s[0].is_ascii_alphabetic() && s[1].is_ascii_punctuation()),
    Pat("dot-short-number", |s| prefixed(s, b'.').map_or(false, |s| count(s, u8::is_ascii_digit, 3))),
    Pat("repeated-punct", |s| some(s, u8::is_ascii_punctuation)),
    Pat("few-repeated-punct", |s| count(s, u8::is_ascii_punctuation, 4)),
    Pat("indent", |s| some(s, |c| *c == b' ') || some(s, |c| *c == b'\t')),
    Pat("newline-indent", |s| prefixed(s, b'\n').map_or(false, |s| some(s, |c| *c == b' ') || some(s, |c| *c == b'\t'))),
    Pat("punct-newline", |s| s.len() >= 2 && s[s.len() - 1] == b'\n' && some(&s[..s.len() - 1], u8::is_ascii_punctuation)),
    Pat("space-operator-space", op_space),
];
/// Custom patterns with alternatives, anchors and repetition at their edges.
const CUSTOM: &[Pat] = &[
    Pat("a|bc", |s| same(s, b"a") || same(s, b"bc")),
    Pat("b?|cc", |s| s.is_empty() || same(s, b"b") || same(s, b"cc")),
    Pat("^ab", |s| same(s, b"ab")),
    Pat("c$|^a*", |s| same(s, b"c") || s.iter().all(|&c| c == b'a')),
    Pat("(a)(b|c)", |s| same(s, b"ab") || same(s, b"ac")),
    Pat("(?i)A", |s| same(s, b"a") || same(s, b"A")),
];
fn saved(names: &[&str]) -> ::regex::Regex {
    let mut args = vec!["regex", "--output", "allow.regex"];
    for n in names {
        args.extend(["--pattern", n]);
    }
    cmd(&args);
    let r = load_regex("allow.regex");
    let t = std::fs::read_to_string("allow.regex").unwrap();
    check(r.as_str() == t, 90);
    r
}
/// The file written for up to three patterns, loaded again, accepts a text
/// exactly when one of them matches all of it.
#[no_mangle]
pub fn h_re_custom() {
    let n = choose(4 + tier() as usize);
    let s = letters(n, b'a', b'c');
    let k = 1 + choose(3);
    let p: Vec<&Pat> = (0..k).map(|_| &CUSTOM[choose(CUSTOM.len())]).collect();
    let r = saved(&p.iter().map(|p| p.0).collect::<Vec<_>>());
    let want = p.iter().any(|p| (p.1)(&s));
    check(r.is_match(text(&s)) == want, 1);
    if want {
        reach(1);
    } else {
        reach(2);
    }
}
/// A pattern of one's own is taken as it is: blanks at either end, upper case, and what looks like a name, a path or a list of patterns.
#[no_mangle]
pub fn h_re_literal() {
    const P: [(&str, &[&[u8]]); 12] = [
        (" a", &[b" a"]),
        ("a ", &[b"a "]),
        (" ", &[b" "]),
        ("\ta", &[b"\ta"]),
        ("a\tb", &[b"a\tb"]),
        ("\\n", &[b"\n"]),
        (" a|b ", &[b" a", b"b "]),
        ("a,b", &[b"a,b"]),
        ("a;b|A", &[b"a;b", b"A"]),
        ("a/b", &[b"a/b"]),
        ("a:b", &[b"a:b"]),
        ("b a", &[b"b a"]),
    ];
    let n = choose(4);
    let s: Vec<u8> = (0..n)
        .map(|_| {
            let c = byte_in(0, 8);
            let mut r = b' ';
            for (k, v) in [(1, b'a'), (2, b'b'), (3, b'\t'), (4, b'\n'), (5, b','), (6, b';'), (7, b'/'), (8, b':')] {
                r = if c == k { v } else { r };
            }
            r
        })
        .collect();
    let a = choose(12);
    let b = choose(3);
    let mut names = vec![P[a].0];
    let mut want = P[a].1.iter().any(|w| same(w, &s));
    if b > 0 {
        let j = (a + b) % 12;
        names.push(P[j].0);
        want |= P[j].1.iter().any(|w| same(w, &s));
    }
    check(saved(&names).is_match(text(&s)) == want, 1);
    if want {
        reach(1);
    } else {
        reach(2);
    }
}
/// A named pattern means what it says, alone and next to another one: any ASCII
/// text of up to three (thorough: four) bytes.
#[no_mangle]
pub fn h_re_named() {
    let t = tier() as usize;
    let a = choose(NAMED.len());
    let n = 1 + choose(3 + t);
    let s = letters(n, 0, 127);
    let b = choose(2);
    let r = if b == 0 { saved(&[NAMED[a].0]) } else { saved(&[CUSTOM[0].0, NAMED[a].0]) };
    let want = (NAMED[a].1)(&s) || b == 1 && (CUSTOM[0].1)(&s);
    check(r.is_match(text(&s)) == want, 1);
    if want {
        reach(1);
    } else {
        reach(2);
    }
}
/// Every entry of the table is found under its name, and no other; anything else
/// is taken as a regular expression itself.
#[no_mangle]
pub fn h_re_table() {
    let i = choose(PATTERNS.len());
    let (name, f, _, _) = &PATTERNS[i];
    let own = [name.to_string()];
    let r = load_patterns(&own);
    check(r.len() == 1 && r[0].as_str() == f().as_str(), 1);
    check(r[0].as_str() != *name, 2);
    let c = load_patterns(&["x[yz]".to_string(), name.to_string()]);
    check(c.len() == 2 && c[0].as_str() == "x[yz]" && c[1].as_str() == f().as_str(), 5);
    // only the exact name is one
    let like = match choose(6) {
        0 => name.to_uppercase(),
        1 => [&name[..1].to_uppercase(), &name[1..]].concat(),
        2 => name.replace('-', "_"),
        3 => name[..name.len() - 1].to_string(),
        4 => format!("{}s", name),
        _ => format!(" {}", name),
    };
    if !PATTERNS.iter().any(|p| p.0 == like) {
        let c = load_patterns(&[like.clone(), name.to_string()]);
        check(c.len() == 2 && c[0].as_str() == like && c[1].as_str() == f().as_str(), 6);
    }
    reach(1);
}
/// The mining pattern finds, at each place, the first listed pattern that matches
/// there.
#[no_mangle]
pub fn h_re_mine() {
    let n = choose(4 + tier() as usize);
    let s = letters(n, b'a', b'c');
    let k = choose(3);
    const WORDS: [[&[u8]; 3]; 3] = [[b"ab", b"b", b"a"], [b"a", b"ab", b"c"], [b"bc", b"abc", b"b"]];
    let words = &WORDS[k];
    let pats: Vec<String> = words.iter().map(|w| text(w).to_string()).collect();
    let re = build_mine_regex(load_patterns(&pats));
    let mut want = vec![];
    let mut i = 0;
    'scan: while i < s.len() {
        for w in words {
            if starts_with(&s[i..], w) {
                want.push((i, i + w.len()));
                i += w.len();
                continue 'scan;
            }
        }
        i += 1;
    }
    let got: Vec<(usize, usize)> = re.find_iter(text(&s)).map(|m| (m.start(), m.end())).collect();
    check(got == want, 1);
    if want.len() > 1 {
        reach(1);
    }
}
/// What the pattern finds at the start of `s`, of the patterns in FLAGS.
fn flag_at(k: usize, s: &[u8]) -> Option<usize> {
    let is = |i: usize, set: &[u8]| i < s.len() && set.contains(&s[i]);
    match k {
        0 => is(0, b"aA").then_some(1),
        1 => is(0, b"b").then_some(1),
        2 if is(0, b"a") && is(1, b"b") => Some(2),
        2 => is(0, b"B").then_some(1),
        3 => (is(0, b"A") && is(1, b"\nab AB")).then_some(2),
        4 => (is(0, b"b") && is(1, b"abAB ")).then_some(2),
        5 => (is(0, b"a") && is(1, b" ") && is(2, b"b")).then_some(3),
        7 => is(0, b"a").then_some(1),
        8 if is(0, b"A") => Some(1),
        8 => (is(0, b"b") && is(1, b"a")).then_some(2),
        9 => (is(0, b"a") && is(1, b"\n") && is(2, b"b")).then_some(3),
        _ => is(0, b"B").then_some(if is(1, b"B") { 2 } else { 1 }),
    }
}
const FLAGS: [&str; 10] = ["(?i)a", "b", "ab|B", "(?s)A.", "b.", "a b", "(?x) B {1,2}", "(?x)a # b", "(?x) A # ) a\n |ba#", "a\nb"];
fn flag_text(n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let c = byte_in(0, 5);
            let mut r = 0;
            for (k, v) in [(0, b'a'), (1, b'b'), (2, b'A'), (3, b'B'), (4, b' '), (5, b'\n')] {
                r |= if c == k { v } else { 0 };
            }
            r
        })
        .collect()
}
/// The allow pattern of patterns with inline options, comments and line ends.
#[no_mangle]
pub fn h_re_flags() {
    let n = choose(4 + tier() as usize);
    let s = flag_text(n);
    let k: Vec<usize> = (0..1 + choose(2)).map(|_| choose(FLAGS.len())).collect();
    let pats: Vec<String> = k.iter().map(|&k| FLAGS[k].to_string()).collect();
    let want = k.iter().any(|&k| if k == 6 { s.len() <= 2 && some(&s, |c| *c == b'B') } else { flag_at(k, &s) == Some(s.len()) });
    check(build_allow_regex(load_patterns(&pats)).is_match(text(&s)) == want, 1);
    if want {
        reach(1);
    } else {
        reach(2);
    }
}
/// A pattern that contains a line end, read back from its file.
#[no_mangle]
pub fn h_re_line_end() {
    let n = choose(4);
    let s = flag_text(n);
    let r = load_saved(&[FLAGS[9], "b"][..1 + choose(2)]);
    let want = flag_at(9, &s) == Some(s.len()) || r.1 && same(&s, b"b");
    check(r.0.is_match(text(&s)) == want, 1);
    reach(1);
}
/// A pattern that ends in a comment, read back from its file.
#[no_mangle]
pub fn h_re_comment_file() {
    let n = choose(3);
    let s = flag_text(n);
    let r = load_saved(&[FLAGS[7], "b"][..1 + choose(2)]);
    check(r.0.is_match(text(&s)) == (same(&s, b"a") || r.1 && same(&s, b"b")), 1);
    reach(1);
}
fn load_saved(names: &[&str]) -> (::regex::Regex, bool) {
    let mut args = vec!["regex", "--output", "allow.regex"];
    for n in names {
        args.extend(["--pattern", n]);
    }
    cmd(&args);
    (load_regex("allow.regex"), names.len() == 2)
}
/// Patterns with inline options and alternatives: each keeps its own meaning.
#[no_mangle]
pub fn h_re_mine_flags() {
    let n = choose(4 + tier() as usize);
    let s = flag_text(n);
    let k: Vec<usize> = (0..1 + choose(2)).map(|_| choose(FLAGS.len())).collect();
    let pats: Vec<String> = k.iter().map(|&k| FLAGS[k].to_string()).collect();
    let re = build_mine_regex(load_patterns(&pats));
    let mut want = vec![];
    let mut i = 0;
    'scan: while i < s.len() {
        for &k in &k {
            if let Some(l) = flag_at(k, &s[i..]) {
                want.push((i, i + l));
                i += l;
                continue 'scan;
            }
        }
        i += 1;
    }
    let got: Vec<(usize, usize)> = re.find_iter(text(&s)).map(|m| (m.start(), m.end())).collect();
    check(got == want, 1);
    if want.len() > 1 {
        reach(1);
    }
}
/// The patterns of FLAGS that survive a file, and patterns that look grouped.
fn cmd_pattern(k: usize) -> &'static str {
    match k {
        0..=6 => FLAGS[k],
        7 => "(?:a)|(?:b b)",
        8 => "(?:A)",
        9 => "(?:a|ab)(?:b|B)",
        _ => "^a|b$",
    }
}
fn cmd_at(k: usize, s: &[u8]) -> Option<usize> {
    match k {
        0..=6 => flag_at(k, s),
        7 if starts_with(s, b"b b") => Some(3),
        7 => starts_with(s, b"a").then_some(1),
        8 => starts_with(s, b"A").then_some(1),
        9 if starts_with(s, b"ab") || starts_with(s, b"aB") => Some(2),
        _ => None,
    }
}
/// Whether all of `s` matches.
fn cmd_full(k: usize, s: &[u8]) -> bool {
    match k {
        2 => same(s, b"ab") || same(s, b"B"),
        6 => s.len() <= 2 && some(s, |c| *c == b'B'),
        7 => same(s, b"a") || same(s, b"b b"),
        9 => same(s, b"ab") || same(s, b"aB") || same(s, b"abb") || same(s, b"abB"),
        10 => same(s, b"a") || same(s, b"b"),
        _ => cmd_at(k, s) == Some(s.len()),
    }
}
/// The `regex` command writes a pattern that means the same.
#[no_mangle]
pub fn h_re_cmd() {
    let n = choose(4 + tier() as usize);
    let s = flag_text(n);
    let k: Vec<usize> = (0..1 + choose(2)).map(|_| choose(11)).collect();
    let want = k.iter().any(|&k| cmd_full(k, &s));
    check(saved(&k.iter().map(|&k| cmd_pattern(k)).collect::<Vec<_>>()).is_match(text(&s)) == want, 1);
    if want {
        reach(1);
    } else {
        reach(2);
    }
}
/// The `mine` command finds what each of its patterns means.
#[no_mangle]
pub fn h_re_mine_cmd() {
    hash_const(true);
    rayon::__set_schedule(0, 1);
    let n = choose(3 + tier() as usize);
    let s = flag_text(n);
    let k: Vec<usize> = (0..1 + choose(2)).map(|_| choose(9)).collect();
    std::fs::write("one.bin", &s).unwrap();
    let mut args = vec!["mine", "-n", "1000", "-o", "out.json", "--train", "x:one.bin"];
    for &k in &k {
        args.extend(["-p", cmd_pattern(k)]);
    }
    cmd(&args);
    let got: Vec<String> = serde_json::from_str(&std::fs::read_to_string("out.json").unwrap()).unwrap();
    let mut want: Vec<&[u8]> = vec![];
    let mut i = 0;
    'scan: while i < s.len() {
        for &k in &k {
            if let Some(l) = cmd_at(k, &s[i..]) {
                if !want.iter().any(|w| same(w, &s[i..i + l])) {
                    want.push(&s[i..i + l]);
                }
                i += l;
                continue 'scan;
            }
        }
        i += 1;
    }
    check(got.len() == want.len(), 1);
    check(want.iter().all(|w| got.iter().any(|g| same(g.as_bytes(), w))), 2);
    if want.len() > 1 {
        reach(1);
    }
}
/// Line breaks and spaces around a stored pattern do not count.
#[no_mangle]
pub fn h_re_file() {
    let ends = ["", "\n", "\r\n", " ", "\n\n", " \n"];
    let starts = ["", "\n", " "];
    let f = format!("{}^a[bc]$|^c +c${}", starts[choose(3)], ends[choose(6)]);
    std::fs::write("p.regex", &f).unwrap();
    let n = 1 + choose(3 + tier() as usize);
    let s = letters(n, b'a', b'c');
    let want = same(&s, b"ab") || same(&s, b"ac");
    check(load_regex("p.regex").is_match(text(&s)) == want, 1);
    check(load_fancy_regex("p.regex").is_match(text(&s)).unwrap() == want, 2);
    check(load_regex("p.regex").is_match("c  c"), 3);
    if want {
        reach(1);
    }
}
entries!(h_re_custom, h_re_literal, h_re_named, h_re_table, h_re_mine, h_re_mine_flags, h_re_file, h_re_flags, h_re_line_end, h_re_comment_file, h_re_cmd, h_re_mine_cmd);

