//! The command line: what the tool does with its arguments.
use super::common::*;
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

/// Arguments for some options, each given or not; `given[i]` says which.
fn options<'a>(opts: &[(&'a str, &'a str)], args: &mut Vec<&'a str>) -> Vec<bool> {
    options_but(opts, 0, args)
}
/// The last `pairs` pairs of options are given together or not at all.
fn options_but<'a>(opts: &[(&'a str, &'a str)], pairs: usize, args: &mut Vec<&'a str>) -> Vec<bool> {
    let mut last = false;
    opts.iter()
        .enumerate()
        .map(|(i, (name, value))| {
            let g = if i + 2 * pairs >= opts.len() && (opts.len() - i) % 2 == 1 { last } else { choose(2) == 1 };
            last = g;
            if g {
                args.extend([*name, *value]);
            }
            g
        })
        .collect()
}
/// Samples are handed on in the order of the files.
fn no_shuffle() {
    rand::SHUFFLE_MODE.store(0, std::sync::atomic::Ordering::Relaxed);
}
fn result() -> Option<Tokenizer> {
    let t = Tokenizer::from_file("out.json");
    check(t.is_ok(), 90);
    t.ok()
}
/// The same tokens with the same marks and scores, in any order.
fn same_set(a: &[ScoredToken], b: &[ScoredToken]) -> bool {
    a.len() == b.len() && a.iter().all(|a| b.iter().any(|b| a.value == b.value && a.keep == b.keep && (a.score - b.score).abs() < 1e-9))
}
fn keep(v: &[u8], s: f64) -> ScoredToken {
    ScoredToken::new(v.to_vec(), s, true)
}

/// `filter`: size, minimum and force arrive, in any order, short or long; without
/// them nothing is kept back by size, nothing filtered, nothing forced.
#[no_mangle]
pub fn h_main_filter() {
    hash_const(true);
    let vocab = vec![tok(b"a", -1.0), keep(b"b", -4.0), tok(b"c", -2.55), tok(b"ab", -3.0), tok(b"ac", -2.25)];
    input(vocab.clone(), &[], &[]);
    let d = byte_in(b'0', b'9');
    let min_s = format!("-2.{}", d as char);
    let min_v = -2.0 - (d - b'0') as f64 / 10.0;
    let mut args = vec!["filter"];
    let long = choose(2) == 1;
    if long {
        args.extend(["--output", "out.json", "--input", "in.json"]);
    } else {
        args.extend(["-i", "in.json", "-o", "out.json"]);
    }
    let force = [None, Some("true"), Some("false")][choose(3)];
    if let Some(f) = force {
        args.extend(["--force", f]);
    }
    let min = choose(2) == 1;
    if min {
        args.extend(["--min-score", &min_s]);
    }
    let size = [None, Some("0"), Some("3"), Some("4")][choose(4)];
    if let Some(s) = size {
        args.extend([if long { "--vocab-size" } else { "-v" }, s]);
    }
    cmd(&args);
    let Some(t) = result() else { return };
    // the worst ones go until the size is reached
    let mut want = vocab.clone();
    let n: usize = size.map_or(0, |s| s.parse().unwrap());
    for w in [&b"b"[..], b"ab", b"c", b"ac", b"a"] {
        let i = want.iter().position(|t| t.value == w).unwrap();
        if min && want.len() > n && want[i].score < min_v && (!want[i].keep || force == Some("true")) {
            want.remove(i);
        }
    }
    check(same_set(t.model().vocab(), &want), 1);
    if want.len() < 4 {
        reach(1);
    }
}
/// `merge`: every subset of its optional arguments.
#[no_mangle]
pub fn h_main_merge() {
    no_shuffle();
    hash_const(true);
    let vocab = vec![tok(b"a", -1.0), tok(b"b", -1.5), tok(b"c", -2.0), tok(b"aaaaaaaaaaaaaaaaaaaaaaa", -2.5), tok(b"d", -3.0)];
    input(vocab.clone(), &[], &[]);
    let x = byte_in(b'a', b'd');
    let s1 = [&b"aaaaaaaaaaaaaaaaaaaaaaabaaaaaaaaaaaaaaaaaaaaaaabcabcdd"[..], &[x]].concat();
    std::fs::write("one.bin", &s1).unwrap();
    std::fs::write("two.bin", b"bcbc\0cd").unwrap();
    std::fs::write("allow.regex", "^[abc]+$\n").unwrap();
    let mut args = vec!["merge", "-i", "in.json", "-o", "out.json", "--allow", "allow.regex", "--train", "x:one.bin", "--train", "y:two.bin"];
    let g = options(&[("--num-merges", "3"), ("--step", "2"), ("--scale-factor", "0.5"), ("--max-token-length", "2")], &mut args);
    cmd(&args);
    let Some(t) = result() else { return };
    let mut m = Model::from(vocab);
    let samples = [text(&s1), "bcbc", "cd"];
    let v = |i: usize, a: usize, b: usize| if g[i] { a } else { b };
    let re = ::regex::Regex::new("^[abc]+$").unwrap();
    ModelVocabularyMerger::new(re, v(0, 3, 1000), v(1, 2, 50), if g[2] { 0.5 } else { 0.9 }, v(3, 2, 24)).merge(&mut m, &samples);
    check(t.base_vocab_size() == m.vocab_size(), 1);
    check(same_vocab(t.model().vocab(), m.vocab()), 2);
    reach(1);
}
/// `merge` without limits: a thousand merges, fifty a round.
#[no_mangle]
pub fn h_main_merge_many() {
    no_shuffle();
    let mut vocab: Vec<ScoredToken> = (0..46u8).map(|b| tok(&[b'A' + b], -1.0 - b as f64 / 8.0)).collect();
    vocab.retain(|t| t.value != b"\\");
    input(vocab.clone(), &[], &[]);
    let mut f = vec![];
    for a in &vocab {
        for b in &vocab[..23] {
            f.extend_from_slice(&a.value);
            f.extend_from_slice(&b.value);
            f.push(0);
        }
    }
    std::fs::write("one.bin", &f).unwrap();
    std::fs::write("allow.regex", "..").unwrap();
    let full = choose(2) == 1;
    let mut args = vec!["merge", "-i", "in.json", "-o", "out.json", "--allow", "allow.regex", "--train", "x:one.bin"];
    if !full {
        args.extend(["--num-merges", "70"]);
    }
    cmd(&args);
    let Some(t) = result() else { return };
    check(t.base_vocab_size() == vocab.len() + if full { 1000 } else { 70 }, 1);
    reach(1);
}
/// `prune`: every subset of its optional arguments, under constant draws.
#[no_mangle]
pub fn h_main_prune() {
    hash_const(true);
    let vocab = vec![keep(b"a", -2.0), keep(b"b", -2.5), tok(b"ab", -3.25), tok(b"ba", -3.75), tok(b"aba", -4.0), tok(b"bab", -5.5), tok(b"aa", -4.25), tok(b"bb", -5.0), tok(b"abab", -6.0), tok(b"aab", -4.75)];
    input(vocab.clone(), &[], &[]);
    let s1 = letters(1 + tier() as usize, b'a', b'b');
    let f = [&b"abaabbab\0aabababb\0bbaab"[..], &s1].concat();
    std::fs::write("one.bin", &f).unwrap();
    let d = [0.0, 0.0099, 0.0101, 0.5][choose(4)];
    rand::__fix(Some(d));
    no_shuffle();
    let mut args = vec!["prune", "-i", "in.json", "--vocab-size", "4", "-o", "out.json", "--train", "x:one.bin"];
    let g = options(&[("--dropout", "0.25"), ("--shrink-factor", "0.5"), ("--em-subiters", "2")], &mut args);
    cmd(&args);
    let Some(t) = result() else { return };
    let last = [&b"bbaab"[..], &s1].concat();
    let samples = ["abaabbab", "aabababb", text(&last)];
    let mut m = Model::from(vocab);
    let r = ModelVocabularyPruner::new(4, if g[1] { 0.5 } else { 0.8 }, if g[2] { 2 } else { 1 }, if g[0] { 0.25 } else { 0.01 }).prune(&mut m, &samples);
    check(r.is_ok(), 1);
    check(same_vocab(t.model().vocab(), m.vocab()), 2);
    reach(1);
    rand::__fix(None);
}
/// `generate`: every subset of its optional arguments, under constant draws.
#[no_mangle]
pub fn h_main_generate() {
    hash_const(true);
    std::fs::write("one.bin", b"aaaaaaaaaaaaaaaaaaaaaaaaab\r\nba").unwrap();
    std::fs::write("two.bin", b"ab\0ab ba").unwrap();
    std::fs::write("added.json", "[\"ab\",\"zz\"]").unwrap();
    std::fs::write("suggested.json", "[\"yy\"]").unwrap();
    std::fs::write("allow.regex", "^[ab]+$").unwrap();
    std::fs::write("split.regex", "[ab]+|\\s+").unwrap();
    let d = [0.0, 0.0999, 0.1001, 0.45][choose(4)];
    rand::__fix(Some(d));
    let mut args = vec!["generate", "--output", "out.json", "--vocab-size", "1000", "--train", "x:one.bin", "--train", "y:two.bin"];
    let g = options_but(
        &[("--split", "split.regex"), ("--allow", "allow.regex"), ("--insert-probability", "0.4"), ("--max-token-length", "3"), ("--processor", "crlf"), ("--special", " <s>\u{a0}\t"), ("--suggested", "suggested.json"), ("--added", "added.json")],
        2 * (1 - tier() as usize),
        &mut args,
    );
    cmd(&args);
    let Some(t) = result() else { return };
    let some = |b: bool, v: &[&str]| if b { own(v) } else { vec![] };
    let mut gen = VocabularyGenerator::new(
        if g[3] { 3 } else { 24 },
        if g[2] { 0.4 } else { 0.1 },
        if g[0] { Some(fancy_regex::Regex::new("[ab]+|\\s+").unwrap()) } else { None },
        if g[1] { Some(::regex::Regex::new("^[ab]+$").unwrap()) } else { None },
        some(g[7], &["ab", "zz"]),
        some(g[6], &["yy"]),
    );
    let long = if g[4] { "aaaaaaaaaaaaaaaaaaaaaaaaab\nba" } else { "aaaaaaaaaaaaaaaaaaaaaaaaab\r\nba" };
    gen.feed(&own(&[long]));
    gen.feed(&own(&["ab", "ab ba"]));
    check(same_set(t.model().vocab(), &gen.generate(1000)), 1);
    check(same_procs(&t, if g[4] { &[0] } else { &[] }), 2);
    check(specials(&t) == some(g[5], &[" <s>\u{a0}\t"]), 3);
    reach(1);
    rand::__fix(None);
}
/// `mine`: several sources and patterns, any number of idioms. A pattern that
/// takes whole samples shows what the samples are.
#[no_mangle]
pub fn h_main_mine() {
    no_shuffle();
    hash_const(true);
    let t = tier() as usize;
    let n = choose(4 + t);
    let b: Vec<u8> = (0..n)
        .map(|_| {
            let c = byte_in(0, 3);
            // NUL, \n, \r, a
            let mut r = 0;
            for (k, v) in [(1, b'\n'), (2, b'\r'), (3, b'a')] {
                r |= if c == k { v } else { 0 };
            }
            r
        })
        .collect();
    std::fs::write("one.bin", [&b"aa\0b\0aa\0b\0aa\0"[..], &b].concat()).unwrap();
    std::fs::write("two.bin", b"c\0b\0\0cd\0").unwrap();
    let k = choose(3);
    let mut args = vec!["mine", "--train", ["x:one.bin", "x:one.bin:0.4", "x:one.bin:1"][k], "--train", "y:two.bin", "-o", "out.json", "--pattern", "(?s).+"];
    let max = [1, 2, 20][choose(3)];
    let max_s = max.to_string();
    args.extend(["--num-idioms", &max_s]);
    cmd(&args);
    let mut samples: Vec<Vec<u8>> = vec![b"aa".to_vec(), b"b".to_vec(), b"aa".to_vec(), b"b".to_vec(), b"aa".to_vec()];
    samples.extend(b.split(|&c| c == 0).filter(|s| !s.is_empty()).map(|s| s.to_vec()));
    if k == 1 {
        // two fifths of the samples, rounded down
        let n = samples.len() * 2 / 5;
        samples.truncate(n);
    }
    samples.extend([b"c".to_vec(), b"b".to_vec(), b"cd".to_vec()]);
    let mut counts: Vec<(Vec<u8>, usize)> = vec![];
    for s in samples {
        match counts.iter_mut().find(|c| same(&c.0, &s)) {
            Some(c) => c.1 += 1,
            None => counts.push((s, 1)),
        }
    }
    let v: Vec<String> = serde_json::from_str(&std::fs::read_to_string("out.json").unwrap()).unwrap();
    check(v.len() == counts.len().min(max), 1);
    let got: Vec<usize> = v.iter().map(|s| counts.iter().find(|c| same(&c.0, s.as_bytes())).map_or(0, |c| c.1)).collect();
    check(got.iter().all(|&c| c > 0) && got.windows(2).all(|w| w[0] >= w[1]), 2);
    check((0..v.len()).all(|i| v[..i].iter().all(|u| u != &v[i])), 3);
    let out = counts.iter().filter(|c| !v.iter().any(|s| same(&c.0, s.as_bytes()))).map(|c| c.1).max().unwrap_or(0);
    check(got.iter().all(|&c| c >= out), 4);
    if v.len() > 4 {
        reach(1);
    }
}
/// `regex` without a file prints every named pattern; nothing is written.
#[no_mangle]
pub fn h_main_list() {
    let p = choose(2);
    let args = ["regex", "-p", "word"];
    let out = fault::printed(|| cmd(&args[..if p == 0 { 1 } else { 3 }]));
    let out = String::from_utf8(out).unwrap();
    for (name, pattern, _, _) in PATTERNS {
        let line = format!("{}: {}", name, pattern().as_str());
        check(out.lines().any(|l| l == line), 1);
    }
    check(!std::path::Path::new("out.json").exists(), 2);
    reach(1);
}
/// The documented command for the "exact" pattern makes a pattern that accepts
/// what the one in the repository accepts.
#[no_mangle]
pub fn h_main_exact() {
    let mut args = vec!["regex", "--output", "exact.regex"];
    for p in ["any-char", "lowercase-word", "uppercase-word", "capitalized-word", "english-contraction", "chinese-word", "indent", "space-operator-space", "space-punct-space"] {
        args.extend(["--pattern", p]);
    }
    cmd(&args);
    let made = ::regex::Regex::new(&std::fs::read_to_string("exact.regex").unwrap()).unwrap();
    let kept = ::regex::Regex::new(include_str!("/repo/data/exact.regex").trim()).unwrap();
    let n = choose(3 + tier() as usize);
    let s = letters(n, 0, 127);
    let want = kept.is_match(text(&s));
    check(made.is_match(text(&s)) == want, 1);
    if n > 1 && want {
        reach(1);
    }
}
/// Any value of a numeric option arrives as it was given, however unusual.
#[no_mangle]
pub fn h_main_values() {
    hash_const(true);
    no_shuffle();
    let vocab = vec![keep(b"a", -2.0), keep(b"b", -2.5), tok(b"ab", -3.25), tok(b"ba", -3.75), tok(b"aba", -4.0), tok(b"bab", -5.5), tok(b"aa", -4.25), tok(b"bb", 0.0), tok(b"abab", -6.0), tok(b"aab", -4.75)];
    let plain = vec![keep(b"a", -2.0), keep(b"b", -2.5), tok(b"c", -3.0), tok(b"aaaaaaaaaaaaaaaaaaaaaaa", -2.75)];
    let s1 = "abaabbabaaaaaaaaaaaaaaaaaaaaaaabaaaaaaaaaaaaaaaaaaaaaaabc";
    let samples = [s1, "abaabbab", "cabbababaa"];
    std::fs::write("allow.regex", ".+").unwrap();
    let k = choose(5);
    let samples = if k == 1 { ["abaabbab", "aabababb", "bbaab"] } else { samples };
    std::fs::write("one.bin", samples.join("\0")).unwrap();
    const OPTS: [&[(&str, &[&str])]; 5] = [
        &[("--scale-factor", &["0", "0.5", "1", "1.5", "2.25", "-1"]), ("--num-merges", &["0", "1", "5", "1000000"]), ("--step", &["1", "3", "1000"]), ("--max-token-length", &["0", "1", "2", "23", "24", "25", "1000"])],
        &[("--dropout", &["0", "1", "0.5", "0.999"]), ("--shrink-factor", &["0", "0.1", "0.9", "0.99"]), ("--em-subiters", &["1", "3"]), ("--vocab-size", &["0", "3", "9", "10", "1000000"])],
        &[("--min-score", &["0", "2.5", "1e10", "-1e10", "-0.0", "-4.25", "-1e-300"]), ("--vocab-size", &["0", "1", "1000000"])],
        &[("--insert-probability", &["0", "0.5", "1", "2"]), ("--max-token-length", &["0", "1", "4", "70"]), ("--vocab-size", &["0", "255", "256", "257", "1000000"])],
        &[("--num-idioms", &["0", "1", "2", "1000000"])],
    ];
    let o = OPTS[k];
    let (name, values) = o[choose(o.len())];
    let v = values[choose(values.len())];
    let or = |n: &str, d: f64| if n == name { v.parse::<f64>().unwrap() } else { d };
    let int = |n: &str, d: usize| if n == name { v.parse::<usize>().unwrap() } else { d };
    let io = ["-i", "in.json", "-o", "out.json"];
    let train = ["--train", "x:one.bin"];
    let set = [name, v];
    rand::__fix(Some(0.3));
    match k {
        0 => {
            input(plain.clone(), &[], &[]);
            cmd(&[&["merge"][..], &io, &train, &["--allow", "allow.regex"], &set].concat());
            let mut m = Model::from(plain);
            let re = ::regex::Regex::new(".+").unwrap();
            ModelVocabularyMerger::new(re, int("--num-merges", 1000), int("--step", 50), or("--scale-factor", 0.9), int("--max-token-length", 24)).merge(&mut m, &samples);
            let Some(t) = result() else { return };
            check(same_vocab(t.model().vocab(), m.vocab()), 1);
        }
        1 => {
            input(vocab.clone(), &[], &[]);
            let size = int("--vocab-size", 4);
            let mut args = [&["prune"][..], &io, &train, &set].concat();
            if name != "--vocab-size" {
                args.extend(["--vocab-size", "4"]);
            }
            let mut m = Model::from(vocab);
            let r = ModelVocabularyPruner::new(size, or("--shrink-factor", 0.8), int("--em-subiters", 1), or("--dropout", 0.01)).prune(&mut m, &samples);
            if r.is_err() {
                xflags::__on_exit(|_| {});
                panic_ok(true);
            }
            cmd(&args);
            check(r.is_ok(), 4);
            let Some(t) = result() else { return };
            check(same_vocab(t.model().vocab(), m.vocab()), 1);
        }
        2 => {
            input(vocab.clone(), &[], &[]);
            let mut args = [&["filter"][..], &io, &set].concat();
            if name != "--min-score" {
                args.extend(["--min-score", "-4.1"]);
            }
            cmd(&args);
            let mut m = Model::from(vocab);
            VocabularyFilter::new(int("--vocab-size", 0), Some(or("--min-score", -4.1)), false).filter(&mut m);
            let Some(t) = result() else { return };
            check(same_set(t.model().vocab(), m.vocab()), 1);
        }
        3 => {
            let mut args = [&["generate", "-o", "out.json", "--allow", "allow.regex"][..], &train, &set].concat();
            if name != "--vocab-size" {
                args.extend(["--vocab-size", "1000"]);
            }
            cmd(&args);
            let mut g = VocabularyGenerator::new(int("--max-token-length", 24), or("--insert-probability", 0.1), None, Some(::regex::Regex::new(".+").unwrap()), vec![], vec![]);
            g.feed(&own(&samples));
            let want = g.generate(int("--vocab-size", 1000));
            let Some(t) = result() else { return };
            check(same_set(t.model().vocab(), &want), 1);
        }
        _ => {
            cmd(&[&["mine", "--pattern", "b+", "-o", "out.json"][..], &train, &set].concat());
            let got: Vec<String> = serde_json::from_str(&std::fs::read_to_string("out.json").unwrap()).unwrap();
            // "b" is in all samples and often, "bb" in two
            check(got.len() == int("--num-idioms", 0).min(2), 1);
            check(got.iter().zip(["b", "bb"]).all(|(a, b)| a == b), 2);
        }
    }
    reach(1);
    rand::__fix(None);
}
fn untouched() {
    check(std::fs::read("out.json").map_or(false, |b| b == b"before"), 1);
    check(std::fs::metadata("in.json").map_or(false, |m| m.len() > 100), 2);
}
/// Command lines that do not fit stop before anything is read or written.
#[no_mangle]
pub fn h_main_bad() {
    input(vec![tok(b"a", -1.0), tok(b"b", -2.0), tok(b"c", -3.0)], &[], &[]);
    std::fs::write("out.json", b"before").unwrap();
    std::fs::write("one.bin", b"abc").unwrap();
    std::fs::write("allow.regex", b"..").unwrap();
    const GOOD: [&[&str]; 6] = [
        &["filter", "-i", "in.json", "-o", "out.json"],
        &["merge", "-i", "in.json", "-o", "out.json", "--allow", "allow.regex"],
        &["prune", "-i", "in.json", "-o", "out.json", "-v", "2"],
        &["generate", "-o", "out.json", "-v", "300"],
        &["mine", "-n", "2", "-o", "out.json"],
        &["regex", "-o", "out.json"],
    ];
    let k = choose(6);
    let mut args: Vec<&str> = GOOD[k].to_vec();
    let what = choose(7);
    match what {
        // a required option missing (for the last: its value)
        0 => {
            let n = args.len();
            let i = 1 + 2 * choose((n - 1) / 2);
            if k == 5 {
                args.truncate(2);
            } else {
                args.drain(i..i + 2);
            }
        }
        // an option given twice
        1 => {
            let n = args.len();
            let i = 1 + 2 * choose((n - 1) / 2);
            let (a, b) = (args[i], args[i + 1]);
            args.extend([a, b]);
        }
        // an unknown option or argument
        2 => args.push(["--outptu", "x.json", "-z", "--force=true"][choose(4)]),
        // a value that is not a number
        3 => args.extend([
            [&["--min-score", "low"][..], &["--vocab-size", "-1"], &["--force", "yes"]][choose(3)],
            [&["--num-merges", "1.5"][..], &["--step", ""], &["--scale-factor", "x"]][choose(3)],
            [&["--dropout", "1/2"][..], &["--shrink-factor", ""], &["--em-subiters", "-1"]][choose(3)],
            [&["--insert-probability", "half"][..], &["--max-token-length", "2.0"], &["--max-token-length", "-3"]][choose(3)],
            &["-n", "2"],
            &["-v", "3"],
        ][k]),
        // an option of another command
        4 => args.extend([&["--step", "3"][..], &["--dropout", "0.5"], &["--allow", "allow.regex"], &["--input", "in.json"], &["--vocab-size", "4"], &["--train", "x:one.bin"]][k]),
        // no command, or another one
        5 => args[0] = ["filters", "", "Filter"][choose(3)],
        _ => args = vec![&[][..], &["--input", "in.json"], &["-h"], &["--help"]][choose(4)].to_vec(),
    }
    xflags::__on_exit(|_| {
        untouched();
        reach(1);
    });
    panic_ok(true);
    cmd(&args);
    check(false, 3);
}
entries!(h_main_filter, h_main_merge, h_main_merge_many, h_main_prune, h_main_generate, h_main_mine, h_main_list, h_main_exact, h_main_values, h_main_bad);
