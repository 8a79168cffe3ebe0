//! The commands as a whole: what they read, what they write.
use super::common::*;
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

/// `filter`: the processors and special tokens stay, the vocabulary is the
/// filtered one.
#[no_mangle]
pub fn h_cmd_filter() {
    hash_const(true);
    let (procs, sp) = config(true);
    let vocab = vec![tok(b"a", -1.0), ScoredToken::new(b"b".to_vec(), -4.0, true), tok(&[0xff], -2.5), tok(b"ab", -3.0)];
    input(vocab.clone(), &procs, &sp);
    let (size, min, force) = match choose(4) {
        0 => (0, Some(-2.75), false),
        1 => (3, Some(-1.5), true),
        2 => (0, None, true),
        _ => (2, Some(-2.0), false),
    };
    let (size_s, min_s, force_s) = (size.to_string(), min.map(|m| m.to_string()), force.to_string());
    let mut args = vec!["filter", "-i", "in.json", "-o", "out.json", "-v", &size_s, "--force", &force_s];
    if let Some(m) = &min_s {
        args.extend(["--min-score", m]);
    }
    cmd(&args);
    let mut m = Model::from(vocab);
    VocabularyFilter::new(size, min, force).filter(&mut m);
    if let Some(t) = kept(&procs, &sp) {
        check(same_vocab(t.model().vocab(), m.vocab()), 4);
        reach(1);
    }
}
/// `merge`: the samples are processed as the tokenizer would; the processors and
/// special tokens stay.
#[no_mangle]
pub fn h_cmd_merge() {
    hash_const(true);
    let (procs, sp) = config(true);
    let vocab = vec![tok(b"a", -1.0), tok(b"b", -1.5), tok(b"\r", -4.0), tok(b"\n", -4.0)];
    input(vocab.clone(), &procs, &sp);
    std::fs::write("train.bin", b"ab\r\nab\0a\r\n\0bb").unwrap();
    std::fs::write("allow.regex", "^[ab]+$|^\\s+$\n").unwrap();
    let n = 1 + choose(3);
    cmd(&["merge", "-i", "in.json", "-o", "out.json", "--train", "t:train.bin", "--allow", "allow.regex", "--num-merges", ["1", "2", "3"][n - 1], "--step", "1", "--scale-factor", "0.5", "--max-token-length", "4"]);
    let mut samples = own(&["ab\r\nab", "a\r\n", "bb"]);
    for s in samples.iter_mut() {
        for &k in &procs {
            *s = proc(k).preprocess(s);
        }
    }
    let mut m = Model::from(vocab);
    let refs: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    ModelVocabularyMerger::new(::regex::Regex::new("^[ab]+$|^\\s+$").unwrap(), n, 1, 0.5, 4).merge(&mut m, &refs);
    if let Some(t) = kept(&procs, &sp) {
        check(t.base_vocab_size() >= 4 && same_vocab(&t.model().vocab()[..4], &m.vocab()[..4]), 4);
        check(t.base_vocab_size() == m.vocab_size(), 5);
        // a carriage return is merged exactly when it survives processing
        check(procs.contains(&0) || n < 2 || t.model().vocab().iter().any(|t| t.value.contains(&b'\r') && t.value.len() > 1) == m.vocab().iter().any(|t| t.value.contains(&b'\r') && t.value.len() > 1), 6);
        check(!procs.contains(&0) || !t.model().vocab().iter().any(|t| t.value.contains(&b'\r') && t.value.len() > 1), 7);
        reach(1);
    }
}
/// `prune`: the same.
#[no_mangle]
pub fn h_cmd_prune() {
    hash_const(true);
    let (procs, sp) = config(true);
    let vocab = vec![
        ScoredToken::new(b"a".to_vec(), -2.0, true),
        ScoredToken::new(b"b".to_vec(), -2.5, true),
        ScoredToken::new(b"\n".to_vec(), -3.0, true),
        ScoredToken::new(b"\r".to_vec(), -3.5, true),
        tok(b"ab", -3.25),
        tok(b"\r\n", -3.75),
        tok(b"abab", -9.0),
    ];
    input(vocab.clone(), &procs, &sp);
    std::fs::write("train.bin", b"ab\r\nab\0ba\r\n").unwrap();
    cmd(&["prune", "-i", "in.json", "-o", "out.json", "-v", "6", "--train", "t:train.bin", "--dropout", "0", "--shrink-factor", "0.8", "--em-subiters", "0"]);
    let mut samples = own(&["ab\r\nab", "ba\r\n"]);
    for s in samples.iter_mut() {
        for &k in &procs {
            *s = proc(k).preprocess(s);
        }
    }
    let mut m = Model::from(vocab);
    let refs: Vec<&str> = samples.iter().map(|s| s.as_str()).collect();
    ModelVocabularyPruner::new(6, 0.8, 0, 0.0).prune(&mut m, &refs).unwrap();
    if let Some(t) = kept(&procs, &sp) {
        check(same_vocab(t.model().vocab(), m.vocab()), 4);
        reach(1);
    }
}
/// `generate`: the named processors, the special tokens and every listed token
/// end up in the file; the samples are processed first.
#[no_mangle]
pub fn h_cmd_generate() {
    let (procs, sp) = config(false);
    std::fs::write("train.bin", b"ab\r\nab\0a\r\n").unwrap();
    std::fs::write("more.bin", b"abc").unwrap();
    std::fs::write("added.json", "[\"zz\",\"ab\"]").unwrap();
    std::fs::write("suggested.json", "[\"yy\"]").unwrap();
    std::fs::write("more.json", "[\"x\\u00e9\"]").unwrap();
    std::fs::write("allow.regex", "^[abc]+$|^\\s+$").unwrap();
    std::fs::write("split.regex", "[ab]+|\\s+|c(?!d)").unwrap();
    let both = choose(2) == 1;
    let mut args = vec!["generate", "-o", "out.json", "-v", "300", "--train", "t:train.bin", "--train", "m:more.bin", "--suggested", "suggested.json", "--suggested", "more.json", "--added", "added.json"];
    args.extend(["--insert-probability", "1", "--max-token-length", "4"]);
    for &k in &procs {
        args.extend(["--processor", NAMES[k]]);
    }
    for s in &sp {
        args.extend(["--special", s]);
    }
    if both {
        args.extend(["--split", "split.regex", "--allow", "allow.regex"]);
    }
    cmd(&args);
    if let Some(t) = kept(&procs, &sp) {
        let has = |v: &[u8]| t.model().vocab().iter().find(|t| t.value == v).map(|t| t.keep);
        check(has(b"zz") == Some(true) && has(b"ab") == Some(true), 10);
        check(has(b"yy") == Some(false) && has("x\u{e9}".as_bytes()) == Some(false), 11);
        check((0..=255u8).all(|b| has(&[b]) == Some(true)), 12);
        check(has(b"\r\n").is_some() == !procs.contains(&0), 13);
        // the split keeps candidates within its pieces, the allow pattern too
        check(has(b"b\n").is_some() == (!both && procs.contains(&0)), 14);
        check(has(b"abc").is_some() == !both, 15);
        reach(1);
    }
}
/// `mine`: the file lists the most frequent idioms, most frequent first.
#[no_mangle]
pub fn h_cmd_mine() {
    hash_const(true);
    let n = 1 + choose(3);
    let s = letters(n, b'a', b'c');
    let mut f = b"std::a\0std::b std::a std::a\0".to_vec();
    f.extend_from_slice(b"std::");
    f.extend_from_slice(&s);
    std::fs::write("train.bin", &f).unwrap();
    cmd(&["mine", "-n", "2", "-o", "out.json", "--train", "t:train.bin", "-p", "std::[a-z]", "-p", "short-number"]);
    let v: Vec<String> = serde_json::from_str(&std::fs::read_to_string("out.json").unwrap()).unwrap();
    check(v.len() == 2, 1);
    if v.len() == 2 {
        check(v[0] == "std::a", 2);
        if s[0] == b'b' {
            check(v[1] == "std::b", 3);
            reach(1);
        }
        check(v[1] == "std::b" || v[1] == "std::c", 4);
    }
}
// ------------------------------------------------------------- failing I/O
/// A command whose reads or writes fail stops abnormally; one that ends has
/// written the complete result from complete inputs.
#[no_mangle]
pub fn h_io_cmd() {
    hash_const(true);
    let k = choose(6);
    let x = letters(2, b'a', b'b');
    let vocab = vec![tok(&[x[0], b'1'], -1.0), ScoredToken::new(b"c".to_vec(), -9.0, true), tok(&[x[1], b'2'], -9.0)];
    let mut train = b"std::a\0std::b std::".to_vec();
    train.extend_from_slice(&x[..1]);
    match k {
        0 => {}
        1 | 3 => std::fs::write("train.bin", &train).unwrap(),
        2 => drop(input(vocab.clone(), &[0], &own(&["<s>"]))),
        _ => {
            let keep = |v: &[u8]| ScoredToken::new(v.to_vec(), -1.0, true);
            input(vec![keep(b"a"), keep(b"b"), tok(b"aab", -9.0)], &[0], &own(&["<s>"]));
            std::fs::write("train.bin", b"ab").unwrap();
            std::fs::write("allow.regex", b"^ab$").unwrap();
        }
    }
    if k == 3 {
        std::fs::write("added.json", b"[\"zz\"]").unwrap();
    }
    let _ = std::fs::remove_file("out.json");
    let m = match k {
        2 => {
            let mut m = Model::from(vocab.clone());
            VocabularyFilter::new(2, Some(-5.0), false).filter(&mut m);
            Some(m)
        }
        _ => None,
    };
    panic_ok(true);
    fault::allow(1 + tier());
    match k {
        0 => cmd(&["regex", "-o", "out.json", "-p", "a[bc]", "-p", "short-number"]),
        1 => cmd(&["mine", "-n", "1", "-o", "out.json", "--train", "t:train.bin", "-p", "std::[a-z]"]),
        2 => cmd(&["filter", "-i", "in.json", "-o", "out.json", "-v", "2", "--min-score", "-5"]),
        3 => cmd(&["generate", "-o", "out.json", "-v", "260", "--train", "t:train.bin", "--processor", "crlf", "--special", "<s>", "--added", "added.json", "--insert-probability", "1", "--max-token-length", "2"]),
        4 => cmd(&["merge", "-i", "in.json", "-o", "out.json", "--train", "t:train.bin", "--allow", "allow.regex", "--num-merges", "1", "--step", "1", "--scale-factor", "0.5", "--max-token-length", "4"]),
        _ => cmd(&["prune", "-i", "in.json", "-o", "out.json", "-v", "2", "--train", "t:train.bin", "--dropout", "0", "--shrink-factor", "0.5", "--em-subiters", "0"]),
    }
    let hard = fault::hard();
    fault::allow(0);
    panic_ok(false);
    check(hard == 0, 1);
    match k {
        0 => {
            let f = std::fs::read_to_string("out.json").unwrap();
            let re = ::regex::Regex::new(&f).unwrap();
            check(re.is_match("ab") && re.is_match("12") && !re.is_match("ad"), 2);
            reach(1);
        }
        1 => {
            let v: Vec<String> = serde_json::from_str(&std::fs::read_to_string("out.json").unwrap()).unwrap();
            check(v.len() == 1 && same(v[0].as_bytes(), &[b's', b't', b'd', b':', b':', x[0]]), 3);
            reach(2);
        }
        _ => {
            let t = Tokenizer::from_file("out.json").unwrap();
            let v = t.model().vocab();
            match k {
                2 => check(same_vocab(v, m.unwrap().vocab()), 4),
                3 => check(v.len() == 260 && v.iter().any(|t| t.value == b"zz" && t.keep), 6),
                4 => check(v.len() == 4 && v[3].value == b"ab", 7),
                _ => check(v.len() == 2 && v.iter().all(|t| t.keep), 8),
            }
            check(same_procs(&t, &[0]) && specials(&t) == ["<s>"], 5);
            reach(k as u64 + 1);
        }
    }
}
entries!(h_io_cmd, h_cmd_filter, h_cmd_merge, h_cmd_prune, h_cmd_generate, h_cmd_mine);
