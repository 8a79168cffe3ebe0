//! Reading sources, processors, token lists and patterns.
use super::common::*;
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

// ------------------------------------------------------------------ sources
/// The samples of a file: its pieces between NULs without the empty ones, the
/// leading share of them, each processed, without those that became empty.
fn samples_ref(b: &[u8], share: (usize, usize), crlf: bool) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    for &c in b {
        if c == 0 {
            all.push(vec![]);
        } else {
            all.last_mut().unwrap().push(c);
        }
    }
    all.retain(|s| !s.is_empty());
    let n = all.len() * share.0 / share.1;
    all.truncate(n);
    all.iter().map(|s| if crlf { crlf_ref(s) } else { s.clone() }).filter(|s| !s.is_empty()).collect()
}
/// Any file of up to five (thorough: six) bytes, in two sources, with and
/// without a share and a processor.
#[no_mangle]
pub fn h_cmd_sources() {
    let n = choose(6 + tier() as usize);
    let b: Vec<u8> = (0..n)
        .map(|_| {
            let c = byte_in(0, 4);
            // NUL, \n, \r, a, b
            let mut r = 0;
            for (k, v) in [(1, b'\n'), (2, b'\r'), (3, b'a'), (4, b'b')] {
                r |= if c == k { v } else { 0 };
            }
            r
        })
        .collect();
    std::fs::write("one.bin", &b).unwrap();
    std::fs::write("two.bin", b"x\0\0yy\0").unwrap();
    let k = choose(5);
    let share = [(1, 1), (1, 2), (3, 4), (0, 1), (1, 1)][k];
    let p = ["", ":0.5", ":0.75", ":0", ":1.0"][k];
    let crlf = choose(2) == 1;
    rayon::__set_schedule(if n < 3 { 2 } else { 0 }, 1);
    let procs = if crlf { load_processors(&own(&["crlf"])) } else { vec![] };
    let got = load_sources(&[format!("first:one.bin{}", p), "second:two.bin".to_string()], &procs, "train");
    check(got.len() == 2 && got[0].name == "first" && got[1].name == "second", 1);
    if got.len() != 2 {
        return;
    }
    let want = samples_ref(&b, share, crlf);
    check(got[0].processed_samples.len() == want.len(), 2);
    for (g, w) in got[0].processed_samples.iter().zip(&want) {
        check(same(g.as_bytes(), w), 3);
    }
    check(got[1].processed_samples == ["x", "yy"], 4);
    // all of them are handed to the command, in any order
    let all = shuffled_train_samples(&got);
    check(all.len() == want.len() + 2, 5);
    let mut used = vec![false; all.len()];
    for w in want.iter().map(|w| &w[..]).chain([&b"x"[..], b"yy"]) {
        match (0..all.len()).find(|&i| !used[i] && same(all[i].as_bytes(), w)) {
            Some(i) => used[i] = true,
            None => check(false, 6),
        }
    }
    if want.len() > 1 {
        reach(1);
    }
}
/// Bytes that are not text stop the command.
#[no_mangle]
pub fn h_cmd_nottext() {
    let n = 1 + choose(2 + tier() as usize);
    let b = letters(n, 0, 255);
    std::fs::write("one.bin", &b).unwrap();
    let ok = b.split(|&c| c == 0).all(|p| std::str::from_utf8(p).is_ok());
    panic_ok(!ok);
    if !ok {
        reach(1);
    }
    load_sources(&["s:one.bin".to_string()], &[], "train");
    check(ok, 1);
    reach(2);
}
/// Any text, marks and blanks included, reaches the command as it is.
#[no_mangle]
pub fn h_cmd_sources_text() {
    rand::SHUFFLE_MODE.store(0, std::sync::atomic::Ordering::Relaxed);
    let n = 1 + choose(3 + tier() as usize);
    let b = letters(n, 0, 255);
    assume(b.iter().all(|&c| c != 0) && std::str::from_utf8(&b).is_ok());
    let k = choose(3);
    let one = match k {
        0 => b.clone(),
        1 => [&b[..], b"a"].concat(),
        _ => [b"a", &b[..]].concat(),
    };
    // as the first, the middle and the last sample of a file
    let at = choose(3);
    let parts: [&[u8]; 3] = [if at == 0 { &one } else { b"x" }, if at == 1 { &one } else { b"y" }, if at == 2 { &one } else { b"z" }];
    let mut f = parts.join(&0u8);
    if choose(2) == 1 {
        f.push(0);
    }
    std::fs::write("one.bin", &f).unwrap();
    // the same name or file may be listed again
    std::fs::write("two.bin", b"w").unwrap();
    let more = choose(4);
    let mut sources = vec!["s:one.bin".to_string()];
    sources.extend(own(&[&[][..], &["s:two.bin"], &["t:one.bin"], &["s:one.bin"]][more]));
    let got = load_sources(&sources, &[], "train");
    check(got.len() == sources.len(), 1);
    for (i, g) in got.iter().enumerate() {
        let want: &[&[u8]] = if i == 1 && more == 1 { &[b"w"] } else { &parts };
        check(g.processed_samples.len() == want.len(), 2);
        for (g, w) in g.processed_samples.iter().zip(want) {
            check(same(g.as_bytes(), w), 3);
        }
    }
    let n = shuffled_train_samples(&got).len();
    check(n == [3, 4, 6, 6][more], 4);
    reach(1);
}
/// Source descriptions that are not `name:path[:share]`, unknown processors and
/// missing files stop the command.
#[no_mangle]
pub fn h_cmd_badspec() {
    std::fs::write("one.bin", b"a\0b").unwrap();
    let k = choose(8);
    let s = ["s", "s:one.bin:x", "s:one.bin:1:2", "s:none.bin", "", ":one.bin", "s:one.bin:", "s:one.bin:0.5"][k];
    let ok = k == 5 || k == 7;
    panic_ok(!ok);
    if ok {
        reach(2);
    } else {
        reach(1);
    }
    let v = load_sources(&[s.to_string()], &[], "train");
    check(ok, 1);
    check(v[0].processed_samples.len() == if k == 5 { 2 } else { 1 }, 2);
}
/// Processor names mean the processors of that name, in the order given; any
/// other name of up to four bytes is refused.
#[no_mangle]
pub fn h_cmd_procs() {
    if choose(2) == 0 {
        let n = choose(4);
        let k: Vec<usize> = (0..n).map(|_| choose(5)).collect();
        let p = load_processors(&k.iter().map(|&k| NAMES[k].to_string()).collect::<Vec<_>>());
        let t = Tokenizer::new(Model::from(vec![tok(b"a", -1.0)]), p, &[] as &[String]);
        check(same_procs(&t, &k), 1);
        // and does the same
        let s = ["\r\n", "e\u{301}", "\u{e9}", "\u{fb01}", "a\r"][choose(5)];
        let mut want = s.to_string();
        let mut got = s.to_string();
        for (p, &k) in t.processors().iter().zip(&k) {
            want = proc(k).preprocess(&want);
            got = p.preprocess(&got);
        }
        check(got == want, 2);
        reach(1);
    } else {
        let n = choose(5);
        let b = letters(n, b'a', b'r');
        let ok = NAMES.iter().any(|n| same(n.as_bytes(), &b));
        panic_ok(!ok);
        if ok {
            reach(2);
        } else {
            reach(3);
        }
        load_processors(&[string(&b)]);
        check(ok, 3);
    }
}

/// Listed tokens come from all the files, in order.
#[no_mangle]
pub fn h_cmd_tokens() {
    let n = choose(3 + tier() as usize);
    let b = letters(n, b'a', b'd');
    let json = |s: &[u8]| serde_json::to_string(&[text(s), "\u{1f600}\"\\"]).unwrap();
    std::fs::write("a.json", json(&b)).unwrap();
    std::fs::write("b.json", "[]").unwrap();
    std::fs::write("c.json", " [ \"x\",\n\"\\n\" ] ").unwrap();
    let v = load_tokens(&own(&["a.json", "b.json", "c.json"]), "added");
    check(v.len() == 4 && same(v[0].as_bytes(), &b) && v[1] == "\u{1f600}\"\\" && v[2] == "x" && v[3] == "\n", 1);
    reach(1);
}
/// Reading listed tokens, patterns and sources through short and interrupted
/// reads gives their whole contents.
#[no_mangle]
pub fn h_io_read() {
    let k = choose(3);
    let b = letters(2, b'a', b'c');
    match k {
        0 => std::fs::write("f.json", serde_json::to_string(&["x", text(&b)]).unwrap()).unwrap(),
        1 => std::fs::write("f.json", [b"^[abc]+$|^", &b[..], b"d$"].concat()).unwrap(),
        _ => std::fs::write("f.json", [b"one\0", &b[..], b"\0\0three"].concat()).unwrap(),
    }
    panic_ok(true);
    fault::allow(2 + tier());
    match k {
        0 => {
            let v = load_tokens(&own(&["f.json"]), "added");
            check(v.len() == 2 && v[0] == "x" && same(v[1].as_bytes(), &b), 1);
            reach(1);
        }
        1 => {
            let r = load_regex("f.json");
            check(r.as_str().len() == 14 && r.is_match(&format!("{}d", text(&b))) && !r.is_match("bd"), 2);
            reach(2);
        }
        _ => {
            let v = load_sources(&own(&["s:f.json"]), &[], "train");
            check(v[0].processed_samples.len() == 3 && same(v[0].processed_samples[1].as_bytes(), &b) && v[0].processed_samples[2] == "three", 3);
            reach(3);
        }
    }
    check(fault::hard() == 0, 4);
    fault::allow(0);
}
/// Files with hundreds or thousands of samples, and long samples.
#[no_mangle]
pub fn h_cmd_sources_many() {
    let n = [63, 64, 65, 255, 256, 257, 1000, 5000][choose(8)];
    let mut b = vec![];
    for i in 0..n {
        match i % 3 {
            0 => b.extend_from_slice(b"ab\r\n"),
            1 => b.extend(vec![b'x'; 1 + i % 50]),
            _ => b.push(0),
        }
        b.push(0);
    }
    b.extend(vec![b'y'; [1, 66_000][choose(2)]]);
    b.push(byte_in(b'0', b'9'));
    std::fs::write("one.bin", &b).unwrap();
    // shares that no sum of samples comes close to, or that are exact
    let k = choose(6);
    let (share, p) = [((1, 1), ""), ((1, 2), ":0.5"), ((7, 8), ":0.875"), ((99_999_999, 100_000_000), ":0.99999999"), ((333_333, 1_000_000), ":0.333333"), ((20_001, 100_000_000), ":0.00020001")][k];
    let crlf = choose(2) == 1;
    rayon::__set_schedule(0, 1);
    let procs = if crlf { load_processors(&own(&["crlf"])) } else { vec![] };
    let got = load_sources(&[format!("first:one.bin{}", p)], &procs, "train");
    let want = samples_ref(&b, share, crlf);
    check(got.len() == 1 && got[0].processed_samples.len() == want.len(), 1);
    for (g, w) in got[0].processed_samples.iter().zip(&want) {
        check(same(g.as_bytes(), w), 2);
    }
    reach(1);
}
entries!(h_io_read, h_cmd_sources, h_cmd_nottext, h_cmd_badspec, h_cmd_procs, h_cmd_tokens, h_cmd_sources_many, h_cmd_sources_text);
