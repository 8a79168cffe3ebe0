//! Saving and loading.
use crate::util::*;
use sym::*;
use tokengeex::*;

/// Scores that are hard to print or to read back.
pub const SCORES: [f64; 24] = [
    -1.0, -0.1, 0.0, -12.72266966561462, -6.478377202549375, 1.0, 0.5, -1e-7, -123456789.125, 1e21, 1e300, -1e-300, 5e-324, -1.7976931348623157e308, 2.2250738585072014e-308, -0.30000000000000004, 9007199254740993.0,
    -4503599627370497.5, 1.0e-5, 123e-20, -2.0 / 3.0, -7.0 / 11.0, 0.00390625, -1000000.0000001,
];
fn ulp_close(a: f64, b: f64) -> bool {
    let (x, y) = (a.to_bits() as i64, b.to_bits() as i64);
    a == b || (a.is_sign_negative() == b.is_sign_negative() && (x - y).abs() <= 1)
}
fn json<T: serde::Serialize>(t: &T) -> String {
    match serde_json::to_string(t) {
        Ok(s) => s,
        Err(_) => {
            check(false, 90);
            String::new()
        }
    }
}
fn token_rt(t: &ScoredToken) {
    let s = json(t);
    match serde_json::from_str::<ScoredToken>(&s) {
        Ok(u) => {
            check(same(&u.value, &t.value), 1);
            check(ulp_close(u.score, t.score), 2);
            check(u.keep == t.keep, 3);
            observe_bytes(&u.value);
        }
        Err(_) => check(false, 4),
    }
}
/// Any token bytes.
#[no_mangle]
pub fn h_ser_token() {
    let n = len_upto(2 + tier() as usize);
    let mut v = letters(n.min(2), 0, 255);
    if n == 3 {
        v.push([0x0a, 0x7f, 0x80, 0xa9, 0xff][choose(5)]);
    }
    token_rt(&ScoredToken::new(v, -1.5, bit()));
    reach(1);
}
/// Longer tokens that are not UTF-8, every length modulo the base64 group, a
/// symbolic byte at each end and one inside.
#[no_mangle]
pub fn h_ser_b64() {
    let n = 1 + choose(if tier() == 0 { 9 } else { 40 });
    let mut v: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(0x80)).collect();
    let k = if choose(2) == 0 { 0 } else { n - 1 };
    v[k] = byte_in(0, 255);
    v[n / 2] = [0x80, 0x0c, 0xc3, 0xff][choose(4)];
    token_rt(&ScoredToken::new(v, -2.0, false));
    reach(1);
}
/// Text that looks like base64 stays text.
#[no_mangle]
pub fn h_ser_text() {
    let n = 4 * len_upto(2);
    let mut v = b"QUJDREVG".to_vec();
    v.truncate(n);
    v.extend(utf8(1 + choose(2)));
    token_rt(&ScoredToken::new(v, -2.0, true));
    reach(1);
}
#[no_mangle]
pub fn h_ser_scores() {
    let n = SCORES.len();
    let mut sc = SCORES[choose(n)];
    match choose(if tier() == 0 { 3 } else { 9 }) {
        0 => {}
        1 => sc = f64::from_bits(sc.to_bits() + 1),
        2 => sc = -sc,
        k => sc = (sc / (k as f64 * 1.37)).ln().abs(),
    }
    assume(sc.is_finite());
    let t = ScoredToken::new(b"x".to_vec(), sc, false);
    let s = json(&t);
    match serde_json::from_str::<ScoredToken>(&s) {
        Ok(u) => {
            check(ulp_close(u.score, sc), 1);
            // a second trip changes nothing further than the first allows
            check(u.score.to_bits() == sc.to_bits() || sc.abs() < 1e-290 || (u.score - sc).abs() <= sc.abs() * 3e-16, 2);
            reach(1);
        }
        Err(_) => check(false, 3),
    }
}
const PROCS: [&str; 5] = ["crlf", "nfc", "nfd", "nfkc", "nfkd"];
fn mkproc(k: usize) -> ProcessorWrapper {
    match k {
        0 => CrlfProcessor.into(),
        1 => UnicodeProcessor::Nfc.into(),
        2 => UnicodeProcessor::Nfd.into(),
        3 => UnicodeProcessor::Nfkc.into(),
        _ => UnicodeProcessor::Nfkd.into(),
    }
}
fn proc_is(p: &ProcessorWrapper, k: usize) -> bool {
    match p {
        ProcessorWrapper::Crlf(_) => k == 0,
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfc) => k == 1,
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfd) => k == 2,
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc) => k == 3,
        ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd) => k == 4,
    }
}
struct Spec {
    vocab: Vec<ScoredToken>,
    procs: Vec<usize>,
    specials: Vec<Vec<u8>>,
}
fn build(s: &Spec) -> Tokenizer {
    Tokenizer::new(Model::from(s.vocab.clone()), s.procs.iter().map(|&k| mkproc(k)), s.specials.iter().map(|w| text(w)))
}
fn agrees(t: &Tokenizer, s: &Spec) {
    let v = t.model().vocab();
    check(v.len() == s.vocab.len(), 10);
    for (a, b) in v.iter().zip(&s.vocab) {
        check(same(&a.value, &b.value), 11);
        check(ulp_close(a.score, b.score), 12);
        check(a.keep == b.keep, 13);
    }
    let p = t.processors();
    check(p.len() == s.procs.len(), 14);
    for (a, &k) in p.iter().zip(&s.procs) {
        check(proc_is(a, k), 15);
    }
    let sp = t.special_tokens();
    check(sp.len() == s.specials.len(), 16);
    for (i, (a, b)) in sp.iter().zip(&s.specials).enumerate() {
        check(same(a.as_bytes(), b), 17);
        check(t.special_token_to_id(text(b)) == Some((s.vocab.len() + i) as u32), 18);
    }
    check(t.vocab_size() == s.vocab.len() + s.specials.len(), 19);
}
/// 0: compact string, 1: pretty, through a file.
fn store_load(t: &Tokenizer, how: usize) -> Option<Tokenizer> {
    if how == 0 {
        t.to_string().parse::<Tokenizer>().ok()
    } else {
        if t.save("saved.json").is_err() {
            check(false, 91);
            return None;
        }
        Tokenizer::from_file("saved.json").ok()
    }
}
/// Any special-token text, including characters JSON must escape.
#[no_mangle]
pub fn h_ser_specials() {
    hash_const(true);
    let n = 1 + choose(2);
    let a = if n == 1 { letters(1, 0, 127) } else { utf8(2) };
    let s = Spec { vocab: vec![tok(b"a", -1.0)], procs: vec![], specials: vec![b"<s>".to_vec(), a] };
    let t = build(&s);
    match store_load(&t, choose(2)) {
        Some(u) => {
            agrees(&u, &s);
            reach(1);
        }
        None => check(false, 1),
    }
}
/// Vocabulary entries in any order, with duplicates, any bytes.
#[no_mangle]
pub fn h_ser_vocab() {
    hash_const(true);
    let mut vocab = vec![tok(b"ab", -0.5)];
    for i in 0..2 {
        let n = if i == 0 { choose(3) } else { 1 };
        let mut v = vec![];
        if n == 2 {
            v.push([b'\\', b'a', 0xc3, 0xe4][choose(4)]);
        }
        if n > 0 {
            v.push(byte_in(if i == 0 { 0 } else { 0x5b }, if i == 0 { 255 } else { 0x63 }));
        }
        vocab.push(ScoredToken::new(v, SCORES[3 + i], i == 0));
    }
    let s = Spec { vocab, procs: vec![0, 4], specials: vec![b"|".to_vec()] };
    let t = build(&s);
    match store_load(&t, choose(2)) {
        Some(u) => {
            agrees(&u, &s);
            reach(1);
        }
        None => check(false, 1),
    }
}
/// Every sequence of up to three processors; behaviour on text is the same.
#[no_mangle]
pub fn h_ser_procs() {
    let n = choose(4);
    let procs: Vec<usize> = (0..n).map(|_| choose(5)).collect();
    let s = Spec { vocab: vec![tok(b"a", -1.0)], procs, specials: vec![] };
    let t = build(&s);
    match store_load(&t, choose(2)) {
        Some(u) => {
            agrees(&u, &s);
            check(t.to_string() == u.to_string(), 2);
            reach(1);
        }
        None => check(false, 1),
    }
}
/// A loaded tokenizer encodes and decodes like the one that was saved.
#[no_mangle]
pub fn h_ser_behaves() {
    hash_const(true);
    let w = letters(2, b'a', b'c');
    let vocab = vec![tok(b"a", -2.0), tok(b"b", -2.5), tok(b"\n", -1.0), tok(&w, -3.0), tok(b"bab", -3.25)];
    let s = Spec { vocab, procs: vec![0], specials: vec![b"ba".to_vec(), b"<s>".to_vec()] };
    let t = build(&s);
    let n = len_upto(3 + tier() as usize);
    let x = letters(n, b'a', b'c');
    match store_load(&t, 0) {
        Some(u) => {
            for ord in [true, false] {
                let (p, q) = if ord { (t.encode_ordinary(text(&x), 0.0), u.encode_ordinary(text(&x), 0.0)) } else { (t.encode(text(&x), 0.0), u.encode(text(&x), 0.0)) };
                match (p, q) {
                    (Ok(p), Ok(q)) => {
                        check(p == q, 1);
                        check(t.decode(&p, true).unwrap() == u.decode(&p, true).unwrap(), 2);
                        reach(1);
                    }
                    (Err(_), Err(_)) => reach(2),
                    _ => check(false, 3),
                }
            }
        }
        None => check(false, 4),
    }
}
/// A vocabulary of thousands of tokens through a file: order, count and every
/// entry survive.
#[no_mangle]
pub fn h_ser_large() {
    let n = [255, 256, 257, 1000, 4097][choose(if tier() == 0 { 4 } else { 5 })];
    let mut vocab: Vec<ScoredToken> = (0..n).map(|i: usize| ScoredToken::new(vec![(i % 251) as u8, (i / 251) as u8, b'x'], -(i as f64) * 0.37, i % 5 == 0)).collect();
    let k = [0, n / 2, n - 1][choose(3)];
    vocab[k].value[1] = byte_in(0xc0, 0xc7);
    vocab[k].value[0] = b'q';
    let s = Spec { vocab, procs: vec![1], specials: (0..3).map(|i| vec![b'<', b'0' + i, b'>']).collect() };
    let t = build(&s);
    match store_load(&t, choose(2)) {
        Some(u) => {
            agrees(&u, &s);
            reach(1);
        }
        None => check(false, 1),
    }
}
/// Saving over an existing, longer file leaves exactly the new contents.
#[no_mangle]
pub fn h_ser_overwrite() {
    hash_const(true);
    let long = [20, 4000, 5000, 70_000][choose(4)];
    let a = Spec { vocab: vec![tok(&vec![b'a'; long], -1.0), tok(b"b", -1.0), tok(b"c", -4.0)], procs: vec![0, 1], specials: vec![b"<one>".to_vec()] };
    let b = Spec { vocab: vec![tok(&letters(1 + choose(2), 0x1e, 0x23), -2.0)], procs: vec![], specials: vec![] };
    check(build(&a).save("saved.json").is_ok(), 1);
    check(build(&b).save("saved.json").is_ok(), 2);
    match Tokenizer::from_file("saved.json") {
        Ok(u) => {
            agrees(&u, &b);
            reach(1);
        }
        Err(_) => check(false, 3),
    }
    check(Tokenizer::from_file("no-such-file.json").is_err(), 4);
}

// ---------------------------------------------------------------- failing I/O
fn io_spec() -> Spec {
    let mut v = vec![tok(b"a", -1.0), ScoredToken::new(vec![0xe9, 0x80], -2.25, true)];
    v.push(tok(&letters(1, b'b', b'e'), -3.0));
    Spec { vocab: v, procs: vec![0], specials: vec![b"<s>".to_vec()] }
}
/// Saving while opens and writes fail, are interrupted or stop short: success is
/// reported exactly when nothing irreparable happened, and then the whole tokenizer
/// is in the file; after a failure the file never loads as a different tokenizer.
#[no_mangle]
pub fn h_io_save() {
    hash_const(true);
    let s = io_spec();
    let t = build(&s);
    let old = choose(2) == 1;
    if old {
        let o = Spec { vocab: vec![tok(b"old", -1.0)], procs: vec![1], specials: vec![] };
        check(build(&o).save("saved.json").is_ok(), 1);
    } else {
        let _ = std::fs::remove_file("saved.json");
    }
    fault::allow(2 + tier());
    let r = t.save("saved.json");
    let hard = fault::hard();
    fault::allow(0);
    check(r.is_ok() == (hard == 0), 2);
    match (r, Tokenizer::from_file("saved.json")) {
        (Ok(()), Ok(u)) => {
            agrees(&u, &s);
            reach(1);
        }
        (Ok(()), Err(_)) => check(false, 3),
        (Err(_), Ok(u)) => {
            // the old contents, untouched
            check(old && u.vocab_size() == 1 && u.model().vocab()[0].value == b"old", 4);
            reach(2);
        }
        (Err(_), Err(_)) => reach(3),
    }
}
/// Loading while opens and reads fail, are interrupted or stop short: the result
/// is the stored tokenizer or an error.
#[no_mangle]
pub fn h_io_load() {
    hash_const(true);
    let s = io_spec();
    check(build(&s).save("saved.json").is_ok(), 1);
    fault::allow(2 + tier());
    let r = Tokenizer::from_file("saved.json");
    let hard = fault::hard();
    fault::allow(0);
    check(r.is_ok() == (hard == 0), 2);
    match r {
        Ok(u) => {
            agrees(&u, &s);
            reach(1);
        }
        Err(_) => reach(2),
    }
}

// ---------------------------------------------------------------- loading
const TEMPLATE: &str = r#"{"version":"2.0","special_tokens":["<s>","b"],"processors":[{"type":"crlf"},{"type":"unicode","form":"nfc"}],"vocab":[{"value":"a","score":-1.5},{"value":"w6k","score":-2.25,"encoded":true},{"value":"b\n","score":3,"keep":true}]}"#;

fn parse(b: &[u8]) -> Option<std::result::Result<Tokenizer, ()>> {
    match std::str::from_utf8(b) {
        Ok(s) => Some(s.parse::<Tokenizer>().map_err(|_| ())),
        Err(_) => None,
    }
}
/// A loaded tokenizer is always a usable one: storing and loading it again gives
/// the same contents, and it encodes and decodes without failing abnormally.
fn usable(t: &Tokenizer) {
    let s = t.to_string();
    match s.parse::<Tokenizer>() {
        Ok(u) => {
            check(u.vocab_size() == t.vocab_size() && u.processors().len() == t.processors().len(), 20);
            for (a, b) in t.model().vocab().iter().zip(u.model().vocab()) {
                check(same(&a.value, &b.value) && a.keep == b.keep, 21);
            }
            for (a, b) in t.special_tokens().iter().zip(u.special_tokens()) {
                check(same(a.as_bytes(), b.as_bytes()), 22);
            }
        }
        Err(_) => check(t.model().vocab().iter().any(|v| !v.score.is_finite()), 23),
    }
    let _ = t.encode("ab<s>", 0.0);
    let _ = t.decode(&[0, 1, 2, 3], true);
}
/// One byte of a valid document replaced by any byte, at every position.
#[no_mangle]
pub fn h_load_byte() {
    hash_const(true);
    let mut b = TEMPLATE.as_bytes().to_vec();
    let step = if tier() == 0 { 1 } else { 1 };
    let k = choose(b.len() / step) * step;
    b[k] = byte_in(0, 127);
    match parse(&b) {
        Some(Ok(t)) => {
            reach(1);
            usable(&t);
        }
        Some(Err(())) => reach(2),
        None => {}
    }
}
/// One character inserted, or a stretch removed, at every position.
#[no_mangle]
pub fn h_load_edit() {
    hash_const(true);
    let b = TEMPLATE.as_bytes();
    let k = choose(b.len());
    let mut v = b[..k].to_vec();
    match choose(3) {
        0 => {
            v.push(byte_in(0, 127));
            v.extend_from_slice(&b[k..]);
        }
        1 => v.extend_from_slice(&b[(k + 1).min(b.len())..]),
        _ => v.extend_from_slice(&b[(k + 2 + choose(6 + 20 * tier() as usize)).min(b.len())..]),
    }
    match parse(&v) {
        Some(Ok(t)) => {
            reach(1);
            usable(&t);
        }
        Some(Err(())) => reach(2),
        None => {}
    }
}
/// Every truncation is rejected.
#[no_mangle]
pub fn h_load_trunc() {
    let b = TEMPLATE.as_bytes();
    let k = choose(b.len());
    let mut v = b[..k].to_vec();
    for _ in 0..choose(2) {
        v.push(byte_in(9, 32));
    }
    match parse(&v) {
        Some(r) => check(r.is_err(), 1),
        None => {}
    }
    reach(1);
}
/// Anything but blanks around a document keeps it from being loaded.
#[no_mangle]
pub fn h_load_around() {
    hash_const(true);
    let n = 1 + choose(2 + tier() as usize);
    let x = letters(n, 0, 255);
    assume(std::str::from_utf8(&x).is_ok());
    let d = TEMPLATE.as_bytes();
    let doc = match choose(2) {
        0 => [&x, d].concat(),
        _ => [d, &x].concat(),
    };
    let blank = x.iter().all(|&c| c == b' ' || c == b'\n' || c == b'\r' || c == b'\t');
    match parse(&doc) {
        Some(Ok(t)) => {
            check(blank, 1);
            usable(&t);
            reach(1);
        }
        Some(Err(())) => {
            check(!blank, 2);
            reach(2);
        }
        None => {}
    }
}
/// Only version 2.0 is accepted.
#[no_mangle]
pub fn h_load_version() {
    let n = choose(5);
    let v = letters(n, b'-', b'3');
    let s = TEMPLATE.replacen("2.0", text(&v), 1);
    let ok = s.parse::<Tokenizer>().is_ok();
    check(ok == same(&v, b"2.0"), 1);
    if ok {
        reach(1)
    } else {
        reach(2)
    }
}
/// Fields in any order give the same tokenizer; missing or unknown ones do not
/// load (processors, specials and vocabulary default to empty).
#[no_mangle]
pub fn h_load_fields() {
    let f = ["\"version\":\"2.0\"", "\"special_tokens\":[\"<s>\"]", "\"processors\":[{\"type\":\"crlf\"}]", "\"vocab\":[{\"value\":\"a\",\"score\":-1.5}]"];
    let mut order = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        let j = choose(i + 1);
        order.swap(i, j);
    }
    let drop = choose(5);
    let mut parts: Vec<&str> = order.iter().filter(|&&i| i != drop).map(|&i| f[i]).collect();
    let extra = choose(2) == 1;
    if extra {
        let at = choose(parts.len() + 1);
        parts.insert(at, "\"extra\":1");
    }
    let s = format!("{{{}}}", parts.join(","));
    match s.parse::<Tokenizer>() {
        Ok(t) => {
            check(!extra && drop != 0, 1);
            check(t.special_vocab_size() == (drop != 1) as usize, 2);
            check(t.processors().len() == (drop != 2) as usize, 3);
            check(t.base_vocab_size() == (drop != 3) as usize, 4);
            reach(1);
        }
        Err(_) => {
            check(extra || drop == 0, 5);
            reach(2);
        }
    }
}
/// Token entries: field order, missing fields, unknown fields.
#[no_mangle]
pub fn h_load_token() {
    let x = byte_in(0x23, 0x7e);
    assume(x != b'\\');
    let val = format!("\"value\":\"{}{}\"", x as char, x as char);
    let f = [val.as_str(), "\"score\":-1.25", "\"keep\":true", "\"encoded\":false"];
    let mut order = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        let j = choose(i + 1);
        order.swap(i, j);
    }
    let drop = choose(5);
    let parts: Vec<&str> = order.iter().filter(|&&i| i != drop).map(|&i| f[i]).collect();
    let s = format!("{{{}}}", parts.join(","));
    match serde_json::from_str::<ScoredToken>(&s) {
        Ok(t) => {
            check(drop > 1, 1);
            check(same(&t.value, &[x, x]), 2);
            check(t.score == -1.25, 3);
            check(t.keep == (drop != 2), 4);
            reach(1);
        }
        Err(_) => {
            check(drop <= 1, 5);
            reach(2);
        }
    }
}
fn b64_ref(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 == 1 {
        return None;
    }
    let mut bits: u32 = 0;
    let mut n = 0;
    let mut out = vec![];
    for &c in s {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return None,
        };
        bits = bits << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
            bits &= (1 << n) - 1;
        }
    }
    if bits != 0 {
        return None;
    }
    Some(out)
}
/// Encoded token values: exactly the unpadded base64 strings are accepted and
/// mean what base64 says.
#[no_mangle]
pub fn h_load_b64() {
    let n = choose(5);
    let mut v = b"QUJD".to_vec();
    v.truncate(4 * choose(2));
    for i in 0..n {
        v.push(if tier() == 0 && i + 2 < n { b'Z' } else { byte_in(0x20, 0x7e) });
    }
    assume(v.iter().all(|&c| c != b'\\' && c != b'"'));
    // what may not be there at all, before or after
    let odd = choose(9);
    let e = [("", ""), ("\n", "\\n"), ("\r\n", "\\r\\n"), ("\t", "\\t"), (" ", " "), ("=", "="), ("\0", "\\u0000"), ("\u{a0}", "\u{a0}"), ("==", "==")][odd];
    let front = odd > 0 && choose(2) == 1;
    let t = text(&v);
    let s = if front { format!("{{\"value\":\"{}{}\",\"score\":-1.0,\"encoded\":true}}", e.1, t) } else { format!("{{\"value\":\"{}{}\",\"score\":-1.0,\"encoded\":true}}", t, e.1) };
    let want = if odd > 0 { None } else { b64_ref(&v) };
    match serde_json::from_str::<ScoredToken>(&s) {
        Ok(t) => {
            check(want.map_or(false, |w| same(&w, &t.value)), 1);
            reach(1);
        }
        Err(_) => {
            check(want.is_none(), 2);
            reach(2);
        }
    }
}
/// Escapes in token text: `\uXXXX` with any hex digits, surrogates included.
#[no_mangle]
pub fn h_load_escape() {
    hash_const(true);
    let d = [byte_in(b'0', b'f'), byte_in(b'0', b'f')];
    let hi = [b"00", b"d8", b"dc", b"e0"][choose(4)];
    let mut s = br#"{"version":"2.0","special_tokens":[],"processors":[],"vocab":[{"value":"\u"#.to_vec();
    s.extend_from_slice(hi);
    s.extend_from_slice(&d);
    if choose(2) == 1 {
        s.extend_from_slice(b"\\udc00");
    }
    s.extend_from_slice(br#"","score":-1}]}"#);
    match parse(&s) {
        Some(Ok(t)) => {
            reach(1);
            check(t.base_vocab_size() == 1, 1);
            check(std::str::from_utf8(&t.model().vocab()[0].value).is_ok(), 2);
        }
        _ => reach(2),
    }
}
/// Long strings: tokens (text or not) and special tokens around 65536 bytes; hundreds
/// of special tokens.
#[no_mangle]
pub fn h_ser_long() {
    let n = [255, 256, 1023, 4097, 70_000][choose(5)];
    let mut w = vec![b'c'; n];
    for i in 1..n {
        w[i] = b'a' + (i % 7) as u8;
    }
    let what = choose(3);
    let mut specials: Vec<Vec<u8>> = (0..if n == 256 { 300 } else { 1 }).map(|i| format!("<{}>", i).into_bytes()).collect();
    match what {
        0 => w[n - 1] = byte_in(b'x', 0x7f),
        1 => w[n / 2] = if n > 4000 { 0xf0 + choose(16) as u8 } else { byte_in(0xf0, 0xff) },
        _ => {
            specials.push(w.clone());
            w.truncate(3);
        }
    }
    let s = Spec { vocab: vec![tok(b"a", -1.0), tok(&w, -2.0), tok(b"b", -1.5)], procs: vec![0, 2, 1, 0], specials };
    let t = build(&s);
    match store_load(&t, choose(2)) {
        Some(u) => {
            agrees(&u, &s);
            reach(1);
        }
        None => check(false, 1),
    }
}
/// A document with a very long token: loaded, copied, used and released.
#[no_mangle]
pub fn h_load_long() {
    let n = [1000, 250_000][choose(2)];
    let mut w = vec![b'a'; n];
    w[0] = byte_in(b'c', b'd');
    let doc = [&br#"{"version":"2.0","special_tokens":[],"processors":[],"vocab":[{"value":"a","score":-1.0},{"value":""#[..], &w, br#"","score":-2.0}]}"#].concat();
    match std::str::FromStr::from_str(text(&doc)) {
        Ok(t) => {
            let t: Tokenizer = t;
            let u = t.clone();
            drop(t);
            check(u.encode(text(&w), 0.0).map_or(false, |x| x == [1]), 1);
            reach(1);
        }
        Err(_) => check(false, 2),
    }
}
entries!(
    h_io_save,
    h_io_load,
    h_ser_token, h_ser_b64, h_ser_text, h_ser_scores, h_ser_specials, h_ser_vocab, h_ser_procs, h_ser_behaves, h_ser_large, h_ser_overwrite, h_load_byte, h_load_edit, h_load_trunc, h_load_around, h_load_version, h_load_fields, h_load_token, h_load_b64, h_load_escape, h_ser_long, h_load_long);
