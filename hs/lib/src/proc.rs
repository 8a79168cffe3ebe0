//! Text processors and the processing pipeline.
use crate::util::*;
use sym::*;
use tokengeex::*;
#[path = "unitab.rs"]
mod unitab;

/// Exactly the two-character line ends are replaced, anywhere, in any text.
#[no_mangle]
pub fn h_crlf_small() {
    let n = len_upto(6 + 3 * tier() as usize);
    let s = letters(n, 0x0a, 0x0d);
    crlf(&s);
}
#[no_mangle]
pub fn h_crlf_utf8() {
    let pre = [&b""[..], b"\r", b"\n", "\u{e9}\r".as_bytes(), "\u{4f60}".as_bytes()][choose(5)];
    let mut s = pre.to_vec();
    s.extend(utf8(2));
    s.extend_from_slice([&b""[..], b"\n", b"\r\n", "\u{10d0a}\n".as_bytes()][choose(4)]);
    crlf(&s);
}
/// A four-byte window slides over long inputs (lengths around machine words and
/// vector sizes).
#[no_mangle]
pub fn h_crlf_long() {
    let n = if tier() == 0 { 72 } else { 300 };
    let k = choose(n - 4);
    let mut s = vec![b'x'; n];
    for i in 0..3 {
        s[k + i] = byte_in(0x0a, 0x0d);
    }
    if choose(2) == 1 {
        s.truncate(k + 3);
    }
    crlf(&s);
}
/// Many line ends: every one is replaced.
#[no_mangle]
pub fn h_crlf_many() {
    let m = [1, 2, 7, 16, 33, 64, 129, 300][choose(8)];
    let mut s = vec![];
    let odd = if m <= 16 || tier() > 0 { choose(m) } else { [0, m / 2, m - 1][choose(3)] };
    for i in 0..m {
        s.extend_from_slice(b"ab");
        if i == odd {
            s.push(byte_in(0x0a, 0x0d));
            s.push(byte_in(0x0a, 0x0d));
        } else {
            s.extend_from_slice(b"\r\n");
        }
    }
    crlf(&s);
}
fn crlf(s: &[u8]) {
    let p = CrlfProcessor;
    let w: ProcessorWrapper = CrlfProcessor.into();
    let want = crlf_ref(s);
    let got = p.preprocess(text(s));
    check(got.len() == want.len(), 1);
    check(same(got.as_bytes(), &want), 2);
    check(same(w.preprocess(text(s)).as_bytes(), &want), 3);
    check(same(p.postprocess(text(s)).as_bytes(), s), 4);
    check(same(w.postprocess(text(s)).as_bytes(), s), 5);
    observe_bytes(got.as_bytes());
    reach(1);
}

fn form(k: usize) -> UnicodeProcessor {
    match k {
        0 => UnicodeProcessor::Nfc,
        1 => UnicodeProcessor::Nfd,
        2 => UnicodeProcessor::Nfkc,
        _ => UnicodeProcessor::Nfkd,
    }
}
fn push_char(v: &mut Vec<u8>, c: u32) {
    let mut b = [0u8; 4];
    v.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut b).as_bytes());
}
/// ASCII is unchanged by every form; so is decoded text.
#[no_mangle]
pub fn h_uni_ascii() {
    // one arbitrary byte in every position of a short ASCII context
    let n = 1 + choose(3 + tier() as usize);
    let k = choose(n);
    let fill = [b'a', b'~', b'\r', 0x7f, b'Z'][choose(3 + 2 * tier() as usize)];
    let mut s = vec![fill; n];
    s[k] = byte_in(0, 127);
    let p = form(choose(4));
    check(same(p.preprocess(text(&s)).as_bytes(), &s), 1);
    check(same(p.postprocess(text(&s)).as_bytes(), &s), 2);
    reach(1);
}
#[no_mangle]
pub fn h_uni_post() {
    let s = ["e\u{301}", "\u{fb01}", "\u{e9}", "\u{212b}", "\u{ac01}", "\r\n"][choose(6)];
    let w: ProcessorWrapper = form(choose(4)).into();
    check(w.postprocess(s) == s, 1);
    reach(1);
}
/// Single characters, all values in each block, against the reference table.
#[no_mangle]
pub fn h_uni_table() {
    let nb = unitab::TAB.len();
    let b = choose(if tier() == 0 { 9 } else { nb });
    let (lo, hi, tab) = unitab::TAB[b];
    let c = u64_in(lo as u64, hi as u64) as u32;
    let row = &tab[(c - lo) as usize];
    assume(!row[0].is_empty());
    let mut s = vec![];
    push_char(&mut s, c);
    for k in 0..4 {
        let p: ProcessorWrapper = form(k).into();
        check(p.preprocess(text(&s)) == row[k], 1);
    }
    reach(1);
}
/// Hangul syllables follow the arithmetic definition.
#[no_mangle]
pub fn h_uni_hangul() {
    let i = choose(if tier() == 0 { 28 * 21 * 2 } else { 11172 }) as u32;
    let mut d = vec![];
    push_char(&mut d, 0x1100 + i / 588);
    push_char(&mut d, 0x1161 + i % 588 / 28);
    if i % 28 != 0 {
        push_char(&mut d, 0x11a7 + i % 28);
    }
    let mut s = vec![];
    push_char(&mut s, 0xac00 + i);
    for k in 0..4 {
        let want = if k % 2 == 0 { &s } else { &d };
        check(same(form(k).preprocess(text(&s)).as_bytes(), want), 1);
        check(same(form(k).preprocess(text(&d)).as_bytes(), want), 2);
    }
    reach(1);
}
/// A letter with up to three combining marks in any order: stable, ordered, and
/// composed form agrees with the decomposed one.
#[no_mangle]
pub fn h_uni_marks() {
    const M: [(u32, u8); 6] = [(0x301, 230), (0x327, 202), (0x323, 220), (0x308, 230), (0x345, 240), (0x31b, 216)];
    let base = byte_in(b'a', b'z');
    let n = 1 + choose(2 + tier() as usize);
    let ms: Vec<(u32, u8)> = (0..n).map(|_| M[choose(6)]).collect();
    let mut s = vec![base];
    for m in &ms {
        push_char(&mut s, m.0);
    }
    // canonical order: a stable sort by class
    let mut o = ms.clone();
    for i in 1..o.len() {
        let mut j = i;
        while j > 0 && o[j - 1].1 > o[j].1 {
            o.swap(j - 1, j);
            j -= 1;
        }
    }
    let mut d = vec![base];
    for m in &o {
        push_char(&mut d, m.0);
    }
    let (nfc, nfd, nfkc, nfkd) = (form(0), form(1), form(2), form(3));
    let x = nfd.preprocess(text(&s));
    check(same(x.as_bytes(), &d), 1);
    check(nfkd.preprocess(text(&s)) == x, 2);
    let c = nfc.preprocess(text(&s));
    check(nfkc.preprocess(text(&s)) == c, 3);
    check(nfd.preprocess(&c) == x, 4);
    check(nfc.preprocess(&c) == c, 5);
    check(nfc.preprocess(&x) == c, 6);
    check(c.len() <= x.len(), 7);
    reach(1);
}

/// A letter and its marks anywhere in a text, against the reference table.
#[no_mangle]
pub fn h_uni_compose() {
    let nm = unitab::MARKS.len();
    let two = choose(2) == 1;
    let m = choose(nm);
    let pre = ["", "z", "zx", "\u{4f60}", "\u{ac00}a", "\r\n"][choose(6)];
    let post = ["", "x", "\u{4f60}"][choose(3)];
    let b = byte_in(b'A', b'z');
    let i = (b - b'A') as usize;
    let mut s = pre.as_bytes().to_vec();
    s.push(b);
    s.extend_from_slice(unitab::MARKS[m].as_bytes());
    let row = if two {
        let j = if tier() == 0 { [0, 1, 5, 7][choose(4)] } else { choose(nm) };
        s.extend_from_slice(unitab::MARKS[j].as_bytes());
        &unitab::TWO[m * nm + j][i]
    } else {
        &unitab::ONE[m][i]
    };
    s.extend_from_slice(post.as_bytes());
    let k = choose(4);
    let pre = if k % 2 == 1 { pre.replace('\u{ac00}', "\u{1100}\u{1161}") } else { pre.to_string() };
    let want = [pre.as_bytes(), row[k].as_bytes(), post.as_bytes()].concat();
    check(same(form(k).preprocess(text(&s)).as_bytes(), &want), 1);
    let w: ProcessorWrapper = form(k).into();
    check(same(w.preprocess(text(&s)).as_bytes(), &want), 2);
    reach(1);
}

fn mkproc(k: usize) -> ProcessorWrapper {
    if k == 0 {
        CrlfProcessor.into()
    } else {
        form(k - 1).into()
    }
}
fn chain(procs: &[ProcessorWrapper], s: &[u8]) -> Vec<u8> {
    let mut cur = string(s);
    for p in procs {
        cur = p.preprocess(&cur);
    }
    cur.into_bytes()
}
/// Every sequence of processors over text made of pieces that the processors
/// change differently, with special tokens that processing would change too.
#[no_mangle]
pub fn h_pipe() {
    let n = choose(3 + tier() as usize);
    let procs: Vec<ProcessorWrapper> = (0..n).map(|_| mkproc(choose(5))).collect();
    const P: [&str; 8] = ["\u{e9}", "e\u{301}", "\u{fb01}", "\r\n", "\r", "<\u{e9}>", "\u{212b}\r\n", "\n"];
    let sp: Vec<Vec<u8>> = vec!["<\u{e9}>".as_bytes().to_vec(), "\u{212b}\r\n".as_bytes().to_vec()];
    let mut s = vec![];
    for _ in 0..2 + tier() {
        s.extend_from_slice(P[choose(8)].as_bytes());
    }
    s.push(byte_in(0x0a, 0x0d));
    let v: Vec<ScoredToken> = (0..=255u8).map(|b| tok(&[b], -6.0)).collect();
    let t = Tokenizer::new(Model::from(v), procs.clone(), sp.iter().map(|w| text(w)));
    let mut want: Vec<u32> = vec![];
    let mut out: Vec<u8> = vec![];
    for p in pieces(&s, &sp) {
        match p {
            Piece::Special(k) => {
                reach(1);
                want.push(256 + k as u32);
                out.extend_from_slice(&sp[k]);
            }
            Piece::Text(x) => {
                let y = chain(&procs, &x);
                want.extend(y.iter().map(|&b| b as u32));
                out.extend(y);
            }
        }
    }
    match t.encode(text(&s), 0.0) {
        Ok(ids) => {
            check(ids.len() == want.len() && ids.iter().zip(&want).all(|(a, b)| a == b), 1);
            let d = t.decode(&ids, true);
            check(d.map_or(false, |d| same(d.as_bytes(), &out)), 2);
            ids_obs(&ids);
        }
        Err(_) => check(false, 3),
    }
    let y = chain(&procs, &s);
    match t.encode_ordinary(text(&s), 0.0) {
        Ok(ids) => {
            check(ids.len() == y.len() && ids.iter().zip(&y).all(|(a, b)| *a == *b as u32), 4);
            check(t.decode(&ids, false).map_or(false, |d| same(d.as_bytes(), &y)), 5);
        }
        Err(_) => check(false, 6),
    }
}
/// Symbolic text over the CR/LF letters around a special token: line ends never
/// join across it, and tokens that contain line ends never match across it.
#[no_mangle]
pub fn h_pipe_crlf() {
    hash_const(true);
    let a = len_upto(2 + tier() as usize);
    let b = len_upto(2);
    let mut s = letters(a, 0x0a, 0x0d);
    let mid = choose(2) == 1;
    if mid {
        s.push(b'|');
    }
    s.extend(letters(b, 0x0a, 0x0d));
    let v = vec![tok(b"\n", -2.0), tok(b"\r", -2.0), tok(b"\x0b", -2.0), tok(b"\x0c", -2.0), tok(b"\r\n", -1.0), tok(b"\n\n", -2.5)];
    let words: Vec<Vec<u8>> = v.iter().map(|x| x.value.clone()).collect();
    let t = Tokenizer::new(Model::from(v), [CrlfProcessor], ["|"]);
    let mut want = vec![];
    for p in pieces(&s, &[b"|".to_vec()]) {
        match p {
            Piece::Special(_) => want.push(b'|'),
            Piece::Text(x) => want.extend(crlf_ref(&x)),
        }
    }
    match t.encode(text(&s), 0.0) {
        Ok(ids) => {
            let mut out = vec![];
            for i in &ids {
                if *i == 6 {
                    out.push(b'|');
                } else {
                    out.extend_from_slice(&words[*i as usize]);
                }
            }
            check(same(&out, &want), 1);
            check(t.decode(&ids, true).map_or(false, |d| same(d.as_bytes(), &want)), 2);
            reach(1);
        }
        Err(_) => check(false, 3),
    }
}
/// Long texts full of line ends: some lie across the borders of whatever blocks
/// the text is processed in.
#[no_mangle]
pub fn h_crlf_huge() {
    let n = if tier() == 0 { 66_000 } else { 300_000 };
    let mut s = vec![b'x'; choose(2)];
    let unit: &[u8] = [&b"\r\n"[..], b"\r\na", b"\r\r\n", "\r\n\u{e9}".as_bytes()][choose(4)];
    while s.len() < n {
        s.extend_from_slice(unit);
    }
    s.push(byte_in(0x0a, 0x0d));
    crlf(&s);
}
/// Long texts of characters that decompose, compose and reorder: some lie across
/// the borders of whatever blocks the text is processed in.
#[no_mangle]
pub fn h_uni_long() {
    let n = if tier() == 0 { 4_500 } else { 70_000 };
    let k = choose(3);
    // decomposed, composed, compatibility-decomposed, compatibility-composed
    const U: [[&str; 4]; 3] = [
        ["e\u{327}\u{301}", "\u{229}\u{301}", "e\u{327}\u{301}", "\u{229}\u{301}"],
        ["\u{1100}\u{1161}\u{11a8}", "\u{ac01}", "\u{1100}\u{1161}\u{11a8}", "\u{ac01}"],
        ["\u{fb01}o\u{308}", "\u{fb01}\u{f6}", "fio\u{308}", "fi\u{f6}"],
    ];
    let from = choose(2);
    let pre = choose(3);
    let last = byte_in(b'y', b'}');
    let make = |u: &str| {
        let mut s = vec![b'x'; pre];
        for _ in 0..n / U[k][from].len() {
            s.extend_from_slice(u.as_bytes());
        }
        s.push(last);
        s
    };
    let s = make(U[k][from]);
    let p = choose(4);
    let want = make(U[k][[1, 0, 3, 2][p]]);
    check(same(form(p).preprocess(text(&s)).as_bytes(), &want), 1);
    reach(1);
}
/// The pipeline on long texts with many special tokens.
#[no_mangle]
pub fn h_pipe_long() {
    let procs: Vec<ProcessorWrapper> = [vec![0], vec![2, 1], vec![1, 0], vec![0, 2]][choose(4)].iter().map(|&k| mkproc(k)).collect();
    let n = [20, 65, 130, 300][choose(4)];
    let sp: Vec<Vec<u8>> = vec!["<\u{e9}>".as_bytes().to_vec(), b"\r|".to_vec()];
    let mut s = vec![b'x'; choose(2)];
    let gap = choose(3);
    for i in 0..n {
        s.extend_from_slice(["e\u{301}", "\r\n", "\u{e9}\r", "\n\u{fb01}"][i % 4].as_bytes());
        if gap > 0 && i % (gap * 7) == 3 {
            s.extend_from_slice(&sp[i % 2]);
        }
    }
    s.push(byte_in(0x0a, 0x0d));
    let v: Vec<ScoredToken> = (0..=255u8).map(|b| tok(&[b], -6.0)).collect();
    let t = Tokenizer::new(Model::from(v), procs.clone(), sp.iter().map(|w| text(w)));
    let mut want: Vec<u32> = vec![];
    for p in pieces(&s, &sp) {
        match p {
            Piece::Special(k) => want.push(256 + k as u32),
            Piece::Text(x) => want.extend(chain(&procs, &x).iter().map(|&b| b as u32)),
        }
    }
    check(t.encode(text(&s), 0.0).map_or(false, |x| x == want), 1);
    let y: Vec<u32> = chain(&procs, &s).iter().map(|&b| b as u32).collect();
    check(t.encode_ordinary(text(&s), 0.0).map_or(false, |x| x == y), 2);
    check(t.encode_batch([text(&s)], 0.0).map_or(false, |x| x == [want]), 3);
    check(t.encode_ordinary_batch([text(&s)], 0.0).map_or(false, |x| x == [y]), 4);
    reach(1);
}
/// Texts longer than any block: special tokens and changes by the processors lie
/// across every border there may be.
#[no_mangle]
pub fn h_pipe_huge() {
    let total = if tier() == 0 { 66_000 } else { 300_000 };
    let k = choose(4);
    // one unit with a special token, one that is changed
    let unit = ["<\u{e9}>\r\n", "\r\n", "e\u{301}", "\r|e\u{301}"][k];
    let procs: Vec<ProcessorWrapper> = [vec![0], vec![0], vec![2], vec![1]][k].iter().map(|&k| mkproc(k)).collect();
    let sp: Vec<Vec<u8>> = vec!["<\u{e9}>".as_bytes().to_vec(), b"\r|".to_vec()];
    let pre = choose(unit.len());
    let mut s = vec![b'x'; pre];
    while s.len() < total {
        s.extend_from_slice(unit.as_bytes());
    }
    s.push(byte_in(b'x', b'y'));
    let v: Vec<ScoredToken> = (0..=255u8).map(|b| tok(&[b], -6.0)).collect();
    let t = Tokenizer::new(Model::from(v), procs.clone(), sp.iter().map(|w| text(w)));
    let mut cache: Vec<(Vec<u8>, Vec<u32>)> = vec![];
    let mut part = |x: &[u8]| -> Vec<u32> {
        if x.len() < 9 {
            if let Some(c) = cache.iter().find(|c| c.0 == x) {
                return c.1.clone();
            }
        }
        let y: Vec<u32> = chain(&procs, x).iter().map(|&b| b as u32).collect();
        if x.len() < 9 && x.last() != s.last() {
            cache.push((x.to_vec(), y.clone()));
        }
        y
    };
    let want = if choose(2) == 1 {
        let got = t.encode_ordinary(text(&s), 0.0).unwrap_or_default();
        check(got == part(&s), 2);
        got
    } else {
        let mut want: Vec<u32> = vec![];
        for p in pieces(&s, &sp) {
            match p {
                Piece::Special(k) => want.push(256 + k as u32),
                Piece::Text(x) => want.extend(part(&x)),
            }
        }
        check(t.encode(text(&s), 0.0).map_or(false, |x| x == want), 1);
        want
    };
    check(t.decode(&want, true).is_ok(), 3);
    reach(1);
}
/// Many marks on one letter: all of them are ordered, none is set apart.
#[no_mangle]
pub fn h_uni_stack() {
    // in canonical order: below (220), above (230); with other letters around
    let n = [5, 16, 29, 30, 31, 32, 33, 64, 65, 128, 300][choose(11)];
    let mixed = choose(2) == 1;
    let p = choose(4);
    let a = byte_in(b'g', b'q');
    let mut s = vec![b'x', a];
    let mut want = vec![b'x', a];
    for i in 0..n {
        let above = !mixed || i % 2 == 0;
        s.extend_from_slice(if above { "\u{30f}" } else { "\u{323}" }.as_bytes());
    }
    let below = if mixed { n / 2 } else { 0 };
    // dot below composes with h, k, l, m, n; keep to letters where neither does
    assume(!mixed || a == b'g' || a == b'j' || a == b'p' || a == b'q');
    for _ in 0..below {
        want.extend_from_slice("\u{323}".as_bytes());
    }
    for _ in 0..n - below {
        want.extend_from_slice("\u{30f}".as_bytes());
    }
    // the double grave composes only with a, e, i, o, r, u
    assume(a != b'i' && a != b'o');
    s.extend_from_slice(b"z");
    want.extend_from_slice(b"z");
    check(same(form(p).preprocess(text(&s)).as_bytes(), &want), 1);
    reach(1);
}
entries!(h_crlf_small, h_crlf_utf8, h_crlf_long, h_crlf_many, h_uni_ascii, h_uni_post, h_uni_table, h_uni_hangul, h_uni_marks, h_uni_compose, h_pipe, h_pipe_crlf, h_crlf_huge, h_uni_long, h_pipe_long, h_pipe_huge, h_uni_stack);
