//! Reference definitions shared by the harnesses.
use sym::*;
use tokengeex::*;

/// A symbolic byte from a small alphabet (contiguous range).
pub fn letters(n: usize, lo: u8, hi: u8) -> Vec<u8> {
    (0..n).map(|_| byte_in(lo, hi)).collect()
}
pub fn text(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap()
}
/// `n` in 0..=max, one path per value.
pub fn len_upto(max: usize) -> usize {
    choose(max + 1)
}
pub fn starts_with(s: &[u8], t: &[u8]) -> bool {
    if t.len() > s.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..t.len() {
        d |= s[i] ^ t[i];
    }
    d == 0
}
/// Calls `f` with every way of cutting `s` into vocabulary tokens.
pub fn segmentations(vocab: &[ScoredToken], s: &[u8], f: &mut dyn FnMut(&[u32])) {
    fn go(vocab: &[ScoredToken], s: &[u8], cur: &mut Vec<u32>, f: &mut dyn FnMut(&[u32])) {
        if s.is_empty() {
            f(cur);
            return;
        }
        for (id, t) in vocab.iter().enumerate() {
            if !t.value.is_empty() && starts_with(s, &t.value) {
                cur.push(id as u32);
                go(vocab, &s[t.value.len()..], cur, f);
                cur.pop();
            }
        }
    }
    go(vocab, s, &mut vec![], f)
}
pub fn concat(vocab: &[ScoredToken], ids: &[u32]) -> Vec<u8> {
    let mut v = vec![];
    for &i in ids {
        v.extend_from_slice(&vocab[i as usize].value);
    }
    v
}
pub fn score(vocab: &[ScoredToken], ids: &[u32]) -> f64 {
    let mut s = 0.0;
    for &i in ids {
        s += vocab[i as usize].score;
    }
    s
}
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn distinct(vocab: &[ScoredToken]) -> bool {
    for i in 0..vocab.len() {
        for j in 0..i {
            if same(&vocab[i].value, &vocab[j].value) {
                return false;
            }
        }
    }
    true
}
pub fn tok(v: &[u8], s: f64) -> ScoredToken {
    ScoredToken::new(v.to_vec(), s, false)
}
pub fn ids_obs(ids: &[u32]) {
    observe(ids.len() as u64);
    for i in ids {
        observe(*i as u64);
    }
}
/// `n` arbitrary bytes that form valid UTF-8.
pub fn utf8(n: usize) -> Vec<u8> {
    let b = letters(n, 0, 255);
    assume(std::str::from_utf8(&b).is_ok());
    b
}
/// One piece of an input: plain text, or the special token with that index.
pub enum Piece {
    Text(Vec<u8>),
    Special(usize),
}
/// Left to right; at each character boundary the first declared special token
/// that matches there is taken.
pub fn pieces(s: &[u8], specials: &[Vec<u8>]) -> Vec<Piece> {
    let mut out = vec![];
    let mut start = 0;
    let mut i = 0;
    'scan: while i < s.len() {
        for (k, t) in specials.iter().enumerate() {
            if !t.is_empty() && starts_with(&s[i..], t) {
                if start < i {
                    out.push(Piece::Text(s[start..i].to_vec()));
                }
                out.push(Piece::Special(k));
                i += t.len();
                start = i;
                continue 'scan;
            }
        }
        i += 1;
    }
    if start < s.len() {
        out.push(Piece::Text(s[start..].to_vec()));
    }
    out
}
/// `\r\n` becomes `\n`, nothing else changes.
pub fn crlf_ref(s: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\r' && i + 1 < s.len() && s[i + 1] == b'\n' {
            i += 1;
        }
        v.push(s[i]);
        i += 1;
    }
    v
}
pub fn string(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
