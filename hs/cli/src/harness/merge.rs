//! The `merge` command's vocabulary merger.
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

struct Case<'a> {
    vocab: Vec<ScoredToken>,
    samples: Vec<&'a str>,
    allow: ::regex::Regex,
    allowed: fn(&[u8]) -> bool,
    num: usize,
    step: usize,
    scale: f64,
    max_len: usize,
}
/// Pairs of neighbouring ids with their number of occurrences.
fn pairs(m: &Model, samples: &[&str]) -> Vec<((u32, u32), usize)> {
    let mut v: Vec<((u32, u32), usize)> = vec![];
    for s in samples {
        let ids = m.encode(s, 0.0).unwrap();
        for w in ids.windows(2) {
            match v.iter_mut().find(|p| p.0 == (w[0], w[1])) {
                Some(p) => p.1 += 1,
                None => v.push(((w[0], w[1]), 1)),
            }
        }
    }
    v
}
fn merge_check(c: &Case) {
    let n = c.vocab.len();
    let mut m = Model::from(c.vocab.clone());
    ModelVocabularyMerger::new(c.allow.clone(), c.num, c.step, c.scale, c.max_len).merge(&mut m, &c.samples);
    let got = m.vocab();
    check(got.len() >= n && got.len() <= n + c.num, 1);
    if got.len() < n {
        return;
    }
    for i in 0..n {
        check(same(&got[i].value, &c.vocab[i].value) && got[i].score == c.vocab[i].score && got[i].keep == c.vocab[i].keep, 2);
    }
    // no token twice, and the lookup agrees
    for i in 0..got.len() {
        check(!got[..i].iter().any(|t| t.value == got[i].value), 3);
        check(m.token_to_id(&got[i].value) == Some(i as u32), 4);
    }
    // replay the rounds
    let mut at = n;
    loop {
        let left = n + c.num - at;
        if left == 0 {
            check(at == got.len(), 5);
            reach(1);
            break;
        }
        let cur = &got[..at];
        let model = Model::from(cur.to_vec());
        // candidate values with the count of their most frequent pair
        let mut cand: Vec<(Vec<u8>, usize, Vec<f64>)> = vec![];
        for ((a, b), count) in pairs(&model, &c.samples) {
            let (a, b) = (&cur[a as usize], &cur[b as usize]);
            let v = [&a.value[..], &b.value[..]].concat();
            if v.len() > c.max_len || !(c.allowed)(&v) || cur.iter().any(|t| t.value == v) {
                continue;
            }
            let sc = (a.score + b.score) * c.scale;
            match cand.iter_mut().find(|x| x.0 == v) {
                Some(x) if x.1 < count => *x = (v, count, vec![sc]),
                Some(x) if x.1 == count => x.2.push(sc),
                Some(_) => {}
                None => cand.push((v, count, vec![sc])),
            }
        }
        let r = cand.len().min(c.step).min(left);
        if r == 0 {
            check(at == got.len(), 6);
            reach(2);
            break;
        }
        check(at + r <= got.len(), 7);
        if at + r > got.len() {
            return;
        }
        let mut taken = vec![];
        let mut last = usize::MAX;
        for t in &got[at..at + r] {
            let Some(x) = cand.iter().find(|x| x.0 == t.value) else {
                check(false, 8);
                return;
            };
            // most frequent first
            check(x.1 <= last, 9);
            last = x.1;
            check(x.2.contains(&t.score), 10);
            check(!t.keep, 11);
            taken.push(&t.value);
        }
        for x in &cand {
            if !taken.contains(&&x.0) {
                check(x.1 <= last, 12);
            }
        }
        at += r;
    }
    observe(got.len() as u64);
}
fn word(s: &[u8]) -> bool {
    s.iter().all(|c| c.is_ascii_lowercase())
}
fn starts_a(s: &[u8]) -> bool {
    s[0] == b'a' && s.iter().all(|c| c.is_ascii_lowercase())
}
/// Any samples over two letters, any number of merges and step, in any order of
/// completion.
#[no_mangle]
pub fn h_merge() {
    let re = [::regex::Regex::new("^[a-z]+$").unwrap(), ::regex::Regex::new("^a[a-z]*$").unwrap()];
    let k = choose(2);
    let n = choose(4 + tier() as usize);
    let s1 = letters(n, b'a', b'b');
    let n = choose(4);
    let s2 = letters(n, b'a', b'b');
    rayon::__set_schedule(2, 1);
    let mut vocab = vec![tok(b"a", -2.0), tok(b"b", -2.5)];
    if choose(2) == 1 {
        vocab.push(tok(b"ab", -4.0));
    }
    let c = Case {
        vocab,
        samples: vec![text(&s1), text(&s2)],
        allow: re[k].clone(),
        allowed: [word, starts_a][k],
        num: 1 + choose(3),
        step: 1 + choose(2),
        scale: 0.5,
        max_len: 2 + choose(2),
    };
    merge_check(&c);
}
/// Existing tokens that the segmentation does not use (low scores): a merge
/// must not add them again, and the command ends.
#[no_mangle]
pub fn h_merge_existing() {
    let re = ::regex::Regex::new("^[a-z]+$").unwrap();
    let s1 = letters(5, b'a', b'b');
    let vocab = vec![tok(b"a", -1.0), tok(b"b", -1.0), tok(b"ab", f64_in(-12, -1, 2)), ScoredToken::new(b"ba".to_vec(), -9.0, true)];
    let c = Case {
        vocab,
        samples: vec![text(&s1)],
        allow: re,
        allowed: word,
        num: choose(4),
        step: [1, 2, 5][choose(3)],
        scale: [1.0, 2.0][choose(2)],
        max_len: 3,
    };
    merge_check(&c);
}
/// Multi-byte characters and byte tokens: the pattern is tested on the text of
/// the merged token, the length limit on its bytes.
#[no_mangle]
pub fn h_merge_utf8() {
    let re = ::regex::Regex::new("^\\p{L}+$").unwrap();
    let mut s = "\u{e9}a".to_string();
    for _ in 0..2 + tier() {
        s.push(['a', '\u{e9}', ' ', '\u{4f60}'][choose(4)]);
    }
    let mut vocab = vec![tok(b"a", -2.0), tok(b" ", -2.0), tok("\u{4f60}".as_bytes(), -3.0)];
    if choose(2) == 1 {
        vocab.push(tok("\u{e9}".as_bytes(), -2.5));
    } else {
        vocab.push(tok(&[0xc3], -2.5));
        vocab.push(tok(&[0xa9], -2.5));
    }
    fn ok(v: &[u8]) -> bool {
        String::from_utf8_lossy(v).chars().all(|c| c == 'a' || c == '\u{e9}' || c == '\u{4f60}')
    }
    let samples = vec![s.as_str(), s.as_str()];
    let c = Case { vocab, samples, allow: re, allowed: ok, num: 1 + choose(3), step: 1 + choose(2), scale: 0.75, max_len: 2 + choose(3) };
    rayon::__set_schedule(0, 1 + choose(2));
    merge_check(&c);
}
/// Many samples over several threads: counts are summed over all chunks.
#[no_mangle]
pub fn h_merge_chunks() {
    let re = ::regex::Regex::new("^[a-z]+$").unwrap();
    rayon::__set_schedule(2, 1 + choose(3));
    let n = [7, 8, 13, 25][choose(4)];
    let words = ["ab", "bc", "ca", "abc", "cab"];
    let k = choose(n);
    let samples: Vec<&str> = (0..n).map(|i| if i == k { words[(i + 2) % 5] } else { words[i * i % 5] }).collect();
    let c = Case { vocab: vec![tok(b"a", -2.0), tok(b"b", -2.0), tok(b"c", -2.0)], samples, allow: re, allowed: word, num: 3, step: 1 + choose(3), scale: 0.5, max_len: 4 };
    merge_check(&c);
}
/// Chunks interleaved at any operation on the shared counts.
#[no_mangle]
pub fn h_merge_race() {
    let re = ::regex::Regex::new("^[a-z]+$").unwrap();
    let words = ["ab", "bab", "bca"];
    let mut samples = vec![words[choose(3)], words[choose(3)]];
    samples.extend(&["bc"][..choose(2)]);
    let c = Case { vocab: vec![tok(b"a", -2.0), tok(b"b", -2.0), tok(b"c", -2.0)], samples, allow: re, allowed: word, num: 2, step: 1 + choose(2), scale: 0.5, max_len: 4 };
    rayon::__set_schedule(1, 1);
    sched::preempt(2 + tier() as usize);
    merge_check(&c);
    sched::preempt(0);
}
/// Hundreds of samples, or pairs that occur more often than 65535 times.
#[no_mangle]
pub fn h_merge_many() {
    let re = ::regex::Regex::new("^[a-z]+$").unwrap();
    rayon::__set_schedule(0, 1 + choose(3));
    let words = ["ab", "bc", "ca", "abc", "cab"];
    let long = ["ab".repeat(66_000), "bc".repeat(33_000)];
    // a pair that is the most frequent one only if every place of a long sample counts
    let even = ["ab".repeat(40_000), format!("b{}", "ab".repeat(40_000))];
    let n = [0, 64, 129, 300, 1030, 1, 2][choose(7)];
    let samples: Vec<&str> = if n == 0 { vec![&long[0], &long[1]] } else if n == 1 { vec![&even[0], "ba", "ba"] } else if n == 2 { vec![&even[1], "ab"] } else { (0..n).map(|i| words[i * i % 5]).collect() };
    let c = Case { vocab: vec![tok(b"a", -2.0), tok(b"b", -2.0), tok(b"c", -2.0)], samples, allow: re, allowed: word, num: [1, 3][choose(2)], step: 1 + choose(2), scale: 0.5, max_len: 4 };
    merge_check(&c);
}
entries!(h_merge, h_merge_existing, h_merge_utf8, h_merge_chunks, h_merge_race, h_merge_many);
