//! The `generate` command's vocabulary generator.
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

/// The stretches of a sample candidates may lie in.
type Parts = fn(&[u8]) -> Vec<Vec<u8>>;
type Allowed = fn(&[u8]) -> bool;

fn whole(s: &[u8]) -> Vec<Vec<u8>> {
    vec![s.to_vec()]
}
/// Maximal runs of `b` and `c`, and single `a`s.
fn runs(s: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut open = false;
    for &c in s {
        if c == b'a' {
            v.push(vec![c]);
            open = false;
        } else if open {
            v.last_mut().unwrap().push(c);
        } else {
            v.push(vec![c]);
            open = true;
        }
    }
    v
}
fn any(_: &[u8]) -> bool {
    true
}
/// An `a` followed by anything but an `a`.
fn a_word(s: &[u8]) -> bool {
    s[0] == b'a' && s[1..].iter().all(|&c| c != b'a')
}
fn is_boundary(s: &[u8], i: usize) -> bool {
    i == s.len() || s[i] & 0xc0 != 0x80
}
fn contains(s: &[u8], t: &[u8]) -> bool {
    (0..s.len() + 1).any(|i| starts_with(&s[i..], t))
}
fn add(v: &mut Vec<Vec<u8>>, t: &[u8]) {
    if !v.iter().any(|x| same(x, t)) {
        v.push(t.to_vec())
    }
}
/// The distinct candidates of one sample.
fn candidates(s: &[u8], max: usize, parts: Parts, allowed: Allowed, listed: &[&str]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for p in parts(s) {
        for i in 0..p.len() {
            for j in i + 1..p.len() + 1 {
                if j - i <= max && is_boundary(&p, i) && is_boundary(&p, j) && allowed(&p[i..j]) {
                    add(&mut v, &p[i..j]);
                }
            }
        }
    }
    for t in listed {
        if contains(s, t.as_bytes()) {
            add(&mut v, t.as_bytes());
        }
    }
    v
}
struct Case<'a> {
    samples: Vec<Vec<u8>>,
    /// how many samples go to the first of two calls
    first: usize,
    max: usize,
    prob: f64,
    split: Option<&'a str>,
    parts: Parts,
    allow: Option<&'a str>,
    allowed: Allowed,
    added: Vec<&'a str>,
    suggested: Vec<&'a str>,
    size: usize,
}
fn generate(c: &Case) -> (Vec<ScoredToken>, usize) {
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<String>>();
    let mut g = VocabularyGenerator::new(
        c.max,
        c.prob,
        c.split.map(|s| ::fancy_regex::Regex::new(s).unwrap()),
        c.allow.map(|s| ::regex::Regex::new(s).unwrap()),
        own(&c.added),
        own(&c.suggested),
    );
    let s: Vec<String> = c.samples.iter().map(|s| string(s)).collect();
    if c.first > 0 {
        g.feed(&s[..c.first]);
    }
    g.feed(&s[c.first..]);
    let n = g.current_size();
    (g.generate(c.size), n)
}
/// (token, number of samples with it, number of listings)
fn reference(c: &Case) -> Vec<(Vec<u8>, usize, usize)> {
    let listed: Vec<&str> = c.added.iter().chain(&c.suggested).copied().collect();
    let mut freq: Vec<(Vec<u8>, usize, usize)> = vec![];
    for s in &c.samples {
        for t in candidates(s, c.max, c.parts, c.allowed, &listed) {
            match freq.iter_mut().find(|f| same(&f.0, &t)) {
                Some(f) => f.1 += 1,
                None => freq.push((t, 1, 0)),
            }
        }
    }
    for t in listed {
        match freq.iter_mut().find(|f| same(&f.0, t.as_bytes())) {
            Some(f) => f.2 += 1,
            None => freq.push((t.as_bytes().to_vec(), 0, 1)),
        }
    }
    freq
}
/// What holds whatever the random draws were.
fn shape(c: &Case, v: &[ScoredToken]) -> bool {
    check(v.len() >= 256 && v.len() <= c.size.max(256), 1);
    let mut seen = [0u8; 256];
    let mut ok = true;
    for (i, t) in v.iter().enumerate() {
        check(t.score.is_finite() && t.score <= 0.0, 2);
        check(i == 0 || v[i - 1].score >= t.score, 3);
        check(!t.value.is_empty(), 4);
        ok &= !t.value.is_empty();
        if t.value.len() == 1 {
            let b = concretize(t.value[0] as u64) as usize;
            seen[b] += 1;
            check(t.keep, 5);
        } else {
            check(t.keep == c.added.iter().any(|a| same(a.as_bytes(), &t.value)), 6);
        }
    }
    check(seen.iter().all(|&n| n == 1), 7);
    ok
}
fn exact(c: &Case) {
    let (v, n) = generate(c);
    let freq = reference(c);
    check(n == freq.len(), 10);
    if !shape(c, &v) {
        return;
    }
    let multi: Vec<&ScoredToken> = v.iter().filter(|t| t.value.len() > 1).collect();
    for (i, t) in multi.iter().enumerate() {
        check(!multi[..i].iter().any(|u| same(&u.value, &t.value)), 11);
    }
    let is = |l: &[&str], t: &[u8]| l.iter().any(|a| same(a.as_bytes(), t));
    let has = |t: &[u8]| multi.iter().any(|u| same(&u.value, t));
    let room = c.size.saturating_sub(256);
    let all = freq.iter().filter(|f| f.0.len() > 1).count();
    check(multi.len() == room.min(all), 12);
    // added before suggested before the rest, the latter by frequency
    let rank = |f: &(Vec<u8>, usize, usize)| if is(&c.added, &f.0) { usize::MAX } else if is(&c.suggested, &f.0) { usize::MAX - 1 } else { f.1 + f.2 };
    let top = freq.iter().map(|f| f.1 + f.2).max().unwrap_or(1);
    let mut sum = 256.0 * top as f64;
    for t in &multi {
        let Some(f) = freq.iter().find(|f| same(&f.0, &t.value)) else {
            check(false, 13);
            return;
        };
        sum += ((f.1 + f.2) * f.0.len()) as f64;
        for g in &freq {
            if g.0.len() > 1 && !has(&g.0) {
                reach(2);
                check(rank(g) <= rank(f), 14);
            }
        }
    }
    for t in &v {
        let w = if t.value.len() == 1 { top } else { freq.iter().find(|f| same(&f.0, &t.value)).map_or(0, |f| (f.1 + f.2) * f.0.len()) };
        check((t.score - (w as f64 / sum).ln()).abs() < 1e-9, 15);
    }
    observe(v.len() as u64);
    reach(1);
}
/// Any samples over three letters, with and without split and allow patterns,
/// listed tokens, every length limit and target size.
#[no_mangle]
pub fn h_gen() {
    hash_const(true);
    let t = tier() as usize;
    let n = choose(4 + t);
    let s1 = letters(n, b'a', b'c');
    let k = choose(4);
    let c = Case {
        samples: vec![s1, b"abca".to_vec()],
        first: if t == 0 { k & 1 } else { choose(2) },
        max: 1 + choose(3),
        prob: 1.0,
        split: [None, Some("a|[bc]+"), None, Some("a|[bc]+")][k],
        parts: [whole, runs, whole, runs][k],
        allow: [None, None, Some("^a[^a]*$"), Some("^a[^a]*$")][k],
        allowed: [any, any, a_word, a_word][k],
        added: vec![],
        suggested: vec![],
        size: 256 + [0, 1, 2, 3, 44][choose(5)],
    };
    exact(&c);
}
/// Added and suggested tokens: longer than the limit, not allowed, overlapping,
/// absent from the samples, a single character, listed in both.
#[no_mangle]
pub fn h_gen_listed() {
    hash_const(true);
    let n = 1 + choose(2 + tier() as usize);
    let s1 = letters(n, b'a', b'c');
    let (added, suggested): (Vec<&str>, Vec<&str>) = match choose(5) {
        0 => (vec!["abc"], vec!["bca", "cc"]),
        1 => (vec!["ab", "zz"], vec!["ab"]),
        2 => (vec!["b"], vec!["bc"]),
        3 => (vec!["cab", "ca", "cab"], vec![]),
        _ => (vec![], vec!["zz", "abca", "bc"]),
    };
    let k = choose(2);
    let c = Case {
        samples: vec![s1, b"abca".to_vec()],
        first: 1,
        max: 2,
        prob: 1.0,
        split: [None, Some("a|[bc]+")][k],
        parts: [whole, runs][k],
        allow: Some("^a[^a]*$"),
        allowed: a_word,
        added,
        suggested,
        size: [0, 256, 257, 258, 259, 300][choose(6)],
    };
    exact(&c);
}
/// Characters of two to four bytes: candidates are whole characters, the length
/// limit counts bytes.
#[no_mangle]
pub fn h_gen_utf8() {
    let mut s = String::new();
    for _ in 0..2 + tier() {
        s.push(['a', '\u{e9}', '\u{4f60}', '\u{1f600}', '\0'][choose(5)]);
    }
    let c = Case {
        samples: vec![s.into_bytes(), "a\u{e9}".as_bytes().to_vec()],
        first: 0,
        max: 1 + choose(7),
        prob: 1.0,
        split: None,
        parts: whole,
        allow: None,
        allowed: any,
        added: vec!["\u{4f60}a"],
        suggested: vec!["\u{e9}"],
        size: 256 + [2, 50][choose(2)],
    };
    exact(&c);
}
/// An insert probability below one: whatever is drawn, only candidates enter,
/// none counted more often than it occurs, and listed tokens enter anyway.
#[no_mangle]
pub fn h_gen_random() {
    hash_const(true);
    let n = 1 + choose(2);
    let s1 = letters(n, b'a', b'b');
    let prob = [0.0, 0.5, 1.0][choose(3)];
    let c = Case {
        samples: vec![s1, b"ab".to_vec()],
        first: 0,
        max: 2,
        prob,
        split: None,
        parts: whole,
        allow: None,
        allowed: any,
        added: vec!["zz"],
        suggested: vec!["yyy"],
        size: 256 + [1, 2, 40][choose(3)],
    };
    let (v, n) = generate(&c);
    let freq = reference(&c);
    check(n <= freq.len(), 10);
    if !shape(&c, &v) {
        return;
    }
    let room = c.size - 256;
    let multi: Vec<&ScoredToken> = v.iter().filter(|t| t.value.len() > 1).collect();
    for (i, t) in multi.iter().enumerate() {
        check(freq.iter().any(|f| same(&f.0, &t.value)), 11);
        check(!multi[..i].iter().any(|u| same(&u.value, &t.value)), 12);
    }
    let has = |t: &str| multi.iter().any(|u| same(&u.value, t.as_bytes()));
    check(has("zz"), 13);
    check(room < 2 || has("yyy"), 14);
    if prob == 0.0 {
        check(n == 2 && multi.len() <= 2, 15);
        reach(2);
    }
    if prob == 1.0 {
        check(multi.len() == room.min(freq.iter().filter(|f| f.0.len() > 1).count()), 16);
    }
    reach(1);
}
/// Many samples over several threads, completed in any order: counts are summed
/// over all chunks.
#[no_mangle]
pub fn h_gen_chunks() {
    rayon::__set_schedule(2, 1 + choose(3));
    let n = [6, 11, 23][choose(3)];
    let words: [&[u8]; 4] = [b"ab", b"abc", b"ca", b"bb"];
    let k = choose(n);
    let samples: Vec<Vec<u8>> = (0..n).map(|i| if i == k { words[(i + 2) % 4] } else { words[i * i % 4] }.to_vec()).collect();
    let c = Case {
        samples,
        first: [0, 1][choose(2)],
        max: 3,
        prob: 1.0,
        split: None,
        parts: whole,
        allow: None,
        allowed: any,
        added: vec![],
        suggested: vec!["bc"],
        size: 256 + [2, 4, 50][choose(3)],
    };
    exact(&c);
}
/// Chunks interleaved at any operation on the shared counts.
#[no_mangle]
pub fn h_gen_race() {
    let t = tier() as usize;
    let words: [&[u8]; 3] = [b"ab", b"ba", b"aab"];
    let mut samples = vec![words[choose(3)].to_vec(), words[choose(3)].to_vec()];
    samples.extend([b"ab".to_vec()].into_iter().take(choose(1 + t)));
    rayon::__set_schedule(1, 1);
    sched::preempt(1 + t);
    let c = Case {
        samples,
        first: 0,
        max: 2,
        prob: 1.0,
        split: None,
        parts: whole,
        allow: None,
        allowed: any,
        added: vec![],
        suggested: vec![],
        size: 256 + [1, 2][choose(2)],
    };
    exact(&c);
    sched::preempt(0);
}
/// Hundreds of samples, long samples, tokens in more than 65535 samples.
#[no_mangle]
pub fn h_gen_many() {
    rayon::__set_schedule(0, 1 + choose(3));
    let words: [&[u8]; 5] = [b"ab", b"bc", b"ca", b"abc", b"cab"];
    let n = [64, 129, 300, 1030, 66_000][choose(4 + tier() as usize)];
    let mut samples: Vec<Vec<u8>> = (0..n).map(|i| words[i * i % 5].to_vec()).collect();
    if choose(2) == 1 {
        samples[n / 2] = b"abd".repeat(700);
    }
    let c = Case {
        samples,
        first: [0, n / 3][choose(2)],
        max: 3,
        prob: 1.0,
        split: None,
        parts: whole,
        allow: None,
        allowed: any,
        added: vec![],
        suggested: vec![],
        size: 256 + [1, 4, 30][choose(3)],
    };
    exact(&c);
}
/// A candidate at one place of a long sample counts, wherever that is.
#[no_mangle]
pub fn h_gen_long() {
    rayon::__set_schedule(0, 1);
    rand::__fix(Some(0.5));
    let at = [255, 1023, 4095, 8191, 10_000][choose(4 + tier() as usize)];
    let mut long = vec![b'd'; at - 1 + choose(2)];
    long.extend_from_slice(b"efg");
    long.resize(at + 100, b'd');
    let samples: Vec<Vec<u8>> = vec![long, b"efg".to_vec(), b"h\xc3\xa9".to_vec(), b"ij".to_vec(), b"ij".to_vec(), b"efg".to_vec()];
    let c = Case { samples, first: 0, max: 3, prob: 1.0, split: None, parts: whole, allow: None, allowed: any, added: vec![], suggested: vec![], size: 256 + [3, 4][choose(2)] };
    exact(&c);
    rand::__fix(None);
}
entries!(h_gen, h_gen_listed, h_gen_utf8, h_gen_random, h_gen_chunks, h_gen_race, h_gen_many, h_gen_long);
