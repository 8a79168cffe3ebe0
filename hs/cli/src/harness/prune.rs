//! The `prune` command's vocabulary pruner.
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

fn digamma_ref(mut x: f64) -> f64 {
    let mut r = 0.0;
    while x < 40.0 {
        r -= 1.0 / x;
        x += 1.0;
    }
    let y = 1.0 / (x * x);
    r + x.ln() - 0.5 / x - y * (1.0 / 12.0 - y * (1.0 / 120.0 - y / 252.0))
}
/// Expected number of uses of every token over all samples, by the textbook
/// recursion; each position's weight is divided by a factor of its own.
fn expected(vocab: &[ScoredToken], samples: &[&str]) -> Vec<f64> {
    let mut e = vec![0.0; vocab.len()];
    let p: Vec<f64> = vocab.iter().map(|t| t.score.exp()).collect();
    for s in samples {
        let s = s.as_bytes();
        let n = s.len();
        let mut uses = vec![];
        for i in 0..n {
            for (k, t) in vocab.iter().enumerate() {
                if starts_with(&s[i..], &t.value) {
                    uses.push((i, i + t.value.len(), k));
                }
            }
        }
        // weights of what leads to and from a position, times h to its power
        let h = 3.0;
        let pw = |a: usize, b: usize| (0..b - a).fold(1.0, |x, _| x * h);
        let (mut f, mut b) = (vec![0.0; n + 1], vec![0.0; n + 1]);
        f[0] = 1.0;
        b[n] = 1.0;
        for &(i, j, k) in &uses {
            f[j] += f[i] * p[k] * pw(i, j);
        }
        for &(i, j, k) in uses.iter().rev() {
            b[i] += b[j] * p[k] * pw(i, j);
        }
        for &(i, j, k) in &uses {
            e[k] += f[i] * p[k] * pw(i, j) * b[j] / f[n];
        }
    }
    e
}
/// One re-estimation: expected counts, rare tokens dropped, new scores.
/// None when a count is too close to the threshold to call.
fn em(vocab: &[ScoredToken], samples: &[&str]) -> Option<Vec<ScoredToken>> {
    let e = expected(vocab, samples);
    let mut v = vec![];
    for (t, f) in vocab.iter().zip(&e) {
        if (f - 0.5).abs() < 1e-6 {
            return None;
        }
        if *f < 0.5 && !t.keep {
            continue;
        }
        v.push(t.clone_with_score(if *f < 0.5 { 0.5 } else { *f }));
    }
    let sum: f64 = v.iter().map(|t| t.score).sum();
    for t in v.iter_mut() {
        t.score = digamma_ref(t.score) - digamma_ref(sum);
    }
    Some(v)
}
enum Fate {
    Stays,
    Goes,
    /// by the formula over the token's own alternatives, and by the one the
    /// original sentencepiece uses (over the size of the whole table)
    Loss(f64, f64),
}
/// What a pruning round may do with each token; None on ties that leave it open.
fn fates(vocab: &[ScoredToken], samples: &[&str]) -> Option<Vec<Fate>> {
    let m = Model::from(vocab.to_vec());
    let mut freq = vec![0usize; vocab.len()];
    for s in samples {
        for id in m.encode(s, 0.0).ok()? {
            freq[id as usize] += 1;
        }
    }
    let all: usize = freq.iter().sum();
    let mut out = vec![];
    for (i, t) in vocab.iter().enumerate() {
        if t.keep {
            out.push(Fate::Stays);
            continue;
        }
        // its two best segmentations
        let mut paths: Vec<(f64, Vec<u32>)> = vec![];
        segmentations(vocab, &t.value, &mut |p| paths.push((score(vocab, p), p.to_vec())));
        paths.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        for k in 1..paths.len().min(3) {
            if (paths[k - 1].0 - paths[k].0).abs() < 1e-9 {
                return None;
            }
        }
        let itself = paths.len() < 2 || paths[0].1.len() == 1;
        out.push(if paths.len() < 2 {
            Fate::Stays
        } else if !itself {
            // not even its own best segmentation: goes when unused
            if freq[i] == 0 {
                Fate::Goes
            } else {
                Fate::Stays
            }
        } else if freq[i] == 0 {
            Fate::Goes
        } else {
            let alt = &paths[1].1;
            let f = freq[i] as f64;
            let lp = (f / all as f64).ln();
            let loss = |n: usize| {
                let tot = all as f64 + f * (n - 1) as f64;
                let alp: f64 = alt.iter().map(|&a| ((freq[a as usize] as f64 + f) / tot).ln()).sum();
                f * (lp - alp)
            };
            Fate::Loss(loss(alt.len()), loss(vocab.len()))
        });
    }
    Some(out)
}
fn basics(orig: &[ScoredToken], got: &Model, samples: &[&str]) -> bool {
    let v = got.vocab();
    for (i, t) in v.iter().enumerate() {
        let o = orig.iter().find(|o| o.value == t.value);
        check(o.is_some(), 60);
        check(o.map_or(false, |o| o.keep == t.keep), 61);
        check(!v[..i].iter().any(|u| u.value == t.value), 62);
        check(t.score.is_finite(), 63);
        check(i == 0 || v[i - 1].score >= t.score, 64);
        check(got.token_to_id(&t.value) == Some(i as u32), 65);
        if o.is_none() {
            return false;
        }
    }
    for o in orig {
        if o.keep {
            check(v.iter().any(|t| t.value == o.value), 66);
        }
    }
    for s in samples {
        check(got.encode(s, 0.0).is_ok(), 67);
    }
    true
}
/// The result of a single round against the reference.
fn round_check(before: &[ScoredToken], target: usize, got: &[ScoredToken], samples: &[&str]) {
    let f = match fates(before, samples) {
        Some(f) => f,
        None => {
            reach(4);
            return;
        }
    };
    let has = |t: &ScoredToken| got.iter().any(|u| u.value == t.value);
    let (mut stay, mut cand) = (0, vec![]);
    for (t, f) in before.iter().zip(&f) {
        match f {
            Fate::Stays => {
                stay += 1;
                check(has(t), 1);
            }
            Fate::Goes => {
                reach(2);
                check(!has(t), 2);
            }
            Fate::Loss(l, m) => cand.push((has(t), *l, *m)),
        }
    }
    let room = target.saturating_sub(stay);
    check(cand.iter().filter(|c| c.0).count() == room.min(cand.len()), 3);
    for a in &cand {
        for b in &cand {
            if a.0 && !b.0 {
                reach(3);
                check(a.1 >= b.1 - 1e-9 || a.2 >= b.2 - 1e-9, 4);
            }
        }
    }
    for t in got {
        let b = before.iter().find(|b| b.value == t.value);
        check(b.map_or(false, |b| (b.score - t.score).abs() < 1e-6), 5);
    }
    reach(1);
}
fn words(k: usize) -> &'static [&'static [u8]] {
    match k {
        0 => &[b"a", b"b", b"ab", b"ba", b"aa", b"aba"],
        _ => &[b"a", b"b", b"ab", b"bab", b"abab", b"bb"],
    }
}
fn build(k: usize, keep: usize, sc: &mut dyn FnMut(usize) -> f64) -> Vec<ScoredToken> {
    words(k).iter().enumerate().map(|(i, w)| ScoredToken::new(w.to_vec(), sc(i), i < 2 || i == keep)).collect()
}
/// One selection round without re-estimation: any scores, any samples.
#[no_mangle]
pub fn h_prune_select() {
    const SC: [f64; 6] = [-3.0, -3.125, -4.0, -5.0, -4.5, -6.25];
    let k = choose(2);
    let vocab = build(k, 2 + choose(5), &mut |i| if i == 2 || i == 5 { f64_in(-32, -8, 2) } else { SC[i] });
    let n = 2 + choose(2 + tier() as usize);
    let s1 = letters(n, b'a', b'b');
    let samples = [text(&s1), "abab"];
    let target = choose(6);
    rayon::__set_schedule(2, 1);
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, 0.0, 0, 0.0).prune(&mut m, &samples);
    check(r.is_ok(), 10);
    if !basics(&vocab, &m, &samples) {
        return;
    }
    // further rounds may have followed: what is left stands against the first
    if m.vocab_size() <= target {
        round_check(&vocab, target, m.vocab(), &samples);
    }
    observe(m.vocab_size() as u64);
}
/// Re-estimation followed by selection.
#[no_mangle]
pub fn h_prune_em() {
    const SC: [[f64; 6]; 3] = [[-3.0, -3.1, -4.0, -5.0, -4.5, -6.25], [-1.0, -2.1, -0.6, -2.7, -1.9, -3.3], [-6.0, -5.1, -1.0, -2.0, -8.5, -1.25]];
    let t = tier() as usize;
    let k = choose(2);
    let q = if t == 0 { k } else { choose(3) };
    let keep = if t == 0 { [5, 6][choose(2)] } else { 2 + choose(5) };
    let vocab = build(k, keep, &mut |i| SC[q][i]);
    let n = 1 + choose(3 + t);
    let s1 = letters(n, b'a', b'b');
    let samples = [text(&s1), "abab", "ba"];
    let subiters = 1 + choose(2);
    let target = 3 + choose(2 + t);
    rayon::__set_schedule(if subiters == 1 || t == 1 { 2 } else { 0 }, 1 + choose(1 + t));
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, 0.0, subiters, 0.0).prune(&mut m, &samples);
    check(r.is_ok(), 10);
    if !basics(&vocab, &m, &samples) {
        return;
    }
    let mut cur = vocab;
    for _ in 0..subiters {
        match em(&cur, &samples) {
            Some(v) => cur = v,
            None => return,
        }
    }
    if m.vocab_size() <= target {
        round_check(&cur, target, m.vocab(), &samples);
    }
    observe(m.vocab_size() as u64);
}
/// Whole runs of several rounds always end; kept tokens stay, every sample can
/// still be encoded, and the size goes down to the target unless what is left
/// cannot be removed.
#[no_mangle]
pub fn h_prune_rounds() {
    const SC: [f64; 6] = [-3.0, -3.1, -4.0, -5.0, -4.5, -6.25];
    let t = tier() as usize;
    let k = choose(2);
    let subiters = choose(2 + t);
    let em = subiters > 0 && t == 0;
    let keep = if em { 6 } else { 2 + choose(5) };
    let vocab = build(k, keep, &mut |i| SC[i]);
    let n = if em { 1 } else { 1 + choose(2 + t) };
    let s1 = letters(n, b'a', b'b');
    let samples = [text(&s1), "abab", "ab"];
    let target = if em { [0, 3, 5, 6][choose(4)] } else { choose(7) };
    let shrink = if em { [0.5, 0.9][choose(2)] } else { [0.5, 0.75, 0.9, 1.0][choose(4)] };
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, shrink, subiters, 0.0).prune(&mut m, &samples);
    check(r.is_ok(), 10);
    check(m.vocab_size() <= vocab.len(), 11);
    if target >= vocab.len() {
        reach(2);
        // nothing to do: nothing changes
        check(m.vocab().iter().zip(&vocab).all(|(a, b)| a.value == b.value && a.score == b.score && a.keep == b.keep), 12);
    } else {
        if !basics(&vocab, &m, &samples) {
            return;
        }
        if m.vocab_size() > target {
            reach(3);
            // stuck only on tokens that must stay, or on a factor that rounds to the present size
            let cur = m.vocab().to_vec();
            let size = ((cur.len() as f64 * shrink) as usize).max(target);
            if subiters == 0 && size < cur.len() {
                if let Some(f) = fates(&cur, &samples) {
                    check(f.iter().all(|f| matches!(f, Fate::Stays)), 13);
                }
            }
        } else {
            reach(1);
        }
    }
    observe(m.vocab_size() as u64);
}
/// Dropout during re-estimation, any draws: the same guarantees.
#[no_mangle]
pub fn h_prune_dropout() {
    let vocab = build(0, 9, &mut |i| [-3.0, -3.1, -4.0, -5.0, -4.5, -6.25][i]);
    let n = 1 + choose(2 + tier() as usize);
    let s1 = letters(n, b'a', b'b');
    let samples = [text(&s1), "aba"];
    let target = 2 + choose(3);
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, 0.5, 1, [0.25, 1.0][choose(2)]).prune(&mut m, &samples);
    check(r.is_ok(), 10);
    if basics(&vocab, &m, &samples) {
        check(m.vocab_size() <= target.max(2), 11);
        reach(1);
    }
}
/// A vocabulary that cannot write some sample: an error, the model is left as it was.
#[no_mangle]
pub fn h_prune_nopath() {
    let vocab = vec![tok(b"a", -3.0), tok(b"ab", -3.5), tok(b"ba", -4.0), tok(b"aba", -5.0)];
    let n = 1 + choose(4);
    let s1 = letters(n, b'a', b'b');
    let samples = ["aba", text(&s1)];
    let mut can = false;
    segmentations(&vocab, &s1, &mut |_| can = true);
    rayon::__set_schedule(2, 1);
    let mut m = Model::from(vocab.clone());
    let em = choose(2);
    let r = ModelVocabularyPruner::new(3, 0.75, em, 0.0).prune(&mut m, &samples);
    if can {
        check(r.is_ok() || em > 0, 1);
        reach(1);
    } else {
        check(r.is_err(), 1);
        reach(2 + em as u64);
        check(m.vocab_size() == 4 && m.vocab().iter().zip(&vocab).all(|(a, b)| a.value == b.value && a.score == b.score && a.keep == b.keep), 2);
    }
}
/// Tokens that are to be kept although the samples hardly use them: they stay, marked
/// and with a finite score, however rare they are next to the others.
#[no_mangle]
pub fn h_prune_rare() {
    let n = [1, 3, 10, 30, 100, 300][choose(5 + tier() as usize)];
    let s1: String = "ab".repeat(n);
    let s2 = letters(2, b'a', b'b');
    let samples = [&s1[..], text(&s2)];
    let vocab = vec![
        ScoredToken::new(b"a".to_vec(), -2.0, true),
        ScoredToken::new(b"b".to_vec(), -2.5, true),
        tok(b"ab", -1.5),
        ScoredToken::new(b"zz".to_vec(), [-1.0, -4.0, -30.0][choose(3)], true),
        tok(b"zy", -3.0),
        ScoredToken::new(b"abb".to_vec(), -7.0, choose(2) == 1),
    ];
    let subiters = 1 + choose(2 + tier() as usize);
    let target = 3 + choose(3);
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, 0.75, subiters, 0.0).prune(&mut m, &samples);
    check(r.is_ok(), 10);
    check(!m.vocab().iter().any(|t| same(&t.value, b"zy")), 11);
    if basics(&vocab, &m, &samples) {
        reach(1);
        if m.vocab().iter().any(|t| t.score < -6.0) {
            reach(2);
        }
    }
}
/// Samples whose total probability is (or becomes) one.
#[no_mangle]
pub fn h_prune_certain() {
    let t = tier() as usize;
    let keep = choose(1 + t) == 1;
    let vocab = vec![ScoredToken::new(b"a".to_vec(), [0.0, -1.0][choose(2)], keep), tok(b"bb", -2.0), tok(b"cc", [-3.0, 0.0][choose(2)])];
    let n = 1 + choose(2 + t);
    let s1 = vec![b'a'; n];
    let samples = [text(&s1), "a"];
    let target = choose(2 + t);
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, [0.5, 0.75][choose(1 + t)], 1 + choose(2 + t), 0.0).prune(&mut m, &samples);
    check(r.is_ok(), 10);
    if basics(&vocab, &m, &samples) {
        check(m.vocab_size() == 1, 11);
        reach(1);
    }
}
/// Chunks interleaved at any operation on the shared sums and counts.
#[no_mangle]
pub fn h_prune_race() {
    const SC: [f64; 6] = [-3.0, -3.1, -4.0, -5.0, -4.5, -6.25];
    let t = tier() as usize;
    let k = choose(2);
    let vocab = build(k, 9, &mut |i| SC[i]);
    let words = ["ab", "abab", "ba"];
    let mut samples = vec![words[choose(3)], words[choose(3)]];
    samples.extend(&["bab"][..choose(1 + t)]);
    let subiters = choose(2);
    let target = 3 + choose(2);
    rayon::__set_schedule(1, 1);
    sched::preempt(1 + t);
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(target, 0.0, subiters, 0.0).prune(&mut m, &samples);
    sched::preempt(0);
    check(r.is_ok(), 10);
    if !basics(&vocab, &m, &samples) {
        return;
    }
    let mut cur = vocab;
    for _ in 0..subiters {
        match em(&cur, &samples) {
            Some(v) => cur = v,
            None => return,
        }
    }
    if m.vocab_size() <= target {
        round_check(&cur, target, m.vocab(), &samples);
        reach(1);
    }
}
/// Re-estimation on a sample of more than 81920 bytes: all of it counts.
#[no_mangle]
pub fn h_prune_long() {
    let k = |t: &[u8], s: f64| ScoredToken::new(t.to_vec(), s, true);
    let vocab = vec![k(b"a", -2.0), k(b"b", -2.5), k(b"c", -3.0), k(b"ab", -4.0), tok(b"zz", -1.0)];
    let shift = choose(2);
    let pairs = [100, 40_960, 45_000][choose(3)];
    let tail = [1, 1000, 83_000][choose(3)];
    let s = ["c".repeat(shift), "ab".repeat(pairs), "c".repeat(tail)].concat();
    let mut m = Model::from(vocab.clone());
    let r = ModelVocabularyPruner::new(4, 0.75, 1, 0.0).prune(&mut m, &[&s, "c"]);
    check(r.is_ok() && m.vocab_size() == 4, 1);
    let p = (-4.0f64).exp() / ((-4.0f64).exp() + (-4.5f64).exp());
    let one = pairs as f64 * (1.0 - p);
    let want = [one, one, (shift + tail + 1) as f64, pairs as f64 * p];
    let sum: f64 = want.iter().sum();
    for (i, w) in want.iter().enumerate() {
        let x = digamma_ref(*w) - digamma_ref(sum);
        let g = m.vocab().iter().find(|t| t.value == vocab[i].value);
        check(g.map_or(false, |t| t.keep && (t.score - x).abs() < 1e-3), 2);
    }
    reach(1);
}
entries!(h_prune_select, h_prune_em, h_prune_rounds, h_prune_dropout, h_prune_nopath, h_prune_rare, h_prune_certain, h_prune_race, h_prune_long);
