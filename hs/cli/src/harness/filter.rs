//! The `filter` command's vocabulary filter.
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::*;

struct Case {
    vocab: Vec<ScoredToken>,
    size: usize,
    min: Option<f64>,
    force: bool,
}
fn filter_check(c: &Case) {
    let n = c.vocab.len();
    let mut m = Model::from(c.vocab.clone());
    VocabularyFilter::new(c.size, c.min, c.force).filter(&mut m);
    let got = m.vocab();
    // what is left are entries of the original vocabulary, unchanged
    let mut left = vec![false; n];
    for t in got {
        let i = c.vocab.iter().position(|u| u.value == t.value);
        check(i.is_some(), 1);
        let Some(i) = i else { return };
        check(!left[i], 2);
        left[i] = true;
        check(t.score == c.vocab[i].score, 3);
        check(t.keep == c.vocab[i].keep, 4);
    }
    let removable = |t: &ScoredToken| (!t.keep || c.force) && c.min.map_or(false, |m| t.score < m);
    let excess = n.saturating_sub(c.size);
    let can = c.vocab.iter().filter(|t| removable(t)).count();
    check(n - got.len() == excess.min(can), 5);
    for i in 0..n {
        if !left[i] {
            reach(1);
            check(removable(&c.vocab[i]), 6);
            for j in 0..n {
                // nothing worse was left in its place
                if left[j] && removable(&c.vocab[j]) {
                    reach(2);
                    check(c.vocab[i].score <= c.vocab[j].score, 7);
                }
            }
        }
    }
    if got.len() < n {
        for w in got.windows(2) {
            check(w[0].score >= w[1].score, 8);
        }
        // ids follow the new order
        for (i, t) in got.iter().enumerate() {
            check(m.token_to_id(&t.value) == Some(i as u32), 9);
        }
    }
}
/// Any scores, keep flags, target size and minimum.
#[no_mangle]
pub fn h_filter() {
    let n = 1 + choose(4 + tier() as usize);
    let vocab: Vec<ScoredToken> = (0..n).map(|i| ScoredToken::new(vec![b'a' + i as u8], f64_in(-8, 2, 1), choose(2) == 1)).collect();
    let c = Case {
        size: choose(n + 2),
        min: if choose(4) == 0 { None } else { Some(f64_in(-9, 3, 1)) },
        force: choose(2) == 1,
        vocab,
    };
    filter_check(&c);
}
/// Large vocabularies with ties: the sorting algorithm takes its other paths.
#[no_mangle]
pub fn h_filter_large() {
    let n = [21, 64, 257, 1000][choose(3 + tier() as usize)];
    let k = n / 3;
    let shape = choose(3);
    let vocab: Vec<ScoredToken> = (0..n)
        .map(|i| {
            let s = match shape {
                0 => -((i * 7919 % 97) as f64) - 1.0,
                1 => -((i % 5) as f64) - 1.0,
                _ => -(i as f64) * 0.5 - 1.0,
            };
            let s = if i == k { f64_in(-60, 0, 1) } else { s };
            ScoredToken::new(vec![b'a', (i / 251) as u8, (i % 251) as u8], s, i % 4 == 1)
        })
        .collect();
    let c = Case { size: [0, n / 2, n - 1][choose(3)], min: Some([-2.0, -3.5, -100.0][choose(3)]), force: choose(2) == 1, vocab };
    filter_check(&c);
}
/// Scores that differ by very little, or are of extreme magnitude.
#[no_mangle]
pub fn h_filter_fine() {
    let e = [1.0 / (1u64 << 22) as f64, 1.0 / (1u64 << 40) as f64, 1.0 / (1u64 << 50) as f64, 16777216.0, 1e15, 1e150, 1e300, 1e-300][choose(8)];
    let at = if e < 1.0 && e > 1e-100 { -3.0 } else { 0.0 };
    let n = 3 + choose(1 + tier() as usize);
    let k: Vec<f64> = (0..n).map(|i| if i < 2 + tier() as usize { f64_in(-4, 4, 1) } else { 0.75 - i as f64 }).collect();
    let vocab: Vec<ScoredToken> = (0..n).map(|i| ScoredToken::new(vec![b'a' + i as u8], at + k[i] * e, choose(2) == 1 && i == 0)).collect();
    let c = Case {
        size: choose(n),
        min: [None, Some(at), Some(at + e), Some(at + 1.75 * e)][choose(4)],
        force: choose(2) == 1,
        vocab,
    };
    filter_check(&c);
}
entries!(h_filter, h_filter_large, h_filter_fine);
