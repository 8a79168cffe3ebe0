//! The `mine` command's idiom miner.
use super::util::*;
use crate::*;
use sym::*;

fn bump(v: &mut Vec<(Vec<u8>, usize)>, t: &[u8]) {
    match v.iter_mut().find(|x| same(&x.0, t)) {
        Some(x) => x.1 += 1,
        None => v.push((t.to_vec(), 1)),
    }
}
/// Length of the match of pattern `k` at the start of `s`.
fn match_at(k: usize, s: &[u8]) -> Option<usize> {
    match k {
        // [ab]+
        0 => Some(s.iter().take_while(|&&c| c == b'a' || c == b'b').count()).filter(|&n| n > 0),
        // a.
        1 => (s.len() >= 2 && s[0] == b'a').then_some(2),
        // ab|b|bc: the first alternative that matches
        2 if s.len() >= 2 && s[0] == b'a' && s[1] == b'b' => Some(2),
        2 => (!s.is_empty() && s[0] == b'b').then_some(1),
        // a{1,2}
        _ => Some(s.iter().take(2).take_while(|&&c| c == b'a').count()).filter(|&n| n > 0),
    }
}
const PAT: [&str; 4] = ["[ab]+", "a.", "(?:ab)|(?:b)|(?:bc)", "a{1,2}"];
fn mine_check(k: usize, n: usize, samples: &[&str]) {
    let got = IdiomMiner::new(n, ::regex::Regex::new(PAT[k]).unwrap()).mine(samples);
    let mut all: Vec<(Vec<u8>, usize)> = vec![];
    for s in samples {
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() {
            match match_at(k, &s[i..]) {
                Some(l) => {
                    bump(&mut all, &s[i..i + l]);
                    i += l;
                }
                None => i += 1,
            }
        }
    }
    check(got.len() == n.min(all.len()), 1);
    let mut last = usize::MAX;
    for (i, (t, count)) in got.iter().enumerate() {
        check(!got[..i].iter().any(|u| same(u.0.as_bytes(), t.as_bytes())), 2);
        let r = all.iter().find(|x| same(&x.0, t.as_bytes()));
        check(r.map_or(false, |x| x.1 == *count), 3);
        check(*count <= last, 4);
        last = *count;
    }
    for x in &all {
        if !got.iter().any(|u| same(u.0.as_bytes(), &x.0)) {
            reach(2);
            check(x.1 <= last || n == 0, 5);
        }
    }
    observe(got.len() as u64);
    reach(1);
}
/// Any two samples over three letters, four patterns, any number of idioms.
#[no_mangle]
pub fn h_mine() {
    hash_const(true);
    let t = tier() as usize;
    let n = 1 + choose(3 + t);
    let s1 = letters(n, b'a', b'c');
    let n = choose(3 + t);
    let s2 = letters(n, b'a', b'c');
    mine_check(choose(4), choose(4), &[text(&s1), text(&s2)]);
}
/// Many samples over several threads, completed in any order.
#[no_mangle]
pub fn h_mine_chunks() {
    rayon::__set_schedule(2, 1 + choose(3));
    let n = [0, 5, 6, 13, 27][choose(5)];
    let words = ["ab", "abcab", "ca", "bb", "aab"];
    let k = choose(n + 1);
    let samples: Vec<&str> = (0..n).map(|i| if i == k { words[(i + 2) % 5] } else { words[i * i % 5] }).collect();
    mine_check(choose(4), 1 + choose(3), &samples);
}
/// Chunks interleaved at any operation on the shared counts.
#[no_mangle]
pub fn h_mine_race() {
    let t = tier() as usize;
    let words = ["ab", "abcab", "aab"];
    let mut samples = vec![words[choose(3)], words[choose(3)]];
    samples.extend(&["ab"][..choose(2)]);
    let k = [0, 3][choose(2)];
    rayon::__set_schedule(1, 1);
    sched::preempt(2 + t);
    mine_check(k, 4, &samples);
    sched::preempt(0);
}
/// Hundreds of samples, or idioms that occur more often than 65535 times.
#[no_mangle]
pub fn h_mine_many() {
    rayon::__set_schedule(0, 1 + choose(3));
    let words = ["ab", "abcab", "ca", "bb", "aab"];
    let long = ["abc".repeat(66_000), "bc".repeat(33_000)];
    let n = [0, 64, 129, 300, 1030][choose(5)];
    let mut samples: Vec<&str> = if n == 0 { vec![&long[0], &long[1]] } else { (0..n).map(|i| words[i * i % 5]).collect() };
    // with all of the idioms listed, also such that occur once or twice
    let all = n > 0 && choose(2) == 1;
    if all {
        (samples[0], samples[n / 2], samples[n - 1]) = ("abbb", "bba", "abbb");
    }
    mine_check(choose(4), if all { 100 } else { 1 + choose(3) }, &samples);
}
/// Idioms of any length.
#[no_mangle]
pub fn h_mine_long() {
    rayon::__set_schedule(0, 1 + choose(2));
    let n = [64, 128, 255, 257, 512, 1025, 4097, 20_000][choose(8)];
    let x = [b'a', b'b', b'c'][choose(3)];
    let one = [&[x][..], &vec![b'b'; n - 1], b"c", &vec![b'a'; n], b"c", &vec![b'b'; n]].concat();
    let two = ["b".repeat(n), "c".repeat(n), "ab".to_string()].concat();
    mine_check(choose(2), 1 + choose(3), &[text(&one), &two, &"b".repeat(n), "cab", &two]);
}
entries!(h_mine, h_mine_chunks, h_mine_race, h_mine_many, h_mine_long);
