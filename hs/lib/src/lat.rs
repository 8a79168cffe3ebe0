//! The lattice: best path, n-best paths, marginal probabilities.
use crate::util::*;
use sym::*;
use tokengeex::*;

fn all(vocab: &[ScoredToken], s: &[u8]) -> Vec<Vec<u32>> {
    let mut v = vec![];
    segmentations(vocab, s, &mut |p| v.push(p.to_vec()));
    v
}
/// The nodes form a path over the sentence; returns their ids.
fn path(vocab: &[ScoredToken], s: &[u8], nodes: &[Node]) -> Vec<u32> {
    let mut at = 0;
    for nd in nodes {
        check(nd.pos == at, 50);
        check((nd.token_id as usize) < vocab.len(), 51);
        if (nd.token_id as usize) < vocab.len() {
            let t = &vocab[nd.token_id as usize];
            check(nd.token_len == t.value.len(), 52);
            check(nd.score == t.score, 53);
        }
        at += nd.token_len;
    }
    check(at == s.len(), 54);
    nodes.iter().map(|n| n.token_id).collect()
}
/// Vocabularies: full coverage, gaps, dead ends.
fn words(k: usize) -> &'static [&'static [u8]] {
    match k {
        0 => &[b"a", b"b", b"ab", b"ba", b"aba"],
        1 => &[b"a", b"ab", b"ba", b"bb"],
        2 => &[b"aa", b"aba", b"b", b"bab"],
        _ => &[b"ab", b"a", b"aab", b"bb", b"abb"],
    }
}
fn setup(k: usize, sc: &mut dyn FnMut(usize) -> f64) -> (Vec<ScoredToken>, Model) {
    let vocab: Vec<ScoredToken> = words(k).iter().enumerate().map(|(i, w)| tok(w, sc(i))).collect();
    let m = Model::from(vocab.clone());
    (vocab, m)
}
fn best_check(vocab: &[ScoredToken], s: &[u8], got: &[Node]) {
    let paths = all(vocab, s);
    if paths.is_empty() {
        check(got.is_empty(), 1);
        reach(2);
        return;
    }
    reach(1);
    let ids = path(vocab, s, got);
    if ids.iter().any(|&i| i as usize >= vocab.len()) {
        return;
    }
    let b = score(vocab, &ids);
    for p in &paths {
        check(score(vocab, p) <= b, 2);
    }
}
/// Best path: symbolic scores, symbolic sentence, vocabularies with gaps.
#[no_mangle]
pub fn h_lat_viterbi() {
    let (vocab, m) = setup(choose(4), &mut |_| f64_in(-64, -1, 2));
    let n = len_upto(4 + tier() as usize);
    let s = letters(n, b'a', b'b');
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let got = l.viterbi();
    best_check(&vocab, &s, &got);
    let again = l.viterbi();
    check(again.len() == got.len() && again.iter().zip(&got).all(|(a, b)| a.token_id == b.token_id), 3);
    observe(got.len() as u64);
}
/// N best paths: as many as exist up to n, all different, best first, and none
/// left out is better.
#[no_mangle]
pub fn h_lat_nbest() {
    let (vocab, m) = setup(choose(4), &mut |_| f64_in(-2000, -1, 1));
    let n = len_upto(3 + tier() as usize);
    let s = letters(n, b'a', b'b');
    nbest_check(&vocab, &m, &s, 2 + choose(3));
}
/// The same with fixed scores and longer sentences, up to all paths.
#[no_mangle]
pub fn h_lat_nbest_long() {
    const SC: [f64; 5] = [-2.0, -3.25, -4.0, -6.5, -5.0];
    let (vocab, m) = setup(choose(4), &mut |i| SC[i]);
    let n = 4 + choose(3 + tier() as usize);
    let s = letters(n, b'a', b'b');
    let k = [2, 3, 5, 8, 100][choose(5)];
    nbest_check(&vocab, &m, &s, k);
}
/// Scores of any magnitude and sign: exact multiples of the same small numbers.
pub const SCALES: [f64; 10] = [1e-300, 9.313225746154785e-10, -1.0, 65536.0, 2147483648.0, 1099511627776.0, 1152921504606846976.0, 1e300, -1e300, -4294967296.0];
#[no_mangle]
pub fn h_lat_scales() {
    const SC: [f64; 5] = [-2.0, -3.25, -4.0, -6.5, -5.0];
    // powers of two, so that sums stay exact
    let x = f64::from_bits(SCALES[choose(10)].to_bits() & !0x000f_ffff_ffff_ffff);
    let (vocab, m) = setup(choose(4), &mut |i| SC[i] * x);
    let n = len_upto(3 + 2 * tier() as usize);
    let s = letters(n, b'a', b'b');
    nbest_check(&vocab, &m, &s, 2 + choose(2));
    let mut pool = VecPool::default();
    let mut l = Lattice::new();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    best_check(&vocab, &s, &l.viterbi());
}
/// So many paths that the search has to shorten its agenda: still the n best ones.
#[no_mangle]
pub fn h_lat_nbest_wide() {
    const CASES: [(usize, usize, i64, usize); 3] = [(400, 400, 100, 1100), (400, 400, 100, 600), (260, 500, 60, 1500)];
    let (w1, w0, c, n) = CASES[choose(1 + 2 * tier() as usize)];
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(b"ab", &mut pool);
    for j in 0..w0 {
        l.insert(0, j as u32, 1, -((c * j as i64) as f64) - 1.0);
    }
    for i in 0..w1 {
        l.insert(1, (w0 + i) as u32, 1, -(i as f64) - 1.0);
    }
    let got = l.nbest(n);
    check(got.len() == n, 1);
    let mut last = 0.0;
    for (k, g) in got.iter().enumerate() {
        check(g.len() == 2 && g[0].pos == 0 && g[1].pos == 1, 2);
        let s = g[0].score + g[1].score;
        check(k == 0 || s <= last, 3);
        last = s;
    }
    // The number of paths better than the last one returned is below n.
    let d = (-last) as i64 - 2;
    let better: i64 = (0..w0 as i64).map(|j| (d - c * j).clamp(0, w1 as i64)).sum();
    check(better < n as i64, 4);
    reach(1);
    observe(d as u64);
}
/// Scores that are far apart: hundreds of paths through up to three stretches.
#[no_mangle]
pub fn h_lat_nbest_spread() {
    const STEP: [f64; 5] = [0.0078125, 1.0, 64.0, 4096.0, 1073741824.0];
    let w = [[40, 2, 1], [2, 40, 1], [20, 1, 20], [7, 7, 7], [300, 1, 1], [1, 1, 300]][choose(6)];
    let step = [STEP[choose(5)], STEP[choose(5)]];
    let n = [1, 2, 5, 17, 60, 1000][choose(6)];
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(b"abc", &mut pool);
    let mut sums = vec![0.0];
    let mut id = 0;
    for (p, &c) in w.iter().enumerate() {
        let mut next = vec![];
        for i in 0..c {
            // not in order
            let v = -((i * 7 % c) as f64) * step[p & 1] - 1.0;
            l.insert(p, id, 1, v);
            id += 1;
            next.extend(sums.iter().map(|s| s + v));
        }
        sums = next;
    }
    sums.sort_by(|a, b| b.partial_cmp(a).unwrap());
    let got = l.nbest(n);
    check(got.len() == n.min(sums.len()), 1);
    let mut seen = std::collections::BTreeSet::new();
    for (g, want) in got.iter().zip(&sums) {
        check(g.len() == 3, 2);
        check(g.iter().map(|x| x.score).sum::<f64>() == *want, 3);
        check(seen.insert(g.iter().map(|x| x.token_id).collect::<Vec<_>>()), 4);
    }
    reach(1);
    observe(got.len() as u64);
}
fn nbest_check(vocab: &[ScoredToken], m: &Model, s: &[u8], k: usize) {
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let got = l.nbest(k);
    let paths = all(vocab, s);
    check(got.len() == paths.len().min(k), 1);
    let mut ids: Vec<Vec<u32>> = vec![];
    for g in &got {
        let p = path(vocab, s, g);
        if p.iter().any(|&i| i as usize >= vocab.len()) {
            return;
        }
        check(!ids.contains(&p), 2);
        if let Some(q) = ids.last() {
            check(score(vocab, q) >= score(vocab, &p), 3);
        }
        ids.push(p);
    }
    if ids.is_empty() {
        reach(2);
        return;
    }
    reach(1);
    let worst = score(vocab, ids.last().unwrap());
    for p in &paths {
        if !ids.contains(p) {
            check(score(vocab, p) <= worst, 4);
        }
    }
    check(l.nbest(0).is_empty(), 5);
    let one = l.nbest(1);
    check(one.len() == 1, 6);
    best_check(vocab, s, &one[0]);
    observe(got.len() as u64);
}
/// Any graph: edges inserted in any order, also several over the same stretch.
#[no_mangle]
pub fn h_lat_graph() {
    let n = 1 + choose(3);
    let s = vec![b'x'; n];
    let e = 1 + choose(4 + tier() as usize);
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&s, &mut pool);
    let mut edges: Vec<(usize, usize, f64)> = vec![];
    for i in 0..e {
        let p = choose(n);
        let len = 1 + choose(n - p);
        let sc = f64_in(-16, 4, 1);
        l.insert(p, i as u32, len, sc);
        edges.push((p, len, sc));
    }
    // all paths of the graph
    fn go(edges: &[(usize, usize, f64)], at: usize, n: usize, cur: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
        if at == n {
            out.push(cur.clone());
            return;
        }
        for (i, x) in edges.iter().enumerate() {
            if x.0 == at {
                cur.push(i as u32);
                go(edges, at + x.1, n, cur, out);
                cur.pop();
            }
        }
    }
    let mut paths = vec![];
    go(&edges, 0, n, &mut vec![], &mut paths);
    let sum = |p: &[u32]| p.iter().fold(0.0, |a, &i| a + edges[i as usize].2);
    let v = l.viterbi();
    check(v.is_empty() == paths.is_empty(), 1);
    if !paths.is_empty() {
        reach(1);
        let ids: Vec<u32> = v.iter().map(|x| x.token_id).collect();
        check(paths.contains(&ids), 2);
        if !paths.contains(&ids) {
            return;
        }
        for p in &paths {
            check(sum(p) <= sum(&ids), 3);
        }
    } else {
        reach(2);
    }
    let two = l.nbest(3);
    check(two.len() == paths.len().min(3), 4);
    let mut last: Option<Vec<u32>> = None;
    for t in &two {
        let ids: Vec<u32> = t.iter().map(|x| x.token_id).collect();
        check(paths.contains(&ids), 5);
        if ids.iter().any(|&i| i as usize >= e) {
            return;
        }
        if let Some(q) = &last {
            check(*q != ids && sum(q) >= sum(&ids), 6);
        } else {
            for p in &paths {
                check(sum(p) <= sum(&ids), 7);
            }
        }
        last = Some(ids);
    }
}
/// Edges added after a query count in the next one.
#[no_mangle]
pub fn h_lat_grow() {
    let s = b"xy";
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(s, &mut pool);
    let mut edges: Vec<(usize, usize, f64)> = vec![];
    for i in 0..4 {
        let (p, len) = [(0, 1), (1, 1), (0, 2)][if i < 2 { i as usize } else { choose(3) }];
        let sc = [-1.0, -1.25, -0.5, -0.25][i as usize] - if i < 2 { 0.0 } else { [0.0, 1.5, -1.0, 2.25][choose(4)] };
        l.insert(p, i, len, sc);
        edges.push((p, len, sc));
        // every path, as ids and its sum
        let mut paths: Vec<(Vec<u32>, f64)> = vec![];
        for (i, a) in edges.iter().enumerate().filter(|(_, a)| a.0 == 0) {
            if a.1 == 2 {
                paths.push((vec![i as u32], a.2));
                continue;
            }
            for (j, b) in edges.iter().enumerate().filter(|(_, b)| b.0 == 1) {
                paths.push((vec![i as u32, j as u32], a.2 + b.2));
            }
        }
        let ids = |v: &[Node]| v.iter().map(|x| x.token_id).collect::<Vec<u32>>();
        let best = |v: &[Node]| {
            let got = paths.iter().find(|p| p.0 == ids(v));
            check(got.is_some() || paths.is_empty() && v.is_empty(), 1);
            if let Some(got) = got {
                for p in &paths {
                    check(p.1 <= got.1, 2);
                }
            }
        };
        match if i == 0 { 3 } else { choose(4) } {
            0 => best(&l.viterbi()),
            1 => {
                let v = l.nbest(2);
                check(v.len() == paths.len().min(2), 3);
                if let Some(v) = v.first() {
                    best(v);
                }
            }
            2 => {
                let mut e = vec![0.0; edges.len()];
                let z = l.populate_marginal(&mut e);
                check(z.is_finite() != paths.is_empty(), 4);
            }
            _ => {}
        }
    }
    reach(1);
}
/// Marginals are exactly the ratio of path weights, for every probability of
/// every token (real algebra over one atom per token).
#[no_mangle]
pub fn h_lat_marginal() {
    real_mode(true);
    let (vocab, m) = setup(choose(4), &mut |_| log_atom());
    let n = 1 + len_upto(3 + tier() as usize);
    let s = letters(n, b'a', b'b');
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut exp = vec![0.0; vocab.len()];
    let z = l.populate_marginal(&mut exp);
    marginal_check(&vocab, &s, &exp, z);
}
fn marginal_check(vocab: &[ScoredToken], s: &[u8], exp: &[f64], z: f64) {
    let paths = all(vocab, s);
    if paths.is_empty() {
        reach(2);
        check(exp.iter().all(|&e| e == 0.0), 1);
        return;
    }
    reach(1);
    let mut total = 0.0;
    let mut want = vec![0.0; vocab.len()];
    for p in &paths {
        let mut lw = 0.0;
        for &i in p {
            lw += vocab[i as usize].score;
        }
        let w = lw.exp();
        total += w;
        for &i in p {
            want[i as usize] += w;
        }
    }
    check(close(z, total.ln()), 2);
    for i in 0..vocab.len() {
        check(close(exp[i], want[i] / total), 3);
    }
}
/// Marginals are added to what the caller's buffer holds, and every position of
/// the sentence is covered with total probability one.
#[no_mangle]
pub fn h_lat_marginal_sum() {
    real_mode(true);
    // two tokens have arbitrary probabilities, the others one
    let k = choose(4);
    let (vocab, m) = setup(k, &mut |i| if i < 2 { log_atom() } else { 0.0 });
    let n = 1 + choose(4 + tier() as usize);
    let s = letters(n, b'a', b'b');
    assume(!all(&vocab, &s).is_empty());
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut one = vec![0.0; vocab.len()];
    l.populate_marginal(&mut one);
    let mut cover = 0.0;
    for i in 0..vocab.len() {
        cover += one[i] * vocab[i].value.len() as f64;
    }
    check(close(cover, n as f64), 1);
    if n < 3 {
        let mut exp: Vec<f64> = (0..vocab.len()).map(|i| i as f64 + 0.5).collect();
        l.populate_marginal(&mut exp);
        for i in 0..vocab.len() {
            check(close(exp[i], one[i] + (i as f64 + 0.5)), 2);
        }
        reach(2);
    }
    reach(1);
}
/// Scores of very different magnitude: floating point stays close to the exact
/// ratio and finite.
#[no_mangle]
pub fn h_lat_marginal_range() {
    const SC: [f64; 7] = [-0.001, -1.5, -12.0, -49.0, -51.0, -300.0, 3.0];
    let k = choose(4);
    let sc: Vec<f64> = (0..words(k).len()).map(|i| if i < 3 { SC[choose(7)] } else { SC[(i * 2) % 7] }).collect();
    let (vocab, m) = setup(k, &mut |i| sc[i]);
    let s: &[u8] = [&b"aba"[..], b"abab", b"aabb", b"abbaba"][choose(4)];
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut exp = vec![0.0; vocab.len()];
    let z = l.populate_marginal(&mut exp);
    let paths = all(&vocab, s);
    assume(!paths.is_empty());
    reach(1);
    let best = paths.iter().map(|p| score(&vocab, p)).fold(f64::NEG_INFINITY, f64::max);
    let mut total = 0.0;
    let mut want = vec![0.0; vocab.len()];
    for p in &paths {
        let w = (score(&vocab, p) - best).exp();
        total += w;
        for &i in p {
            want[i as usize] += w;
        }
    }
    check(close(z, best + total.ln()), 1);
    for i in 0..vocab.len() {
        check(close(exp[i], want[i] / total), 2);
    }
}
/// A lattice and pool used before (any sentences, any results computed) behave
/// like fresh ones.
#[no_mangle]
pub fn h_lat_reuse() {
    const SC: [f64; 5] = [-2.0, -3.25, -4.0, -6.5, -5.0];
    let k = choose(4);
    let (vocab, m) = setup(k, &mut |i| SC[i]);
    let mut pool = [VecPool::default(), VecPool::with_capacity(2, 3)].into_iter().nth(choose(2)).unwrap();
    let mut l = Lattice::default();
    for _ in 0..1 + choose(2) {
        let n = choose(4);
        let s: &'static [u8] = Vec::leak(letters(n, b'a', b'b'));
        l.from(s, &mut pool);
        m.populate_nodes(&mut l, 0.0);
        match choose(3) {
            0 => {
                l.viterbi();
            }
            1 => {
                l.nbest(3);
            }
            _ => {}
        }
    }
    let n = len_upto(3 + tier() as usize);
    let s = letters(n, b'a', b'b');
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut p2 = VecPool::default();
    let mut f = Lattice::new();
    f.from(&s, &mut p2);
    m.populate_nodes(&mut f, 0.0);
    check(l.nodes.len() == f.nodes.len(), 1);
    for (a, b) in l.nodes.iter().zip(&f.nodes) {
        check(a.pos == b.pos && a.token_id == b.token_id && a.token_len == b.token_len && a.score == b.score, 2);
    }
    check(alike(&l.begin_nodes, &f.begin_nodes), 3);
    check(alike(&l.end_nodes, &f.end_nodes), 4);
    let (mut x, mut y) = (vec![0.0; vocab.len()], vec![0.0; vocab.len()]);
    if n > 0 {
        let (p, q) = (l.populate_marginal(&mut x), f.populate_marginal(&mut y));
        check(p == q && x == y, 5);
    }
    let (a, b) = (l.nbest(4), f.nbest(4));
    check(a.len() == b.len(), 6);
    for (p, q) in a.iter().zip(&b) {
        check(p.len() == q.len() && p.iter().zip(q).all(|(i, j)| i.token_id == j.token_id && i.pos == j.pos), 7);
    }
    let (a, b) = (l.viterbi(), f.viterbi());
    check(a.len() == b.len() && a.iter().zip(&b).all(|(i, j)| i.token_id == j.token_id && i.pos == j.pos), 8);
    reach(1);
}
/// The same lists, up to empty ones at the end.
fn alike(a: &[Vec<usize>], b: &[Vec<usize>]) -> bool {
    let n = a.len().min(b.len());
    a[..n] == b[..n] && a[n..].iter().chain(&b[n..]).all(|v| v.is_empty())
}
/// The same with long sentences before, and shorter or longer ones after.
#[no_mangle]
pub fn h_lat_reuse_long() {
    const SC: [f64; 5] = [-2.0, -3.25, -4.0, -6.5, -5.0];
    let (vocab, m) = setup(choose(2), &mut |i| SC[i]);
    const L: [usize; 8] = [1, 3, 15, 17, 33, 65, 130, 300];
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    for _ in 0..1 + choose(2) * tier() as usize {
        let n = L[choose(7 + tier() as usize)];
        let mut s = vec![b'b'; n];
        for i in (0..n).step_by(3) {
            s[i] = b'a';
        }
        s[n - 1] = byte_in(b'a', b'b');
        let s: &'static [u8] = Vec::leak(s);
        l.from(s, &mut pool);
        m.populate_nodes(&mut l, 0.0);
        l.viterbi();
    }
    let n = L[choose(7 + tier() as usize)];
    let mut s = vec![b'a'; n];
    for i in (0..n).step_by(4) {
        s[i] = b'b';
    }
    s[n / 2] = byte_in(b'a', b'b');
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut p2 = VecPool::default();
    let mut f = Lattice::new();
    f.from(&s, &mut p2);
    m.populate_nodes(&mut f, 0.0);
    check(l.nodes.len() == f.nodes.len(), 1);
    check(alike(&l.begin_nodes, &f.begin_nodes), 3);
    check(alike(&l.end_nodes, &f.end_nodes), 4);
    let (mut x, mut y) = (vec![0.0; vocab.len()], vec![0.0; vocab.len()]);
    let (p, q) = (l.populate_marginal(&mut x), f.populate_marginal(&mut y));
    check(p == q && x == y, 5);
    let (a, b) = (l.viterbi(), f.viterbi());
    check(a.len() == b.len() && a.iter().zip(&b).all(|(i, j)| i.token_id == j.token_id && i.pos == j.pos), 8);
    reach(1);
}
/// Many tokens at one position before, another sentence after.
#[no_mangle]
pub fn h_lat_reuse_wide() {
    const W: [usize; 10] = [3, 15, 16, 17, 33, 65, 129, 257, 300, 1025];
    let mut pool = if choose(2) == 0 { VecPool::default() } else { VecPool::with_capacity(4, 8) };
    let mut l = Lattice::default();
    l.from(b"aab", &mut pool);
    let (p, len) = [(0, 1), (1, 1), (0, 2), (2, 1), (0, 3)][choose(5)];
    for i in 0..W[choose(10)] {
        l.insert(p, i as u32, len, -1.0 - i as f64);
    }
    for i in 0..3 {
        l.insert(i, 5000, 1, -1.0);
    }
    l.viterbi();
    const SC: [f64; 5] = [-2.0, -3.25, -4.0, -6.5, -5.0];
    let (_, m) = setup(choose(2), &mut |i| SC[i]);
    let n = 1 + choose(4);
    let s = letters(n, b'a', b'b');
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut p2 = VecPool::default();
    let mut f = Lattice::new();
    f.from(&s, &mut p2);
    m.populate_nodes(&mut f, 0.0);
    check(l.nodes.len() == f.nodes.len(), 1);
    check(alike(&l.begin_nodes, &f.begin_nodes), 3);
    check(alike(&l.end_nodes, &f.end_nodes), 4);
    let (a, b) = (l.viterbi(), f.viterbi());
    check(a.len() == b.len() && a.iter().zip(&b).all(|(i, j)| i.token_id == j.token_id && i.pos == j.pos), 8);
    reach(1);
}
/// Buffers handed out by the pool are empty, whatever was put in.
#[no_mangle]
pub fn h_lat_pool() {
    let mut pool = VecPool::with_capacity(choose(3), choose(3));
    let mut held: Vec<Vec<usize>> = vec![];
    for _ in 0..4 + tier() {
        if choose(2) == 0 {
            let mut v = pool.get();
            check(v.is_empty(), 1);
            for _ in 0..choose(3) {
                v.push(u64_in(0, 99) as usize);
            }
            held.push(v);
        } else if let Some(v) = held.pop() {
            pool.put(v);
        }
    }
    reach(1);
}
/// Long sentences: all equal letters, lengths around buffer sizes; the number of
/// paths is too large to enumerate, the best score is known.
#[no_mangle]
pub fn h_lat_long() {
    let n = [15, 16, 17, 64, 255, 256, 257][choose(7)];
    let mut s = vec![b'a'; n];
    let k = [0, n / 2, n - 1][choose(3)];
    s[k] = byte_in(b'a', b'b');
    let vocab = vec![tok(b"a", -2.0), tok(b"b", -2.0), tok(b"aa", -3.0), tok(b"aaa", -4.75)];
    let m = Model::from(vocab.clone());
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    // reference: dynamic programming over the same vocabulary
    let mut dp = vec![f64::NEG_INFINITY; n + 1];
    dp[0] = 0.0;
    for i in 0..n {
        for t in &vocab {
            let e = i + t.value.len();
            if e <= n && same(&s[i..e], &t.value) && dp[i] + t.score > dp[e] {
                dp[e] = dp[i] + t.score;
            }
        }
    }
    let v = l.viterbi();
    let ids = path(&vocab, &s, &v);
    check(score(&vocab, &ids) == dp[n], 1);
    let two = l.nbest(2);
    check(two.len() == 2, 2);
    check(score(&vocab, &path(&vocab, &s, &two[0])) == dp[n], 3);
    check(score(&vocab, &path(&vocab, &s, &two[1])) <= dp[n], 4);
    match m.encode(text(&s), 0.0) {
        Ok(e) => check(score(&vocab, &e) == dp[n], 5),
        Err(_) => check(false, 6),
    }
    reach(1);
}
/// Long sentences: search and release of everything it used, without exhausting
/// the stack; the best score is that of the only two ways there are.
#[no_mangle]
pub fn h_lat_huge() {
    let n = [1000, 65_537, 450_000][choose(3)];
    let s = vec![b'a'; n];
    let mut pool = VecPool::default();
    let mut l = Lattice::new();
    l.from(&s, &mut pool);
    let k = [n / 2, 0, n - 2][if n < 100_000 { choose(3) } else { 0 }];
    for i in 0..n {
        l.insert(i, 7, 1, -1.0);
    }
    let sc = [-3.0, -1.0][choose(2)];
    l.insert(k, 8, 2, sc);
    let best = -(n as f64) + f64::max(0.0, sc + 2.0);
    let v = l.viterbi();
    check(v.iter().map(|x| x.score).sum::<f64>() == best, 1);
    let two = l.nbest(3);
    check(two.len() == 2, 2);
    let sum = |p: &Vec<Node>| p.iter().map(|x| x.score).sum::<f64>();
    check(two.len() == 2 && sum(&two[0]) == best && sum(&two[1]) == -(n as f64) + f64::min(0.0, sc + 2.0), 3);
    check(two.iter().all(|p| p.iter().map(|x| x.token_len).sum::<usize>() == n), 4);
    reach(1);
}
/// Long sentences: nothing is lost to magnitude, and every position is covered once.
#[no_mangle]
pub fn h_lat_marginal_long() {
    const SC: [f64; 3] = [-1.0, -6.0, -45.0];
    let d = SC[choose(3)];
    let vocab = vec![tok(b"a", -2.0 + d), tok(b"b", -2.5 + d), tok(b"aa", -3.25 + d), tok(b"aba", -4.0 + d), tok(b"ab", -3.0 + d)];
    let m = Model::from(vocab.clone());
    let n = [50, 257, 1000, 3000][choose(if tier() == 0 { 3 } else { 4 })];
    let mut s = b"ab".repeat(n / 2);
    let k = [0, n / 3, n - 2][choose(3)];
    s[k] = byte_in(b'a', b'b');
    let n = s.len();
    let mut pool = VecPool::default();
    let mut l = Lattice::new();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, 0.0);
    let mut exp = vec![0.0; vocab.len()];
    let z = l.populate_marginal(&mut exp);
    // ends of uses, each weight divided by `h` per letter to stay in range
    let h = -2.0 + d;
    let w: Vec<f64> = vocab.iter().map(|t| (t.score - h * t.value.len() as f64).exp()).collect();
    let mut at = vec![];
    for i in 0..n {
        for (k, t) in vocab.iter().enumerate() {
            if starts_with(&s[i..], &t.value) {
                at.push((i, i + t.value.len(), k));
            }
        }
    }
    // scaled forward and backward weights: value times e to the power of an integer
    let mut f = vec![(0.0f64, 0i64); n + 1];
    let mut b = vec![(0.0f64, 0i64); n + 1];
    fn plus(a: &mut (f64, i64), x: f64, e: i64) {
        const BIG: f64 = 1e100;
        let (mut x, mut e) = (x, e);
        while x > BIG {
            x /= BIG;
            e += 1;
        }
        while x > 0.0 && x < 1.0 / BIG {
            x *= BIG;
            e -= 1;
        }
        if a.0 == 0.0 || a.1 < e {
            let old = if a.0 == 0.0 || e - a.1 > 1 { 0.0 } else { a.0 / BIG };
            *a = (x + old, e);
        } else if a.1 == e {
            a.0 += x;
        } else if a.1 - e == 1 {
            a.0 += x / BIG;
        }
    }
    f[0] = (1.0, 0);
    b[n] = (1.0, 0);
    for &(i, j, k) in &at {
        let (x, e) = f[i];
        plus(&mut f[j], x * w[k], e);
    }
    for &(i, j, k) in at.iter().rev() {
        let (x, e) = b[j];
        plus(&mut b[i], x * w[k], e);
    }
    let ln_big = 100.0 * 10f64.ln();
    let want = f[n].0.ln() + f[n].1 as f64 * ln_big + h * n as f64;
    check(close(z, want), 1);
    let mut e = vec![0.0; vocab.len()];
    for &(i, j, k) in &at {
        let p = f[i].0 * w[k] * (b[j].0 / f[n].0);
        e[k] += p * ((f[i].1 + b[j].1 - f[n].1) as f64 * ln_big).exp();
    }
    let mut covered = 0.0;
    for k in 0..vocab.len() {
        check((exp[k] - e[k]).abs() <= 1e-6 * (1.0 + e[k]), 2);
        covered += exp[k] * vocab[k].value.len() as f64;
    }
    check((covered - n as f64).abs() <= 1e-6 * n as f64, 3);
    reach(1);
}
entries!(h_lat_viterbi, h_lat_nbest, h_lat_nbest_long, h_lat_grow, h_lat_nbest_wide, h_lat_nbest_spread, h_lat_scales, h_lat_reuse_wide, h_lat_graph, h_lat_marginal, h_lat_marginal_sum, h_lat_marginal_range, h_lat_reuse, h_lat_reuse_long, h_lat_pool, h_lat_long, h_lat_huge, h_lat_marginal_long);
