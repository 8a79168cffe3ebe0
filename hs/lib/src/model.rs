//! Model: encoding, decoding, trie.
use crate::util::*;
use sym::*;
use tokengeex::*;

/// Symbolic vocabulary (token bytes over a..c), symbolic input, fixed scores:
/// the chosen segmentation has the best score; NoPath exactly when none exists.
#[no_mangle]
pub fn h_opt_struct() {
    hash_const(true);
    let n = len_upto(4 + tier() as usize);
    let mut vocab = vec![tok(b"a", -3.0), tok(b"b", -2.5)];
    let sc = [-4.0, -5.25, -4.5];
    for k in 0..2 {
        let len = 2 + choose(2);
        vocab.push(tok(&letters(len, b'a', b'c'), sc[k]));
    }
    assume(distinct(&vocab));
    let s = letters(n, b'a', b'c');
    let m = Model::from(vocab.clone());
    optimal(&m, &vocab, &s);
}
/// Symbolic scores, concrete ambiguous vocabulary, symbolic input.
#[no_mangle]
pub fn h_opt_scores() {
    let n = len_upto(4 + tier() as usize);
    let words: [&[u8]; 7] = [b"a", b"b", b"ab", b"ba", b"aa", b"aba", b"bb"];
    let vocab: Vec<ScoredToken> = words.iter().map(|w| tok(w, f64_in(-64, 8, 2))).collect();
    let s = letters(n, b'a', b'b');
    let m = Model::from(vocab.clone());
    optimal(&m, &vocab, &s);
}
/// Gaps: no single-letter tokens at all, so some positions are unreachable and
/// some inputs have no segmentation.
#[no_mangle]
pub fn h_opt_gaps() {
    hash_const(true);
    let n = len_upto(6 + tier() as usize);
    let mut vocab = vec![tok(b"aa", -2.0), tok(b"aba", -3.5)];
    for k in 0..2 {
        let len = 1 + choose(3);
        vocab.push(tok(&letters(len, b'a', b'b'), -3.0 - k as f64));
    }
    assume(distinct(&vocab));
    let s = letters(n, b'a', b'b');
    let m = Model::from(vocab.clone());
    optimal(&m, &vocab, &s);
}
/// Arbitrary UTF-8 text and byte-level tokens that cut characters anywhere.
#[no_mangle]
pub fn h_opt_utf8() {
    let n = 1 + len_upto(2 + tier() as usize);
    let s = utf8(n);
    let mut vocab: Vec<ScoredToken> = vec![];
    for w in [&[0xc3u8][..], &[0xa9], &[0xc3, 0xa9], &[0xe4, 0xbd], &[0xa0], &[0xe4], &[0xbd, 0xa0], b"a", b"ab", &[0xa9, b'a'], &[0x00], &[0xf0, 0x9f], &[0x98], &[0x80]] {
        let l = w.len() as f64;
        vocab.push(tok(w, -2.0 * l + (l - 1.0) * 0.75));
    }
    let m = Model::from(vocab.clone());
    optimal(&m, &vocab, &s);
}
fn optimal(m: &Model, vocab: &[ScoredToken], s: &[u8]) {
    match m.encode(text(s), 0.0) {
        Ok(ids) => {
            reach(1);
            check(ids.iter().all(|&i| (i as usize) < vocab.len()), 1);
            check(same(&concat(vocab, &ids), s), 2);
            let sc = score(vocab, &ids);
            segmentations(vocab, s, &mut |seg| check(score(vocab, seg) <= sc, 3));
            observe(ids.len() as u64);
        }
        Err(Error::NoPath(pos, len)) => {
            reach(2);
            check(len == s.len() && pos <= len, 4);
            segmentations(vocab, s, &mut |_| check(false, 5));
        }
        Err(_) => check(false, 6),
    }
}
/// Scores that differ by very little: still the better one.
#[no_mangle]
pub fn h_opt_fine() {
    let e = [1.0 / (1u64 << 20) as f64, 1.0 / (1u64 << 30) as f64, 1.0 / (1u64 << 44) as f64][choose(3)];
    let k = choose(3) as f64 - 1.0;
    let pre = choose(2) * 40;
    let vocab = vec![tok(b"a", -1.25), tok(b"b", -2.5), tok(b"ab", -3.75 + k * e), tok(b"c", -1.0 / 3.0)];
    let mut s = vec![b'c'; pre];
    s.extend([byte_in(b'a', b'b'), byte_in(b'a', b'b'), b'c']);
    let m = Model::from(vocab.clone());
    match m.encode(text(&s), 0.0) {
        Ok(ids) => {
            check(same(&concat(&vocab, &ids), &s), 1);
            let ab = same(&s[pre..pre + 2], b"ab");
            let used = ids.iter().any(|&i| i == 2);
            // far from zero the sums themselves round
            if ab && k != 0.0 && (pre == 0 || e > 1e-10) {
                reach(1);
                check(used == (k > 0.0), 2);
            }
            check(ab || !used, 3);
        }
        Err(_) => check(false, 4),
    }
}
/// Scores of any magnitude and sign: exact multiples of the same small numbers.
#[no_mangle]
pub fn h_opt_scales() {
    hash_const(true);
    const SC: [f64; 5] = [-3.0, -2.5, -4.0, -5.25, -6.75];
    let x = f64::from_bits(crate::lat::SCALES[choose(10)].to_bits() & !0x000f_ffff_ffff_ffff);
    let words = ["a b ab ba aba", "a ab bb aab b", "aa aba b ab baa"][choose(3)];
    let vocab: Vec<ScoredToken> = words.split(' ').zip(SC).map(|(w, s)| tok(w.as_bytes(), s * x)).collect();
    let n = len_upto(4 + 2 * tier() as usize);
    let s = letters(n, b'a', b'b');
    let m = Model::from(vocab.clone());
    optimal(&m, &vocab, &s);
}
/// Long tokens and long inputs: lengths around machine boundaries.
#[no_mangle]
pub fn h_opt_long() {
    const L: [usize; 14] = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257];
    let l = if choose(16) == 15 { if tier() == 0 { 1025 } else { 70000 } } else { L[choose(14)] };
    let pre = choose(3);
    let post = choose(2);
    let mut vocab = vec![tok(b"a", -3.0), tok(b"b", -2.0), tok(b"aa", -5.0), tok(b"aaa", -8.5)];
    let wanted = choose(2) == 0;
    let long = if wanted { -4.0 } else { -2.5 * l as f64 - 4.0 };
    vocab.push(tok(&vec![b'a'; l], long));
    let mut s = vec![b'b'; pre];
    s.extend(vec![b'a'; l]);
    for _ in 0..post {
        s.push(byte_in(b'a', b'b'));
    }
    let m = Model::from(vocab.clone());
    match m.encode(text(&s), 0.0) {
        Ok(ids) => {
            reach(1);
            check(same(&concat(&vocab, &ids), &s), 2);
            let sc = score(&vocab, &ids);
            if wanted {
                check(sc >= -2.0 * pre as f64 - 4.0 - 3.0 * post as f64, 3);
                check(ids.iter().filter(|&&i| i == 4).count() == 1, 4);
            } else {
                // pairs, and the odd letter
                let a = s.iter().filter(|&&c| c == b'a').count();
                let best = -2.0 * (s.len() - a) as f64 - 2.5 * (a - a % 2) as f64 - 3.0 * (a % 2) as f64;
                check(sc == best, 6);
                reach(2);
            }
            observe(ids.len() as u64);
        }
        Err(_) => check(false, 5),
    }
}
/// A vocabulary with more than 65536 entries: ids and lookups are exact at
/// every index the solver picks.
#[no_mangle]
pub fn h_opt_bigvocab() {
    let n = if tier() == 0 { 66_000u32 } else { 140_000 };
    let mut vocab = Vec::with_capacity(n as usize);
    for i in 0..n {
        vocab.push(ScoredToken::new(vec![1 + (i % 120) as u8, 1 + (i / 120 % 120) as u8, 1 + (i / 14400) as u8], -1.0 - (i % 7) as f64, false));
    }
    let m = Model::from(vocab);
    let k = [0u32, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, n - 1][choose(13)];
    let v = vec![1 + (k % 120) as u8, 1 + (k / 120 % 120) as u8, 1 + (k / 14400) as u8];
    let x = byte_in(1, 3);
    let w = vec![v[0], v[1], x];
    let want = x as u32 - 1;
    let id = k % 14400 + 14400 * want;
    let mut s = v.clone();
    s.extend(&w);
    match m.encode(text(&s), 0.0) {
        Ok(ids) => {
            reach(1);
            check(ids.len() == 2 && ids[0] == k && ids[1] == id, 1);
            check(same(m.decode(&ids).unwrap().as_bytes(), &s), 2);
        }
        Err(_) => check(false, 3),
    }
    check(m.token_to_id(&v) == Some(k), 4);
    check(m.id_to_token(k).map_or(false, |t| same(&t.value, &v)), 5);
    check(m.id_to_token(n).is_none(), 6);
}

/// Dropout: any dropout rate, any random draws.
#[no_mangle]
pub fn h_drop_any() {
    let n = len_upto(4 + tier() as usize);
    let words: [&[u8]; 6] = [b"a", b"b", b"ab", b"ba", b"aa", b"aba"];
    let sc = [-3.0, -3.0, -4.0, -4.5, -4.25, -5.0];
    let vocab: Vec<ScoredToken> = words.iter().zip(sc).map(|(w, s)| tok(w, s)).collect();
    let s = letters(n, b'a', b'b');
    // below 0, 0, inside (0,1), 1, above 1
    let d = match choose(5) {
        0 => f64_in(-8, -1, 3),
        1 => 0.0,
        2 => f64_in(1, 7, 3),
        3 => 1.0,
        _ => f64_in(9, 16, 3),
    };
    let m = Model::from(vocab.clone());
    match m.encode(text(&s), d) {
        Ok(ids) => {
            check(same(&concat(&vocab, &ids), &s), 1);
            if d <= 0.0 {
                reach(1);
                let sc = score(&vocab, &ids);
                segmentations(&vocab, &s, &mut |seg| check(score(&vocab, seg) <= sc, 2));
            } else if d >= 1.0 {
                reach(2);
                check(ids.iter().all(|&i| i < 2), 3);
            } else {
                reach(3);
            }
            ids_obs(&ids);
        }
        // single letters are never dropped
        Err(_) => check(false, 4),
    }
}
/// Without single-byte tokens: the result is still a segmentation or NoPath.
#[no_mangle]
pub fn h_drop_nopath() {
    hash_const(true);
    let n = len_upto(4 + tier() as usize);
    let mut vocab = vec![tok(b"aa", -2.0), tok(b"a", -3.0)];
    vocab.push(tok(&letters(2, b'a', b'b'), -3.0));
    vocab.push(tok(&letters(3, b'a', b'b'), -4.0));
    assume(distinct(&vocab));
    let s = letters(n, b'a', b'b');
    let m = Model::from(vocab.clone());
    let d = f64_in(0, 8, 3);
    match m.encode(text(&s), d) {
        Ok(ids) => {
            reach(1);
            check(same(&concat(&vocab, &ids), &s), 1);
        }
        Err(Error::NoPath(_, len)) => {
            reach(2);
            check(len == s.len(), 2);
            check(s.iter().any(|&c| c != b'a'), 3);
        }
        Err(_) => check(false, 4),
    }
}
/// Each use of a multi-byte token has a draw of its own: every choice of uses to
/// leave out comes about, and its best segmentation is the result.
#[no_mangle]
pub fn h_drop_independent() {
    hash_const(true);
    let s: &[u8] = [&b"abc"[..], b"abab", b"cab", b"aaa", b"bcabc"][choose(4 + tier() as usize)];
    let words: [&[u8]; 8] = [b"a", b"b", b"c", b"ab", b"abc", b"bc", b"aa", b"ca"];
    let sc = [-8.0, -8.5, -8.25, -5.0, -4.0, -5.5, -6.0, -6.5];
    let vocab: Vec<ScoredToken> = words.iter().zip(sc).map(|(w, s)| tok(w, s)).collect();
    let m = Model::from(vocab.clone());
    let mut uses = vec![];
    let mut singles = 0;
    for p in 0..s.len() {
        for (i, w) in words.iter().enumerate().filter(|(_, w)| starts_with(&s[p..], w)) {
            if w.len() > 1 {
                uses.push((p, i));
            } else {
                singles += 1;
            }
        }
    }
    // what each choice of uses to leave out leads to
    let mut want = std::collections::BTreeSet::new();
    for mask in 0..1usize << uses.len() {
        let mut best: Vec<(f64, Vec<u32>)> = vec![(f64::NEG_INFINITY, vec![]); s.len() + 1];
        best[0].0 = 0.0;
        for p in 0..s.len() {
            for (i, w) in words.iter().enumerate().filter(|(_, w)| starts_with(&s[p..], w)) {
                let out = uses.iter().position(|u| *u == (p, i)).map_or(false, |k| mask >> k & 1 == 1);
                let e = p + w.len();
                if !out && best[p].0 + sc[i] > best[e].0 {
                    best[e] = (best[p].0 + sc[i], [&best[p].1[..], &[i as u32]].concat());
                }
            }
        }
        want.insert(best.pop().unwrap().1);
    }
    // all sequences of draws, as many as there could be
    let lattice = choose(2) == 1;
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    let k = uses.len() + singles;
    let mut got = std::collections::BTreeSet::new();
    let mut nodes = std::collections::BTreeSet::new();
    rand::__fix(Some(0.75));
    for mask in 0..1usize << k {
        rand::__fix_seq((0..k).map(|i| if mask >> i & 1 == 1 { 0.25 } else { 0.75 }).collect());
        if lattice {
            l.from(s, &mut pool);
            m.populate_nodes(&mut l, 0.5);
            nodes.insert(l.nodes.iter().filter(|x| x.token_len > 1).map(|x| (x.pos, x.token_id)).collect::<std::collections::BTreeSet<_>>());
        } else {
            got.insert(m.encode(text(s), 0.5).unwrap());
        }
    }
    rand::__fix_seq(vec![]);
    rand::__fix(None);
    if lattice {
        check(nodes.len() == 1 << uses.len(), 1);
    } else {
        check(got == want, 2);
    }
    reach(1);
}
/// Every multi-byte token can be kept and can be dropped: the segmentations that
/// the random draws can produce include the optimum and the all-bytes one.
#[no_mangle]
pub fn h_drop_lattice() {
    let n = len_upto(3 + tier() as usize);
    let words: [&[u8]; 6] = [b"a", b"b", b"ab", b"ba", b"aa", b"aba"];
    let vocab: Vec<ScoredToken> = words.iter().map(|w| tok(w, -(w.len() as f64))).collect();
    let s = letters(n, b'a', b'b');
    let d = match choose(3) {
        0 => 0.0,
        1 => f64_in(1, 7, 3),
        _ => 1.0,
    };
    let m = Model::from(vocab.clone());
    let mut pool = VecPool::default();
    let mut l = Lattice::default();
    l.from(&s, &mut pool);
    m.populate_nodes(&mut l, d);
    // every node is a vocabulary entry that really occurs there
    let mut have = vec![vec![false; vocab.len()]; n + 1];
    for (i, nd) in l.nodes.iter().enumerate().skip(2) {
        let t = &vocab[nd.token_id as usize].value;
        check(nd.token_len == t.len() && nd.pos + nd.token_len <= n, 1);
        check(same(&s[nd.pos..nd.pos + nd.token_len], t), 2);
        check(nd.score == vocab[nd.token_id as usize].score, 3);
        check(!have[nd.pos][nd.token_id as usize], 4);
        have[nd.pos][nd.token_id as usize] = true;
        check(l.begin_nodes[nd.pos].iter().any(|&x| x == i), 5);
        check(l.end_nodes[nd.pos + nd.token_len].iter().any(|&x| x == i), 6);
    }
    for p in 0..n {
        for (id, t) in vocab.iter().enumerate() {
            if starts_with(&s[p..], &t.value) {
                let must = t.value.len() == 1 || d <= 0.0;
                check(!must || have[p][id], 7);
                check(!(d >= 1.0 && t.value.len() > 1) || !have[p][id], 8);
            }
        }
    }
    reach(1);
    observe(l.nodes.len() as u64);
}
/// A multi-byte token is left out exactly when its draw says so: with every draw
/// the same constant, all are left out on one side of the given probability and
/// none on the other.
#[no_mangle]
pub fn h_drop_rate() {
    let p = (1 + choose(7)) as f64 / 8.0;
    let e = 1.0 / 64.0;
    let lattice = choose(2) == 1;
    let words: [&[u8]; 9] = [b"a", b"b", b"ab", b"ba", b"aba", b"abab", b"\xc3\xa9", b"\xc3", b"\xa9"];
    let vocab: Vec<ScoredToken> = words.iter().enumerate().map(|(i, w)| tok(w, if w.len() == 1 { -9.0 } else { -1.0 - i as f64 / 16.0 })).collect();
    let m = Model::from(vocab.clone());
    let n = 1 + choose(2 + 2 * tier() as usize);
    let mut s = letters(n, b'a', b'b');
    s.extend_from_slice("\u{e9}ab".as_bytes());
    let mut full = 0;
    for p in 0..s.len() {
        full += vocab.iter().filter(|t| t.value.len() > 1 && starts_with(&s[p..], &t.value)).count();
    }
    let best = m.encode(text(&s), 0.0).unwrap();
    // Some(true): all are dropped; Some(false): none
    let dropped = |d: f64| -> Option<bool> {
        rand::__fix(Some(d));
        let r = if lattice {
            let mut pool = VecPool::default();
            let mut l = Lattice::default();
            l.from(&s, &mut pool);
            m.populate_nodes(&mut l, p);
            let k = l.nodes.iter().skip(2).filter(|x| x.token_len > 1).count();
            if k == 0 {
                Some(true)
            } else if k == full {
                Some(false)
            } else {
                None
            }
        } else {
            let ids = m.encode(text(&s), p).unwrap();
            if ids.len() == s.len() {
                Some(true)
            } else if ids == best {
                Some(false)
            } else {
                None
            }
        };
        rand::__fix(None);
        r
    };
    match dropped(0.0) {
        Some(low) => {
            let at = if low { p } else { 1.0 - p };
            check(dropped(at - e) == Some(low), 1);
            check(dropped(at + e) == Some(!low), 2);
            check(dropped(1.0 - 1.0 / 1024.0) == Some(!low), 3);
            check(dropped(1.0 / 1024.0) == Some(low), 4);
            reach(1);
        }
        None => check(false, 5),
    }
}

/// Prefix search: exactly the stored entries that are prefixes, shortest first,
/// last data wins.
#[no_mangle]
pub fn h_trie() {
    let k = 1 + choose(2 + tier() as usize);
    let mut trie: Trie<u32> = Trie::default();
    let mut entries: Vec<Vec<u8>> = vec![];
    for i in 0..k {
        let len = 1 + choose(3);
        let e = letters(len, b'a', b'c');
        trie.push(&e, i as u32);
        entries.push(e);
    }
    let n = len_upto(4);
    let q = letters(n, b'a', b'c');
    let mut buf = vec![];
    let got: Vec<u32> = trie.common_prefix_search(q.iter().copied(), &mut buf).collect();
    let mut pos = 0;
    for l in 1..=n {
        let mut want = None;
        for (i, e) in entries.iter().enumerate() {
            if e.len() == l && starts_with(&q, e) {
                want = Some(i as u32);
            }
        }
        if let Some(w) = want {
            check(pos < got.len() && got[pos] == w, 1);
            pos += 1;
            reach(1);
        }
    }
    check(pos == got.len(), 2);
    ids_obs(&got);
    let mut buf = vec![];
    let again: Vec<u32> = trie.clone().common_prefix_search(q.iter().copied(), &mut buf).collect();
    check(again == got, 3);
}
/// Long entries that share long beginnings and branch late, around powers of two.
#[no_mangle]
pub fn h_prefix_long() {
    let n = [7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300][choose(18)];
    let mut vocab = vec![tok(b"a", -1.0), tok(b"aa", -1.0)];
    let base = vec![b'a'; n];
    for tail in [&b""[..], b"a", b"b", b"bc", b"aac", b"bb", b"ca", b"cbc"] {
        vocab.push(tok(&[&base[..], tail].concat(), -2.0));
    }
    let mut m = Model::from(vocab[..6].to_vec());
    m.add_tokens(vocab[6..].to_vec());
    let mut q = base.clone();
    q.extend(letters(3, b'a', b'c'));
    let mut buf = vec![];
    let got: Vec<(u32, u32)> = m.common_prefix_search(&q, &mut buf).collect();
    let mut want: Vec<(u32, u32)> = vec![];
    for l in 1..=q.len() {
        for (i, t) in vocab.iter().enumerate() {
            if t.value.len() == l && starts_with(&q, &t.value) {
                want.push((i as u32, l as u32));
            }
        }
    }
    check(got == want, 1);
    if want.len() > 4 {
        reach(1);
    }
}
/// Same through the model, including tokens added later; all byte values.
#[no_mangle]
pub fn h_prefix_model() {
    hash_const(true);
    let a = letters(1 + choose(2), 0, 255);
    let b = letters(1 + choose(3), 0, 255);
    let mut vocab = vec![tok(&a, -1.0), tok(b"ab", -1.0)];
    let mut m = Model::from(vocab.clone());
    m.add_tokens([tok(&b, -2.0)]);
    vocab.push(tok(&b, -2.0));
    assume(distinct(&vocab));
    let q = letters(choose(3 + tier() as usize), 0, 255);
    let mut buf = vec![];
    let got: Vec<(u32, u32)> = m.common_prefix_search(&q, &mut buf).collect();
    let mut pos = 0;
    for l in 1..=q.len() {
        for (i, t) in vocab.iter().enumerate() {
            if t.value.len() == l && starts_with(&q, &t.value) {
                check(pos < got.len() && got[pos] == (i as u32, l as u32), 1);
                pos += 1;
                reach(1);
            }
        }
    }
    check(pos == got.len(), 2);
}
/// Tokens added one after another or together, also such that are there already:
/// the last one of equal tokens is found.
#[no_mangle]
pub fn h_prefix_grow() {
    hash_const(true);
    let t = tier() as usize;
    let mut vocab = vec![tok(b"ab", -1.0), tok(b"b", -2.0)];
    let mut m = Model::from(vocab.clone());
    let n = 2 + t;
    let more: Vec<ScoredToken> = (0..n).map(|i| tok(&letters(1 + choose(2), b'a', b'c'), -1.5 - i as f64)).collect();
    let copy = m.clone();
    let q = letters(choose(4), b'a', b'c');
    let at = choose(n + 1);
    m.add_tokens(more[..at].to_vec());
    prefix_check(&m, &[&vocab[..], &more[..at]].concat(), &q);
    m.add_tokens(more[at..].to_vec());
    prefix_check(&copy, &vocab, &q);
    vocab.extend(more);
    prefix_check(&m, &vocab, &q);
    prefix_check(&m.clone(), &vocab, &q);
    prefix_check(&Model::from(vocab.clone()), &vocab, &q);
}
fn prefix_check(m: &Model, vocab: &[ScoredToken], q: &[u8]) {
    let mut buf = vec![];
    let got: Vec<(u32, u32)> = m.common_prefix_search(q, &mut buf).collect();
    let mut pos = 0;
    for l in 1..=q.len() {
        let last = (0..vocab.len()).rev().find(|&i| same(&vocab[i].value, &q[..l]));
        if let Some(i) = last {
            check(pos < got.len() && got[pos] == (i as u32, l as u32), 1);
            check(m.token_to_id(&vocab[i].value) == Some(i as u32), 3);
            pos += 1;
            reach(1);
        }
    }
    check(pos == got.len(), 2);
}
/// Long texts: the best score is known from a search in the other direction.
#[no_mangle]
pub fn h_opt_huge() {
    let vocab = vec![tok(b"a", -3.0), tok(b"b", -2.5), tok(b"ab", -4.0), tok(b"ba", -4.25), tok(b"aab", -6.5), tok(b"bbab", -7.75), tok(b"abaab", -8.0), tok(b"c", -1.0)];
    let unit: &[u8] = [&b"ab"[..], b"abaabbab", b"aab", b"abbab"][choose(2 + 2 * tier() as usize)];
    let n = if tier() == 0 { 66_000 } else { 300_000 };
    let mut s = vec![b'b'; choose(3)];
    while s.len() < n {
        s.extend_from_slice(unit);
    }
    let k = [4096, 65_535, n - 1, 0, n / 2][choose(3 + 2 * tier() as usize)];
    s[k] = byte_in(b'a', b'd');
    let len = s.len();
    // best score of every end piece
    let mut dp = vec![f64::NEG_INFINITY; len + 1];
    dp[len] = 0.0;
    for i in (0..len).rev() {
        for t in &vocab {
            let e = i + t.value.len();
            if e <= len && starts_with(&s[i..], &t.value) && dp[e] + t.score > dp[i] {
                dp[i] = dp[e] + t.score;
            }
        }
    }
    match Model::from(vocab.clone()).encode(text(&s), 0.0) {
        Ok(ids) => {
            reach(1);
            check(same(&concat(&vocab, &ids), &s), 1);
            check(score(&vocab, &ids) == dp[0], 2);
        }
        Err(Error::NoPath(..)) => {
            reach(2);
            check(s[k] == b'd', 3);
        }
        Err(_) => check(false, 4),
    }
}
/// Tokens longer than 65535 bytes: found, encoded, copied and released.
#[no_mangle]
pub fn h_trie_deep() {
    let n = [65_535, 65_536, 65_537, 250_000][choose(4)];
    let mut w = vec![b'a'; n];
    w[0] = b'c';
    let vocab = vec![tok(b"a", -1.0), tok(b"c", -1.0), tok(&w, -2.0)];
    let m = Model::from(vocab);
    let c = m.clone();
    drop(m);
    let mut s = w.clone();
    s.push(byte_in(b'a', b'c'));
    let mut buf = vec![];
    let got: Vec<(u32, u32)> = c.common_prefix_search(&s, &mut buf).collect();
    check(got == [(1, 1), (2, n as u32)], 1);
    match c.encode(text(&s), 0.0) {
        Ok(ids) => {
            check(ids.len() == 2 && ids[0] == 2 && ids[1] == if s[n] == b'a' { 0 } else { 1 }, 2);
            reach(1);
        }
        Err(_) => check(s[n] == b'b', 3),
    }
}
/// Two models with the same tokens and other scores, used in turn: each gives its
/// own best segmentation; a copy that grows leaves the one it was made from alone.
#[no_mangle]
pub fn h_opt_two() {
    let words: [&[u8]; 6] = [b"a", b"b", b"ab", b"ba", b"aba", b"bb"];
    let sym = choose(words.len());
    let x = f64_in(-64, -1, 2);
    hash_const(true);
    let make = |f: &dyn Fn(usize) -> f64| -> Vec<ScoredToken> { words.iter().enumerate().map(|(i, w)| tok(w, f(i))).collect() };
    let v1 = make(&|i| if i == sym { x } else { -4.0 });
    let mut v2 = make(&|i| if i < 2 { -1.0 } else { -9.5 + i as f64 });
    let m1 = Model::from(v1.clone());
    let mut m2 = Model::from(v2.clone());
    let n = 3 + choose(1 + tier() as usize);
    let s = letters(n, b'a', b'b');
    let best = |m: &Model, v: &[ScoredToken], id: u64| match m.encode(text(&s), 0.0) {
        Ok(ids) => {
            check(same(&concat(v, &ids), &s), id);
            let got = score(v, &ids);
            let mut most = true;
            segmentations(v, &s, &mut |p| most &= score(v, p) <= got);
            check(most, id + 1);
        }
        Err(_) => check(false, id + 2),
    };
    best(&m1, &v1, 10);
    best(&m2, &v2, 20);
    let copy = m2.clone();
    let more = tok(&[b'b', byte_in(b'a', b'b'), b'b'], -0.25);
    v2.push(more.clone());
    if choose(2) == 1 {
        m2.add_tokens([more]);
        best(&m2, &v2, 30);
        best(&copy, &v2[..6], 40);
        check(copy.vocab_size() == 6, 1);
    } else {
        let mut copy = copy;
        copy.add_tokens([more]);
        best(&m2, &v2[..6], 30);
        best(&copy, &v2, 40);
        check(m2.vocab_size() == 6, 2);
    }
    best(&m1, &v1, 50);
    reach(1);
}
/// The draws decide about every use of every token: long tokens and late places too.
#[no_mangle]
pub fn h_drop_long() {
    let l = [2, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 1025, 4097][choose(if tier() == 0 { 13 } else { 14 })];
    let pre = [0, 255, 1024, 8192, 66_000][choose(5)];
    let long = vec![b'a'; l];
    let vocab = vec![tok(b"x", -1.0), tok(b"a", -1.0), tok(&long, -0.5)];
    let m = Model::from(vocab);
    let mut s = vec![b'x'; pre];
    s.extend_from_slice(&long);
    s.push(byte_in(b'w', b'x'));
    s.pop();
    let lattice = choose(2) == 1;
    for (d, kept) in [(0.0, false), (0.4, false), (0.6, true), (0.99, true)] {
        rand::__fix(Some(d));
        if lattice {
            let mut pool = VecPool::default();
            let mut lat = Lattice::default();
            lat.from(&s, &mut pool);
            m.populate_nodes(&mut lat, 0.5);
            check((lat.nodes.iter().skip(2).filter(|x| x.token_len > 1).count() == 1) == kept, 1);
        } else {
            let n = m.encode(text(&s), 0.5).map_or(0, |x| x.len());
            check(n == pre + if kept { 1 } else { l }, 2);
        }
        rand::__fix(None);
    }
    reach(1);
}
entries!(h_opt_struct, h_opt_scores, h_opt_gaps, h_opt_utf8, h_opt_long, h_opt_scales, h_opt_bigvocab, h_drop_any, h_drop_independent, h_drop_nopath, h_drop_lattice, h_drop_rate, h_opt_fine, h_prefix_long, h_trie, h_prefix_model, h_prefix_grow, h_opt_huge, h_trie_deep, h_opt_two, h_drop_long);
