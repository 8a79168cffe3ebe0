//! Tokenizer: round trips, special tokens, decoding, id maps, batches.
use crate::util::*;
use sym::*;
use tokengeex::*;

const NOPROC: [ProcessorWrapper; 0] = [];

fn bytes256() -> Vec<ScoredToken> {
    (0..=255u8).map(|b| tok(&[b], -6.0)).collect()
}
fn ident(t: &Tokenizer, s: &[u8]) {
    match t.encode(text(s), 0.0) {
        Ok(ids) => {
            match t.decode(&ids, true) {
                Ok(d) => check(same(d.as_bytes(), s), 1),
                Err(_) => check(false, 2),
            }
            ids_obs(&ids);
        }
        Err(_) => check(false, 3),
    }
}
/// Byte-complete vocabulary with tokens that cut characters anywhere: any UTF-8
/// text is encoded and decoded back exactly.
#[no_mangle]
pub fn h_rt_utf8() {
    let mut v = bytes256();
    for w in [&[0xc3u8, 0xa9][..], &[0xe4, 0xbd], &[0xbd, 0xa0], &[0xa9, 0xe4], b"ab", &[0x9f, 0x98], &[0xf0, 0x9f], b"\r\n", b"<s"] {
        v.push(tok(w, -7.0));
    }
    let t = Tokenizer::new(Model::from(v), NOPROC, ["<s>", "\u{e9}x"]);
    let n = len_upto(2 + tier() as usize);
    let s = utf8(n);
    ident(&t, &s);
    reach(1);
}
/// Every four-byte character.
#[no_mangle]
pub fn h_rt_utf8_4() {
    let mut v = bytes256();
    for w in [&[0x9f, 0x98][..], &[0xf0, 0x9f], &[0x98, 0x80, 0xf0]] {
        v.push(tok(w, -7.0));
    }
    let t = Tokenizer::new(Model::from(v), NOPROC, ["\u{1f600}", "<s>"]);
    let mut s = vec![byte_in(0xf0, 0xf4), byte_in(0x80, 0xbf)];
    if tier() == 0 {
        s.push(0x98);
        s.push(byte_in(0x7f, 0xc0));
    } else {
        s.push(byte_in(0x80, 0xbf));
        s.push(byte_in(0x80, 0x83));
    }
    assume(std::str::from_utf8(&s).is_ok());
    s.push(b'a');
    ident(&t, &s);
    reach(1);
}
/// Symbolic special tokens, text that contains them, overlapping and nested.
#[no_mangle]
pub fn h_rt_special() {
    hash_const(true);
    let (t, sp, _) = special_setup();
    let _ = sp;
    let n = len_upto(4 + tier() as usize);
    let s = letters(n, b'<', b'>');
    ident(&t, &s);
    reach(1);
}
/// Dropout on: whatever the draws, the text comes back.
#[no_mangle]
pub fn h_rt_dropout() {
    let words: [&[u8]; 7] = [b"a", b"b", b"ab", b"ba", b"aab", b"aa", b"bbb"];
    let v: Vec<ScoredToken> = words.iter().map(|w| tok(w, -1.0 - w.len() as f64)).collect();
    let t = Tokenizer::new(Model::from(v), NOPROC, ["bb", "aba"]);
    let n = len_upto(4 + tier() as usize);
    let s = letters(n, b'a', b'b');
    let d = match choose(3) {
        0 => f64_in(1, 7, 3),
        1 => 1.0,
        _ => f64_in(-2, 0, 1),
    };
    match if choose(2) == 0 { t.encode(text(&s), d) } else { t.encode_ordinary(text(&s), d) } {
        Ok(ids) => {
            let back = t.decode(&ids, true);
            check(back.is_ok() && same(back.unwrap().as_bytes(), &s), 1);
            ids_obs(&ids);
            reach(1);
        }
        Err(_) => check(false, 2),
    }
}
/// Without special-token handling, text that spells special tokens also comes
/// back exactly.
#[no_mangle]
pub fn h_rt_ordinary() {
    hash_const(true);
    let (t, _, nb) = special_setup();
    let n = len_upto(4 + tier() as usize);
    let s = letters(n, b'<', b'>');
    match t.encode_ordinary(text(&s), 0.0) {
        Ok(ids) => {
            check(ids.iter().all(|&i| (i as usize) < nb), 1);
            for inc in [true, false] {
                let d = t.decode(&ids, inc);
                check(d.is_ok() && same(d.unwrap().as_bytes(), &s), 2);
            }
            reach(1);
            ids_obs(&ids);
        }
        Err(_) => check(false, 3),
    }
}
/// Tokens added after construction, interleaved with round trips.
#[no_mangle]
pub fn h_rt_history() {
    hash_const(true);
    let mut t = Tokenizer::new(Model::from(vec![tok(b"<", -2.0), tok(b"=", -2.0), tok(b">", -2.0)]), NOPROC, ["<=>"]);
    let s = letters(3 + tier() as usize, b'<', b'>');
    for step in 0..2 {
        match choose(2) {
            0 => {
                let l = 1 + choose(2);
                let w = letters(l, b'<', b'>');
                t.add_base_tokens([tok(&w, f64_in(-8, -1, 1))]);
            }
            _ => {
                let l = 1 + choose(2);
                let w = letters(l, b'<', b'>');
                t.add_special_tokens([text(&w)]);
            }
        }
        if step == 1 || choose(2) == 1 {
            ident(&t, &s);
        }
    }
    reach(1);
}
/// The whole input is one long stretch; lengths around machine boundaries, with
/// a special token at a symbolic position.
#[no_mangle]
pub fn h_rt_long() {
    const L: [usize; 12] = [1, 2, 7, 15, 16, 17, 63, 64, 255, 256, 257, 1030];
    let n = L[choose(if tier() == 0 { 11 } else { 12 })];
    let v = vec![tok(b"x", -2.0), tok(b"xx", -3.0), tok(b"xxxxx", -6.0), tok(b"y", -2.0), tok(b"|", -9.0), tok(b"xy", -2.5)];
    let t = Tokenizer::new(Model::from(v), NOPROC, ["|", "yy"]);
    let mut s = vec![b'x'; n];
    let places = [0, n / 2, n - 1];
    for &p in &places {
        s[p] = [b'x', b'y', b'|'][choose(3)];
    }
    s.push([b'x', b'y', b'|'][choose(3)]);
    ident(&t, &s);
    reach(1);
}
/// Many ids: characters whose bytes are separate tokens, so that any place between
/// two ids may lie inside a character.
#[no_mangle]
pub fn h_rt_many() {
    let mut v = bytes256();
    v.truncate(0xf5);
    v.push(tok(&[0xa9, 0xc3], -20.0));
    let t = Tokenizer::new(Model::from(v), NOPROC, ["|"]);
    let pre = choose(4);
    let n = [3, 31, 32, 33, 64, 127, 128, 129, 256, 512][choose(if tier() == 0 { 9 } else { 10 })];
    let mut s = vec![b'x'; pre];
    let c = choose(3);
    for _ in 0..n {
        s.extend_from_slice([&[0xc3u8, 0xa9][..], &[0xe4, 0xbd, 0xa0], &[0xf0, 0x9f, 0x98, 0x80]][c]);
    }
    s.push(byte_in(b'y', b'}'));
    ident(&t, &s);
    reach(1);
}

/// Letters, one two-letter base token, two symbolic special tokens.
fn special_setup() -> (Tokenizer, Vec<Vec<u8>>, usize) {
    let base = vec![tok(b"<", -2.0), tok(b"=", -2.25), tok(b">", -2.5), tok(b"<=", -3.0), tok(b"=>", -3.5)];
    let nb = base.len();
    let mut sp: Vec<Vec<u8>> = vec![];
    for _ in 0..2 {
        let l = 1 + choose(2 + tier() as usize);
        let w = letters(l, b'<', b'>');
        sp.push(w);
    }
    let t = Tokenizer::new(Model::from(base), NOPROC, sp.iter().map(|w| text(w)));
    if same(&sp[0], &sp[1]) {
        sp.pop();
    }
    (t, sp, nb)
}
/// Special tokens become exactly their own ids, the text between them is encoded
/// as if it stood alone, and nothing inside a special token is encoded.
#[no_mangle]
pub fn h_sp_split() {
    hash_const(true);
    let (t, sp, nb) = special_setup();
    let n = len_upto(4 + tier() as usize);
    let s = letters(n, b'<', b'>');
    split_check(&t, &sp, nb, &s);
}
fn split_check(t: &Tokenizer, sp: &[Vec<u8>], nb: usize, s: &[u8]) {
    let mut want: Vec<u32> = vec![];
    for p in pieces(s, sp) {
        match p {
            Piece::Special(k) => {
                reach(1);
                want.push((nb + k) as u32)
            }
            Piece::Text(x) => match t.encode_ordinary(text(&x), 0.0) {
                Ok(ids) => {
                    reach(2);
                    want.extend(ids)
                }
                Err(_) => check(false, 1),
            },
        }
    }
    match t.encode(text(s), 0.0) {
        Ok(ids) => {
            check(ids.len() == want.len(), 2);
            check(ids.len() == want.len() && ids.iter().zip(&want).all(|(a, b)| a == b), 3);
            ids_obs(&ids);
        }
        Err(_) => check(false, 4),
    }
}
/// Special tokens with multi-byte characters, arbitrary UTF-8 around them.
#[no_mangle]
pub fn h_sp_utf8() {
    let v = bytes256();
    let all: [&[u8]; 3] = ["\u{e9}".as_bytes(), b"ab", "b\u{4f60}".as_bytes()];
    let some = 1 + choose(7);
    let sp: Vec<Vec<u8>> = (0..3).filter(|k| some >> k & 1 == 1).map(|k| all[k].to_vec()).collect();
    let t = Tokenizer::new(Model::from(v), NOPROC, sp.iter().map(|w| text(w)));
    let pre = [&b""[..], b"a", "\u{4f60}".as_bytes(), "\u{e9}".as_bytes()][choose(4)];
    let mut s = pre.to_vec();
    s.extend(utf8(1 + tier() as usize));
    s.extend_from_slice([&b""[..], b"b", "b\u{4f60}".as_bytes(), "\u{e9}x".as_bytes()][choose(4)]);
    split_check(&t, &sp, 256, &s);
}
/// Three or four special tokens, one a prefix/suffix of another; every order of
/// declaration.
#[no_mangle]
pub fn h_sp_order() {
    hash_const(true);
    let words: [&[u8]; 4] = [b"<", b"<=", b"=>", b"<=>"];
    let mut order: Vec<usize> = vec![0, 1, 2, 3];
    for i in (1..4).rev() {
        let j = choose(i + 1);
        order.swap(i, j);
    }
    let sp: Vec<Vec<u8>> = order.iter().map(|&i| words[i].to_vec()).collect();
    let v = vec![tok(b"<", -2.0), tok(b"=", -2.25), tok(b">", -2.5), tok(b"<=", -3.0)];
    let t = Tokenizer::new(Model::from(v), NOPROC, sp.iter().map(|w| text(w)));
    let n = len_upto(4 + tier() as usize);
    let s = letters(n, b'<', b'>');
    split_check(&t, &sp, 4, &s);
}
/// The set of special tokens includes symbolic lengths from zero: an empty
/// special token is never matched and encoding still ends.
#[no_mangle]
pub fn h_sp_empty() {
    hash_const(true);
    let v = vec![tok(b"<", -2.0), tok(b"=", -2.25), tok(b">", -2.5)];
    let mut t = Tokenizer::new(Model::from(v), NOPROC, [""; 0]);
    let mut sp: Vec<Vec<u8>> = vec![];
    for _ in 0..2 {
        let l = choose(3);
        let w = letters(l, b'<', b'>');
        t.add_special_tokens([text(&w)]);
        sp.push(w);
    }
    if same(&sp[0], &sp[1]) {
        sp.pop();
    }
    let n = len_upto(2 + tier() as usize);
    let s = letters(n, b'<', b'>');
    match t.encode(text(&s), 0.0) {
        Ok(ids) => {
            // never an empty token's id: decoding keeps the length
            check(ids.len() <= s.len(), 1);
            let d = t.decode(&ids, true);
            check(d.is_ok() && same(d.unwrap().as_bytes(), &s), 2);
            reach(1);
        }
        Err(_) => check(false, 3),
    }
}

/// Decoding arbitrary 32-bit ids.
#[no_mangle]
pub fn h_dec_total() {
    let base: Vec<Vec<u8>> = vec![b"a".to_vec(), vec![0xc3], vec![0xa9], b"bc".to_vec(), vec![0xe4, 0xbd], vec![0xa0, b'x']];
    let sp: Vec<Vec<u8>> = vec![b"<s>".to_vec(), "\u{e9}".as_bytes().to_vec(), b"bc".to_vec()];
    let nb = base.len() as u32;
    let t = Tokenizer::new(Model::from(base.iter().map(|w| tok(w, -1.0)).collect()), NOPROC, sp.iter().map(|w| text(w)));
    let n = len_upto(3 + tier() as usize);
    let ids: Vec<u32> = (0..n).map(|_| if tier() == 0 { u64_in(0, 11) as u32 } else { u64_in(0, 9) as u32 }).collect();
    dec_check(&t, &base, &sp, nb, &ids);
}
/// One id takes any value of the full 32-bit range.
#[no_mangle]
pub fn h_dec_wide() {
    let base: Vec<Vec<u8>> = vec![b"a".to_vec(), vec![0xc3], vec![0xa9]];
    let sp: Vec<Vec<u8>> = vec![b"<s>".to_vec(), b"|".to_vec()];
    let t = Tokenizer::new(Model::from(base.iter().map(|w| tok(w, -1.0)).collect()), NOPROC, sp.iter().map(|w| text(w)));
    let mut ids: Vec<u32> = vec![1, 0, 4];
    let k = choose(3);
    ids[k] = u64_in(0, u32::MAX as u64) as u32;
    dec_check(&t, &base, &sp, 3, &ids);
}
fn dec_check(t: &Tokenizer, base: &[Vec<u8>], sp: &[Vec<u8>], nb: u32, ids: &[u32]) {
    let total = nb as usize + sp.len();
    let oob = ids.iter().position(|&i| i as usize >= total);
    for inc in [true, false] {
        match t.decode(ids, inc) {
            Ok(d) => {
                reach(1);
                check(oob.is_none(), 1);
                // runs of base tokens, lossily decoded, with the special text in between
                let mut want = String::new();
                let mut run: Vec<u8> = vec![];
                for &i in ids {
                    if i < nb {
                        run.extend_from_slice(&base[i as usize]);
                    } else if ((i - nb) as usize) < sp.len() {
                        want.push_str(&String::from_utf8_lossy(&run));
                        run.clear();
                        if inc {
                            reach(3);
                            want.push_str(text(&sp[(i - nb) as usize]));
                        }
                    }
                }
                want.push_str(&String::from_utf8_lossy(&run));
                check(same(d.as_bytes(), want.as_bytes()), 2);
                observe_bytes(d.as_bytes());
            }
            Err(Error::TokenIdOutOfBounds(id)) => {
                reach(2);
                check(oob.map_or(false, |k| ids[k] == id), 3);
            }
            Err(_) => check(false, 4),
        }
    }
}
/// Decoding arbitrary token bytes: lossy exactly where the bytes are not UTF-8.
#[no_mangle]
pub fn h_dec_bytes() {
    hash_const(true);
    let n = 1 + choose(2);
    let a = letters(n, 0, 255);
    let b = letters(1, 0x7f, 0xc4);
    assume(!same(&a, &b));
    let t = Tokenizer::new(Model::from(vec![tok(&a, -1.0), tok(&b, -1.0)]), NOPROC, ["|"]);
    let ids: Vec<u32> = [&[0u32, 1][..], &[0, 2, 1], &[1, 0]][choose(3)].to_vec();
    dec_check(&t, &[a, b], &[b"|".to_vec()], 2, &ids);
}

/// Ids, tokens and counts agree after any history of additions.
#[no_mangle]
pub fn h_map_history() {
    hash_const(true);
    let mut base: Vec<Vec<u8>> = vec![b"a".to_vec()];
    let mut sp: Vec<Vec<u8>> = vec![b"ab".to_vec()];
    let mut t = Tokenizer::new(Model::from(vec![tok(b"a", -1.0)]), NOPROC, ["ab"]);
    let steps = 2 + tier() as usize;
    for _ in 0..steps {
        let l = 1 + choose(2);
        let w = letters(l, b'a', b'b');
        if choose(2) == 0 {
            t.add_base_tokens([ScoredToken::new(w.clone(), -2.0, true)]);
            base.push(w);
        } else {
            t.add_special_tokens([text(&w)]);
            if !sp.iter().any(|x| same(x, &w)) {
                sp.push(w);
            }
        }
        maps(&t, &base, &sp);
    }
    let probe = letters(1 + choose(2), b'a', b'c');
    lookups(&t, &base, &sp, &probe);
    reach(1);
}
fn maps(t: &Tokenizer, base: &[Vec<u8>], sp: &[Vec<u8>]) {
    let (nb, ns) = (base.len(), sp.len());
    check(t.base_vocab_size() == nb, 1);
    check(t.special_vocab_size() == ns, 2);
    check(t.vocab_size() == nb + ns, 3);
    check(t.special_tokens().len() == ns && t.special_tokens().iter().zip(sp).all(|(a, b)| same(a.as_bytes(), b)), 4);
    check(t.model().vocab().len() == nb, 5);
    for id in 0..(nb + ns + 2) {
        let i = id as u32;
        let v = t.id_to_token(i);
        let sv = t.id_to_special_token(i);
        let bv = t.id_to_base_token(i);
        check(t.is_base(i) == (id < nb), 6);
        check(t.is_special(i) == (id >= nb && id < nb + ns), 7);
        if id < nb {
            check(v.map_or(false, |v| same(&v, &base[id])) && sv.is_none(), 8);
            check(bv.map_or(false, |x| same(&x.value, &base[id])), 9);
        } else if id < nb + ns {
            check(v.map_or(false, |v| same(&v, &sp[id - nb])) && bv.is_none(), 10);
            check(sv.map_or(false, |x| same(x.as_bytes(), &sp[id - nb])), 11);
        } else {
            check(v.is_none() && sv.is_none() && bv.is_none(), 12);
        }
    }
}
fn lookups(t: &Tokenizer, base: &[Vec<u8>], sp: &[Vec<u8>], w: &Vec<u8>) {
    let nb = base.len() as u32;
    let b = t.base_token_to_id(w);
    check(b.is_some() == base.iter().any(|x| same(x, w)), 13);
    check(b.map_or(true, |i| same(&base[i as usize], w)), 14);
    let s = t.special_token_to_id(text(w));
    let k = sp.iter().position(|x| same(x, w));
    check(s == k.map(|k| k as u32 + nb), 15);
    let a = t.token_to_id(w);
    check(a == b.or(s), 16);
    check(a.map_or(true, |i| t.id_to_token(i).map_or(false, |v| same(&v, w))), 17);
    observe(a.map_or(99, |x| x as u64));
}
/// Construction from a vocabulary and by additions one at a time give the same
/// tokenizer.
#[no_mangle]
pub fn h_map_build() {
    hash_const(true);
    let mut words = vec![];
    for _ in 0..3 {
        let l = 1 + choose(2);
        words.push(letters(l, b'a', b'b'));
    }
    let vocab: Vec<ScoredToken> = words.iter().enumerate().map(|(i, w)| tok(w, -1.0 - i as f64)).collect();
    let a = Tokenizer::new(Model::from(vocab.clone()), NOPROC, ["|"]);
    let cut = choose(4);
    let mut b = Tokenizer::new(Model::from(vocab[..cut].to_vec()), NOPROC, ["|"]);
    b.add_base_tokens(vocab[cut..].to_vec());
    let n = len_upto(3);
    let mut s = letters(n, b'a', b'b');
    if n > 1 && choose(2) == 1 {
        s[0] = b'|';
    }
    let (x, y) = (a.encode(text(&s), 0.0), b.encode(text(&s), 0.0));
    match (x, y) {
        (Ok(x), Ok(y)) => check(x == y, 1),
        (Err(Error::NoPath(p, l)), Err(Error::NoPath(q, m))) => check(p == q && l == m, 2),
        _ => check(false, 3),
    }
    for w in &words {
        check(a.token_to_id(w) == b.token_to_id(w), 4);
    }
    maps(&b, &words, &[b"|".to_vec()]);
    let (m, p, s) = b.into_inner();
    check(m.vocab_size() == 3 && p.is_empty() && s.len() == 1, 5);
    reach(1);
}

/// Batches: any schedule, any failure position.
#[no_mangle]
pub fn h_batch() {
    rayon::__set_schedule(1, 1 + choose(3));
    let v = vec![tok(b"a", -2.0), tok(b"b", -2.5), tok(b"ab", -3.0)];
    let t = Tokenizer::new(Model::from(v), NOPROC, ["aa"]);
    let n = len_upto(3);
    let mut ss = vec![];
    for i in 0..n {
        let l = if i == 0 { choose(3 + tier() as usize) } else { 1 + (i & 1) };
        ss.push(letters(l, b'a', b'c'));
    }
    let items: Vec<&str> = ss.iter().map(|s| text(s)).collect();
    let ord = choose(2) == 1;
    let each: Vec<_> = items.iter().map(|s| if ord { t.encode_ordinary(s, 0.0) } else { t.encode(s, 0.0) }).collect();
    let all = if ord { t.encode_ordinary_batch(&items[..], 0.0) } else { t.encode_batch(&items[..], 0.0) };
    match all {
        Ok(v) => {
            reach(1);
            check(v.len() == n, 1);
            for (i, e) in each.iter().enumerate() {
                check(matches!(e, Ok(x) if i < v.len() && *x == v[i]), 2);
            }
            let back = t.decode_batch(&v[..], true);
            match back {
                Ok(b) => {
                    check(b.len() == n, 3);
                    for i in 0..n {
                        check(i < b.len() && same(b[i].as_bytes(), &ss[i]), 4);
                    }
                }
                Err(_) => check(false, 5),
            }
        }
        Err(_) => {
            reach(2);
            check(each.iter().any(|e| e.is_err()), 6);
        }
    }
}
#[no_mangle]
pub fn h_batch_decode() {
    rayon::__set_schedule(1, 1 + choose(3));
    let v = vec![tok(b"a", -2.0), tok(b"bc", -2.5)];
    let t = Tokenizer::new(Model::from(v), NOPROC, ["<s>"]);
    let n = len_upto(3);
    let lists: Vec<Vec<u32>> = (0..n).map(|i| { let l = if i == 1 { choose(3) } else { 1 }; (0..l).map(|_| u64_in(0, 4) as u32).collect() }).collect();
    let inc = choose(2) == 1;
    let each: Vec<_> = lists.iter().map(|l| t.decode(l, inc)).collect();
    match t.decode_batch(&lists[..], inc) {
        Ok(v) => {
            reach(1);
            check(v.len() == n, 1);
            for (i, e) in each.iter().enumerate() {
                check(matches!(e, Ok(x) if i < v.len() && same(x.as_bytes(), v[i].as_bytes())), 2);
            }
        }
        Err(_) => {
            reach(2);
            check(each.iter().any(|e| e.is_err()), 3);
        }
    }
}
/// Large batches: sizes around the usual splitting thresholds, reversed order.
#[no_mangle]
pub fn h_batch_large() {
    rayon::__set_schedule(2, 4);
    let v = vec![tok(b"a", -2.0), tok(b"b", -2.5), tok(b"ab", -3.0)];
    let t = Tokenizer::new(Model::from(v), NOPROC, ["bb"]);
    let n = [31, 32, 33, 64, 127, 128, 129, 257][choose(8)];
    let p = [0, n / 2, n - 1][choose(3)];
    let mut ss: Vec<Vec<u8>> = (0..n).map(|i| if i % 3 == 0 { b"ab".to_vec() } else { vec![b'a'; 1 + i % 2] }).collect();
    ss[p] = letters(2, b'a', b'c');
    let items: Vec<&str> = ss.iter().map(|s| text(s)).collect();
    match t.encode_batch(&items[..], 0.0) {
        Ok(v) => {
            check(v.len() == n, 1);
            for i in 0..n {
                check(v[i] == t.encode(items[i], 0.0).unwrap(), 2);
            }
            reach(1);
        }
        Err(_) => check(ss[p].iter().any(|&c| c == b'c'), 3),
    }
}
/// Long texts of multi-byte characters: whatever blocks the text, the ids or the
/// bytes are processed in, some character lies across their borders.
#[no_mangle]
pub fn h_rt_huge() {
    let mut v = bytes256();
    v.push(tok(&[0xa9, 0xc3], -7.0));
    v.push(tok("\u{4f60}".as_bytes(), -7.0));
    let t = Tokenizer::new(Model::from(v), NOPROC, ["|", "\u{e9}\u{4f60}"]);
    let unit = ["\u{e9}", "\u{4f60}", "\u{1f600}", "\u{e9}x"][choose(4)].as_bytes();
    let total = if tier() == 0 { 66_000 } else { 300_000 };
    let mut s = vec![b'x'; choose(4)];
    while s.len() < total {
        s.extend_from_slice(unit);
    }
    s.push(byte_in(b'y', b'}'));
    s.extend_from_slice(unit);
    let whole = choose(2) == 1;
    let ids = if whole { t.encode_ordinary(text(&s), 0.0) } else { t.encode(text(&s), 0.0) };
    match ids {
        Ok(ids) => {
            check(t.decode(&ids, true).map_or(false, |d| same(d.as_bytes(), &s)), 4);
            check(!whole || ids.iter().all(|&i| i < 258), 5);
            reach(1);
        }
        Err(_) => check(false, 6),
    }
}
/// Hundreds of special tokens, each used, in any order of declaration of the last two.
#[no_mangle]
pub fn h_sp_many() {
    let n = [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300][choose(16)];
    let mut sp: Vec<Vec<u8>> = (0..n).map(|i| format!("<{}>", i).into_bytes()).collect();
    if choose(2) == 1 {
        // the last one is a prefix of the first ones
        sp.push(b"<1".to_vec());
    }
    let base = bytes256();
    let t = Tokenizer::new(Model::from(base), NOPROC, sp.iter().map(|w| text(w)));
    let mut s = vec![];
    for k in (0..n).rev().step_by(3) {
        s.extend_from_slice(&sp[k]);
        if k % 2 == 0 {
            s.push(b'x');
        }
    }
    s.push(byte_in(b'0', b'>'));
    s.extend_from_slice(&sp[n - 1]);
    split_check(&t, &sp, 256, &s);
    maps(&t, &(0..=255u8).map(|b| vec![b]).collect::<Vec<_>>(), &sp);
}
/// Long special tokens and texts that differ from them in one place.
#[no_mangle]
pub fn h_sp_long() {
    let n = [15, 16, 17, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1000, 1500][choose(16)];
    let a = vec![b'x'; n];
    let b = [&a[..], b"y"].concat();
    let mut sp = vec![a.clone(), b.clone()];
    if choose(2) == 1 {
        sp.swap(0, 1);
    }
    let t = Tokenizer::new(Model::from(vec![tok(b"x", -2.0), tok(b"y", -2.0), tok(b"xx", -3.0), tok(b"z", -1.0)]), NOPROC, sp.iter().map(|w| text(w)));
    let mut s = vec![b'y'; choose(2)];
    s.extend_from_slice(&b);
    s.extend_from_slice(&a);
    let k = [0, n / 2, n - 1, n, n + 1, 2 * n][choose(6)];
    s[k] = byte_in(b'x', b'z');
    split_check(&t, &sp, 4, &s);
}
/// Long lists of ids: an id out of range anywhere is reported, the others decode.
#[no_mangle]
pub fn h_dec_many() {
    let base: Vec<Vec<u8>> = vec![b"a".to_vec(), vec![0xc3], vec![0xa9], b"bc".to_vec(), vec![0xe4, 0xbd], vec![0xa0, b'x']];
    let sp: Vec<Vec<u8>> = vec![b"<s>".to_vec(), "\u{e9}".as_bytes().to_vec()];
    let t = Tokenizer::new(Model::from(base.iter().map(|w| tok(w, -1.0)).collect()), NOPROC, sp.iter().map(|w| text(w)));
    let n = [31, 32, 33, 64, 129, 257, 1025, 5000, 66_000][choose(if tier() == 0 { 8 } else { 9 })];
    let unit: &[u32] = [&[1u32, 2][..], &[4, 5, 0], &[0, 6, 1, 2], &[3]][choose(4)];
    let mut ids: Vec<u32> = vec![0; choose(2)];
    while ids.len() < n {
        ids.extend_from_slice(unit);
    }
    let k = [0, n / 2, n - 1][choose(3)];
    ids[k] = u64_in(0, 9) as u32;
    dec_check(&t, &base, &sp, 6, &ids);
}
/// Batches of thousands of items.
#[no_mangle]
pub fn h_batch_huge() {
    rayon::__set_schedule(0, 4);
    let v = vec![tok(b"a", -2.0), tok(b"b", -2.5), tok(b"ab", -3.0)];
    let t = Tokenizer::new(Model::from(v), NOPROC, ["bb"]);
    let n = [511, 512, 513, 1000, 1024, 1025, 2049, 5000][choose(8)];
    let p = [0, n / 3, n - 1][choose(3)];
    let words: [&[u8]; 7] = [b"ab", b"a", b"", b"bba", b"aab", b"b", b"abab"];
    let mut ss: Vec<Vec<u8>> = (0..n).map(|i| words[i * i % 7].to_vec()).collect();
    ss[p] = letters(1, b'a', b'c');
    let items: Vec<&str> = ss.iter().map(|s| text(s)).collect();
    let ord = choose(2) == 1;
    let one = |s: &str| if ord { t.encode_ordinary(s, 0.0) } else { t.encode(s, 0.0) };
    match if ord { t.encode_ordinary_batch(&items[..], 0.0) } else { t.encode_batch(&items[..], 0.0) } {
        Ok(v) => {
            check(v.len() == n, 1);
            for i in 0..n {
                check(one(items[i]).map_or(false, |x| x == v[i]), 2);
            }
            match t.decode_batch(&v[..], true) {
                Ok(d) => check(d.len() == n && (0..n).all(|i| same(d[i].as_bytes(), &ss[i])), 3),
                Err(_) => check(false, 4),
            }
            reach(1);
        }
        Err(_) => check(ss[p][0] == b'c', 5),
    }
}
/// A long item of a batch: whatever blocks it is processed in.
#[no_mangle]
pub fn h_batch_long() {
    let mut v = bytes256();
    v.push(tok(&[0xa9, 0xc3], -7.0));
    let t = Tokenizer::new(Model::from(v), vec![ProcessorWrapper::Crlf(CrlfProcessor)], ["|\u{e9}"]);
    let total = if tier() == 0 { 66_000 } else { 300_000 };
    let mut s = vec![b'x'; choose(4)];
    let unit = ["\u{e9}|\u{e9}", "\u{4f60}\r\n"][choose(2)].as_bytes();
    while s.len() < total {
        s.extend_from_slice(unit);
    }
    s.push(byte_in(b'y', b'}'));
    let s = text(&s);
    let want = t.encode(s, 0.0).unwrap_or_default();
    check(!want.is_empty(), 1);
    match choose(3) {
        0 => check(t.encode_batch(["a", s, "b"], 0.0).map_or(false, |x| x.len() == 3 && x[1] == want && x[0] == [b'a' as u32] && x[2] == [b'b' as u32]), 2),
        1 => {
            let want = t.encode_ordinary(s, 0.0).unwrap_or_default();
            check(t.encode_ordinary_batch([s, "a"], 0.0).map_or(false, |x| x.len() == 2 && x[0] == want && x[1] == [b'a' as u32]), 3)
        }
        _ => {
            let inc = choose(2) == 1;
            let text = t.decode(&want, inc).unwrap_or_default();
            check(!text.is_empty(), 4);
            check(t.decode_batch([&want[..], &[b'a' as u32]], inc).map_or(false, |x| x.len() == 2 && same(x[0].as_bytes(), text.as_bytes()) && x[1] == "a"), 5);
        }
    }
    reach(1);
}
entries!(h_rt_utf8, h_rt_utf8_4, h_rt_special, h_rt_dropout, h_rt_ordinary, h_rt_history, h_rt_long, h_rt_many, h_sp_split, h_sp_utf8, h_sp_order, h_sp_empty, h_dec_total, h_dec_wide, h_dec_bytes, h_map_history, h_map_build, h_batch, h_batch_decode, h_batch_large, h_rt_huge, h_sp_many, h_sp_long, h_dec_many, h_batch_huge, h_batch_long);
