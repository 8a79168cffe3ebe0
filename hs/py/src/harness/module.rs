//! The Python module's functions against the library's.
use super::util::*;
use crate::*;
use sym::*;
use tokengeex::{CrlfProcessor, Model, ProcessorWrapper, ScoredToken, Tokenizer};

type E = Result<(), PyErr>;
fn error<T, X: Into<PyErr>>(r: Result<T, X>) -> Result<T, PyErr> {
    r.map_err(|e| e.into())
}
/// Same value, or both an error: the exception is the module's own and carries
/// the library's message.
fn agree<T: PartialEq, X: Into<PyErr>>(py: Result<T, X>, lib: Result<T, tokengeex::Error>, id: u64) {
    match (error(py), lib) {
        (Ok(a), Ok(b)) => {
            check(a == b, id);
            reach(1);
        }
        (Err(e), Err(l)) => {
            check(e.class == "TokenGeeXError" && e.message == l.to_string(), id);
            reach(2);
        }
        _ => check(false, id),
    }
}
fn library() -> Tokenizer {
    let vocab = vec![tok(b"a", -2.0), tok(b"b", -2.5), tok(b"ab", -3.0), tok(b"ba", -4.0), tok(b"\n", -3.0), tok(&[0xff], -9.0)];
    Tokenizer::new(Model::from(vocab), vec![ProcessorWrapper::Crlf(CrlfProcessor)], vec!["bb".to_string(), "<s>".to_string()])
}
/// Encoding any text, alone and in batches, interpreted or ordinary.
#[no_mangle]
pub fn h_py_encode() {
    hash_const(true);
    let t = library();
    let p = PyTokenizer::from(t.clone());
    let n = choose(4 + tier() as usize);
    let s = letters(n, b'a', b'c');
    let s = text(&s);
    agree(p.encode(s, 0.0), t.encode(s, 0.0), 1);
    agree(p.encode_ordinary(s, 0.0), t.encode_ordinary(s, 0.0), 2);
    let x = ["a\r\n", "<s>ab"][choose(2)];
    agree(p.encode(x, 0.0), t.encode(x, 0.0), 3);
    agree(p.encode_batch(vec![x, s], 0.0), t.encode_batch(vec![x, s], 0.0), 4);
    agree(p.encode_ordinary_batch(vec![s, x], 0.0), t.encode_ordinary_batch(vec![s, x], 0.0), 5);
    // with everything dropped only single bytes are left
    agree(p.encode_ordinary(s, 1.0), t.encode_ordinary(s, 1.0), 6);
    agree(p.encode(s, 1.0), t.encode(s, 1.0), 7);
    agree(p.encode_batch(vec![s], 1.0), t.encode_batch(vec![s], 1.0), 8);
    agree(p.encode_ordinary_batch(vec![s], 1.0), t.encode_ordinary_batch(vec![s], 1.0), 9);
}
/// Decoding any ids, with and without special tokens.
#[no_mangle]
pub fn h_py_decode() {
    hash_const(true);
    let t = library();
    let p = PyTokenizer::from(t.clone());
    let n = choose(3 + tier() as usize);
    let ids: Vec<u32> = (0..n).map(|_| u64_in(0, 9) as u32).collect();
    let special = choose(2) == 1;
    agree(p.decode(ids.clone(), special), t.decode(&ids, special), 1);
    agree(p.decode_batch(vec![ids.clone(), vec![0, 7]], special), t.decode_batch(vec![ids.clone(), vec![0, 7]], special), 2);
}
/// Looking tokens up by bytes and by id.
#[no_mangle]
pub fn h_py_lookup() {
    hash_const(true);
    let mut t = library();
    let empty = choose(3);
    if empty > 0 {
        // an empty token, or one that is there twice
        let mut v = t.model().vocab().to_vec();
        v[3] = tok(if empty == 1 { b"" } else { b"b" }, -4.0);
        t = Tokenizer::new(Model::from(v), Vec::<ProcessorWrapper>::new(), t.special_tokens().clone());
    }
    // also a base token
    t.add_special_tokens(vec!["ab".to_string()]);
    let p = PyTokenizer::from(t.clone());
    let b = {
        let n = choose(3);
        letters(n, b'a', b'c')
    };
    check(p.token_to_id(b.clone()) == t.token_to_id(&b), 1);
    check(p.base_token_to_id(b.clone()) == t.base_token_to_id(&b), 2);
    check(p.special_token_to_id(text(&b)) == t.special_token_to_id(text(&b)), 3);
    check(p.special_token_to_id("<s>") == Some(7), 4);
    check(p.token_to_id(vec![0xff]) == Some(5), 5);
    let id = u64_in(0, u32::MAX as u64) as u32;
    Python::with_gil(|py| {
        match (p.id_to_token(py, id), t.id_to_token(id)) {
            (Some(a), Some(b)) => {
                check(same(a.as_ref(py).as_bytes(), &b), 6);
                reach(1);
            }
            (None, None) => reach(2),
            _ => check(false, 6),
        }
        match (p.id_to_base_token(py, id), t.id_to_base_token(id)) {
            (Some((a, s)), Some(b)) => check(same(a.as_ref(py).as_bytes(), &b.value) && s == b.score, 7),
            (None, None) => {}
            _ => check(false, 7),
        }
    });
    check(p.id_to_special_token(id) == t.id_to_special_token(id), 8);
    check(p.is_special(id) == t.is_special(id), 9);
    check(p.is_base(id) == t.is_base(id), 10);
    check(p.is_base(id) == (id < 6) && p.is_special(id) == (id >= 6 && id <= 8), 11);
    check(p.vocab_size() == 9 && p.base_vocab_size() == 6 && p.special_vocab_size() == 3, 12);
    check(p.special_tokens() == ["bb", "<s>", "ab"], 13);
}
/// Prefix search lists the ids the library finds, shortest first.
#[no_mangle]
pub fn h_py_prefix() {
    hash_const(true);
    let t = library();
    let p = PyTokenizer::from(t);
    let n = choose(4 + tier() as usize);
    let s = letters(n, b'a', b'c');
    let vocab: [&[u8]; 5] = [b"a", b"b", b"ab", b"ba", b"\n"];
    let mut want = vec![];
    for l in 1..=n {
        for (i, v) in vocab.iter().enumerate() {
            if v.len() == l && starts_with(&s, v) {
                want.push(i as u32);
            }
        }
    }
    check(p.common_prefix_search(text(&s)) == want, 1);
    if want.len() > 1 {
        reach(1);
    }
}
fn same_tokenizer(p: &PyTokenizer, t: &Tokenizer) -> bool {
    p.tokenizer.to_string() == t.to_string() && p.special_tokens() == t.special_tokens()
}
/// Storing, loading and pickling; tokens added before count.
#[no_mangle]
pub fn h_py_store() {
    hash_const(true);
    let mut t = library();
    let mut p = PyTokenizer::from(t.clone());
    if choose(2) == 1 {
        let n = 1 + choose(2);
        let s = text(&letters(n, b'c', b'e')).to_string();
        t.add_special_tokens(vec![s.clone(), "<t>".to_string()]);
        p.add_special_tokens(vec![s, "<t>".to_string()]);
    }
    check(same_tokenizer(&p, &t), 1);
    check(p.to_string() == t.to_string(), 2);
    Python::with_gil(|py| match choose(4) {
        0 => {
            match error(PyTokenizer::from_str(py, &p.to_string())) {
                Ok(q) => check(same_tokenizer(&q, &t), 3),
                Err(_) => check(false, 3),
            }
            reach(1);
        }
        1 => {
            let r: E = { let r = p.save("saved.json"); done(r) };
            check(r.is_ok(), 4);
            match error(PyTokenizer::from_file(py, "saved.json")) {
                Ok(q) => check(same_tokenizer(&q, &t), 5),
                Err(_) => check(false, 5),
            }
            reach(2);
        }
        2 => {
            let state = match p.__getstate__(py) {
                Ok(s) => s,
                Err(_) => return check(false, 6),
            };
            let mut q = match choose(3) {
                0 => PyTokenizer::new(),
                1 => PyTokenizer::from(library()),
                _ => {
                    let mut q = PyTokenizer::from(library());
                    q.add_special_tokens(vec!["<z>".to_string(), "<t>".to_string()]);
                    q
                }
            };
            check(q.__setstate__(py, state).is_ok(), 7);
            check(same_tokenizer(&q, &t), 8);
            reach(3);
        }
        _ => {
            // what is not a tokenizer is refused, and changes nothing
            let bad = ["", "{", "{\"version\":\"1.0\"}", "[]"][choose(4)];
            agree(PyTokenizer::from_str(py, bad).map(|_| ()), bad.parse::<Tokenizer>().map(|_| ()), 9);
            agree(PyTokenizer::from_file(py, "no-such-file").map(|_| ()), Tokenizer::from_file("no-such-file").map(|_| ()), 10);
            let state = PyBytes::new(py, bad.as_bytes()).to_object(py);
            check(p.__setstate__(py, state).is_err(), 11);
            check(p.__setstate__(py, "text".to_object(py)).is_err(), 12);
            check(same_tokenizer(&p, &t), 13);
            reach(4);
        }
    });
}
/// What `save` returns, whether or not it can report failure.
trait Done {
    fn done(self) -> E;
}
impl Done for () {
    fn done(self) -> E {
        Ok(())
    }
}
impl<T, X: Into<PyErr>> Done for Result<T, X> {
    fn done(self) -> E {
        self.map(|_| ()).map_err(|e| e.into())
    }
}
fn done(d: impl Done) -> E {
    d.done()
}
/// Saving and loading while system calls fail: an exception whenever the library
/// reports an error.
#[no_mangle]
pub fn h_py_io() {
    let t = library();
    let p = PyTokenizer::from(t.clone());
    let load = choose(2) == 1;
    if load {
        check(t.save("saved.json").is_ok(), 1);
    }
    fault::allow(1 + tier());
    let r = if load {
        Python::with_gil(|py| match error(PyTokenizer::from_file(py, "saved.json")) {
            Ok(q) => {
                check(same_tokenizer(&q, &t), 2);
                Ok(())
            }
            Err(e) => Err(e),
        })
    } else {
        done(p.save("saved.json"))
    };
    let hard = fault::hard();
    fault::allow(0);
    check(r.is_ok() == (hard == 0), 3);
    match r {
        Ok(()) => reach(1),
        Err(e) => {
            check(!e.message.is_empty(), 4);
            reach(2);
        }
    }
}
/// The module has the class and the exception.
#[no_mangle]
pub fn h_py_module() {
    let m = PyModule::default();
    Python::with_gil(|py| check(tokengeex_module(py, &m).is_ok(), 1));
    let n = m.names.borrow();
    check(n.iter().any(|n| n == "PyTokenizer"), 2);
    check(n.iter().any(|n| n == "TokenGeeXError"), 3);
    reach(1);
}
sym::entries!(h_py_encode, h_py_decode, h_py_lookup, h_py_prefix, h_py_store, h_py_io, h_py_module);
