//! What the harnesses over the commands share.
use super::util::*;
use sym::*;
use tokengeex::*;

pub const NAMES: [&str; 5] = ["crlf", "nfc", "nfd", "nfkc", "nfkd"];
pub fn proc(k: usize) -> ProcessorWrapper {
    match k {
        0 => ProcessorWrapper::Crlf(CrlfProcessor),
        1 => ProcessorWrapper::Unicode(UnicodeProcessor::Nfc),
        2 => ProcessorWrapper::Unicode(UnicodeProcessor::Nfd),
        3 => ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc),
        _ => ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd),
    }
}
pub fn same_procs(t: &Tokenizer, want: &[usize]) -> bool {
    let p = t.processors();
    p.len() == want.len()
        && p.iter().zip(want).all(|(p, k)| {
            matches!(
                (p, k),
                (ProcessorWrapper::Crlf(_), 0)
                    | (ProcessorWrapper::Unicode(UnicodeProcessor::Nfc), 1)
                    | (ProcessorWrapper::Unicode(UnicodeProcessor::Nfd), 2)
                    | (ProcessorWrapper::Unicode(UnicodeProcessor::Nfkc), 3)
                    | (ProcessorWrapper::Unicode(UnicodeProcessor::Nfkd), 4)
            )
        })
}
pub fn own(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
pub fn specials(t: &Tokenizer) -> Vec<String> {
    t.special_tokens().iter().map(|s| s.to_string()).collect()
}
/// Runs the tool with these arguments.
pub fn cmd(args: &[&str]) {
    xflags::__set_args(args);
    crate::main()
}
pub fn input(vocab: Vec<ScoredToken>, procs: &[usize], sp: &[String]) -> Tokenizer {
    let t = Tokenizer::new(Model::from(vocab), procs.iter().map(|&k| proc(k)).collect::<Vec<_>>(), sp);
    t.save("in.json").unwrap();
    t
}
/// Any configuration: zero to two processors, up to five special tokens.
pub fn config(any: bool) -> (Vec<usize>, Vec<String>) {
    let n = choose(3);
    let procs = (0..n).map(|i| if i == 0 { choose(5) } else { 0 }).collect();
    let b = if any { byte_in(b'!', b'~') } else { b'0' };
    let sp = match choose(3) {
        0 => vec![],
        1 => vec![format!("<{}>", b as char)],
        _ => vec![format!("<{}>", b as char), "\u{e9}\n".to_string(), "a longer one".to_string(), "|".to_string(), "<~".to_string(), "ab".to_string(), "a".to_string(), " b\t".to_string()],
    };
    (procs, sp)
}
pub fn kept(procs: &[usize], sp: &[String]) -> Option<Tokenizer> {
    match Tokenizer::from_file("out.json") {
        Ok(t) => {
            check(same_procs(&t, procs), 1);
            let got = specials(&t);
            check(got.len() == sp.len() && got.iter().zip(sp).all(|(a, b)| same(a.as_bytes(), b.as_bytes())), 2);
            Some(t)
        }
        Err(_) => {
            check(false, 3);
            None
        }
    }
}
pub fn same_vocab(a: &[ScoredToken], b: &[ScoredToken]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(&a.value, &b.value) && a.keep == b.keep && (a.score - b.score).abs() < 1e-12)
}
