//! The attributes of pyo3, leaving the annotated Rust code as it is (without the
//! helper attributes inside).
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

const HELPERS: &[&str] = &["pyo3", "new", "staticmethod", "classmethod", "getter", "setter", "classattr", "args", "text_signature", "pyfn", "pyfunction"];

fn strip(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Ident(id)) = g.stream().into_iter().next() {
                    if HELPERS.contains(&id.to_string().as_str()) {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        out.push(match &v[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), strip(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t.clone(),
        });
        i += 1;
    }
    out.into_iter().collect()
}
/// Adds `impl PyClass` so that the class can be registered.
#[proc_macro_attribute]
pub fn pyclass(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut it = item.clone().into_iter();
    while let Some(t) = it.next() {
        if let TokenTree::Ident(i) = &t {
            if i.to_string() == "struct" || i.to_string() == "enum" {
                name = it.next().map(|t| t.to_string());
                break;
            }
        }
    }
    let n = name.expect("a class name");
    let mut out = strip(item);
    out.extend(format!("impl pyo3::PyClass for {n} {{ const NAME: &'static str = \"{n}\"; }}").parse::<TokenStream>().unwrap());
    out
}
#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}
