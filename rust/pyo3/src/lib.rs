//! Offline stand-in for the pyo3 attribute macros that /repo/src uses.
//! It attaches no behaviour: it only removes the attributes, so that the very
//! same Rust sources compile as an ordinary library, and makes the methods
//! which pyo3 would expose to Python visible inside the crate.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

const HELPERS: &[&str] = &[
    "pyo3", "new", "getter", "setter", "staticmethod", "classmethod",
    "classattr", "args", "pyclass", "pyfunction", "pymethods", "pymodule",
    "pymodule_export", "pymodule_init",
];

fn helper(group: &Group) -> bool {
    group.delimiter() == Delimiter::Bracket
        && match group.stream().into_iter().next() {
            Some(TokenTree::Ident(id)) => {
                HELPERS.contains(&id.to_string().as_str())
            }
            _ => false,
        }
}

fn strip(ts: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) =
            (&toks[i], toks.get(i + 1))
        {
            if p.as_char() == '#' && helper(g) {
                i += 2;
                continue;
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), strip(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

fn is_ident(t: Option<&TokenTree>, names: &[&str]) -> bool {
    matches!(t, Some(TokenTree::Ident(id))
        if names.contains(&id.to_string().as_str()))
}

/// `fn` -> `pub fn` and `use` -> `pub use` for the items directly in `ts`.
fn publish(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    for t in ts {
        let item = is_ident(Some(&t), &["fn", "use"]);
        if item {
            let mut at = out.len();
            while at > 0
                && is_ident(
                    out.get(at - 1),
                    &["const", "unsafe", "async"],
                )
            {
                at -= 1;
            }
            let is_pub = at > 0
                && (is_ident(out.get(at - 1), &["pub"])
                    || (at > 1 && is_ident(out.get(at - 2), &["pub"])));
            if !is_pub {
                out.insert(
                    at,
                    TokenTree::Ident(Ident::new("pub", Span::call_site())),
                );
            }
        }
        out.push(t);
    }
    out.into_iter().collect()
}

/// Applies `publish` to the last brace group (the body of an impl or mod).
fn publish_body(ts: TokenStream) -> TokenStream {
    let mut toks: Vec<TokenTree> = ts.into_iter().collect();
    if let Some(TokenTree::Group(g)) = toks.pop() {
        let mut ng = Group::new(g.delimiter(), publish(g.stream()));
        ng.set_span(g.span());
        toks.push(TokenTree::Group(ng));
    }
    toks.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}

#[proc_macro_attribute]
pub fn pyclass(_: TokenStream, item: TokenStream) -> TokenStream {
    strip(item)
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    publish_body(strip(item))
}

#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    publish_body(strip(item))
}
