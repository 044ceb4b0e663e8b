//! Records the tokens an item has when this attribute is reached.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn flat(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if !a.is_empty() {
                    out.push(a.into());
                }
                flat(g.stream(), out);
                if !b.is_empty() {
                    out.push(b.into());
                }
            }
            t => out.push(t.to_string()),
        }
    }
}

fn constant(name: TokenStream, item: TokenStream) -> TokenStream {
    let mut v = vec![];
    flat(item, &mut v);
    format!("pub const {}: &str = {:?};", name, v.join(" ")).parse().unwrap()
}

/// `#[dump(NAME)]`: replaces the item by a constant that holds its tokens.
#[proc_macro_attribute]
pub fn dump(attr: TokenStream, item: TokenStream) -> TokenStream {
    constant(attr, item)
}

/// `#[dump_keep(NAME)]`: adds the constant and keeps the item.
#[proc_macro_attribute]
pub fn dump_keep(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut c = constant(attr, item.clone());
    c.extend(item);
    c
}
