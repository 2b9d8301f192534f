//! `#[derive(VInfo)]`: puts what the declaration of the item looks like into a constant next to it
//! (VINFO for an enum, PINFO for a struct): visibility, `va` attributes, generics, and for every
//! variant its `va` attributes and its name.
extern crate proc_macro;
use proc_macro::{Delimiter, Spacing, TokenStream, TokenTree};

fn dense(s: &str) -> String {
    s.split_whitespace().collect()
}
/// reads attributes; returns the `va` ones
fn attrs(v: &[TokenTree], i: &mut usize) -> Vec<String> {
    let mut o = vec![];
    while *i + 1 < v.len() {
        match (&v[*i], &v[*i + 1]) {
            (TokenTree::Punct(p), TokenTree::Group(g)) if p.as_char() == '#' && g.delimiter() == Delimiter::Bracket => {
                let t = dense(&g.stream().to_string());
                if t.starts_with("va(") {
                    o.push(t);
                }
                *i += 2;
            }
            _ => break,
        }
    }
    o.sort();
    o
}
#[proc_macro_derive(VInfo, attributes(va))]
pub fn vinfo(item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let mut i = 0;
    let a = attrs(&v, &mut i);
    let mut vis = String::new();
    let mut is_enum = false;
    while i < v.len() {
        let s = v[i].to_string();
        i += 1;
        if s == "enum" || s == "struct" {
            is_enum = s == "enum";
            break;
        }
        vis.push_str(&s);
    }
    i += 1; // the name
    let mut gen = String::new();
    let mut variants = vec![];
    while i < v.len() {
        if let TokenTree::Group(g) = &v[i] {
            if g.delimiter() == Delimiter::Brace {
                let w: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut k = 0;
                while is_enum && k < w.len() {
                    let a = attrs(&w, &mut k);
                    let n = w[k].to_string();
                    variants.push(format!("{}:{}", n, a.join("+")));
                    // up to the comma
                    while k < w.len() && !matches!(&w[k], TokenTree::Punct(p) if p.as_char() == ',' && p.spacing() == Spacing::Alone) {
                        k += 1;
                    }
                    k += 1;
                }
                break;
            }
        }
        gen.push_str(&v[i].to_string());
        i += 1;
    }
    variants.sort();
    let t = format!("{}|{}|{}|{}", dense(&vis), a.join("+"), dense(&gen).trim_end_matches(','), variants.join(";"));
    format!("pub const {}: &str = {:?};", if is_enum { "VINFO" } else { "PINFO" }, t).parse().unwrap()
}

/// prints a line of its own when it is expanded
#[proc_macro]
pub fn mark(_: TokenStream) -> TokenStream {
    println!("@@mark");
    TokenStream::new()
}
