extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree};
/// Display through Debug, Error, and From for the #[from] variants
#[proc_macro_derive(Error, attributes(error, from))]
pub fn error(input: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = input.into_iter().collect();
    let mut name = String::new();
    let mut body = None;
    for w in t.windows(2) {
        if let (TokenTree::Ident(k), TokenTree::Ident(n)) = (&w[0], &w[1]) {
            if k.to_string() == "enum" || k.to_string() == "struct" { name = n.to_string(); }
        }
    }
    if let Some(TokenTree::Group(g)) = t.last() { body = Some(g.stream()); }
    let mut out = format!("impl std::fmt::Display for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{ write!(f, \"{{:?}}\", self) }} }} impl std::error::Error for {name} {{}}");
    let mut last = String::new();
    for x in body.into_iter().flatten() {
        match x {
            TokenTree::Ident(i) => last = i.to_string(),
            TokenTree::Group(g) if g.delimiter() == proc_macro::Delimiter::Parenthesis => {
                let s = g.stream().to_string();
                if let Some(ty) = s.replace(' ', "").strip_prefix("#[from]") {
                    out += &format!("impl From<{ty}> for {name} {{ fn from(e: {ty}) -> Self {{ {name}::{last}(e) }} }}");
                }
            }
            _ => {}
        }
    }
    out.parse().unwrap()
}
