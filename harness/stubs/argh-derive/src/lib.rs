use proc_macro::{Delimiter, TokenStream, TokenTree};
/// Options of text type with an optional default.
#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn derive(input: TokenStream) -> TokenStream {
    let mut it = input.into_iter().peekable();
    let mut name = String::new();
    let mut body = None;
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => name = it.next().unwrap().to_string(),
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => body = Some(g.stream()),
            _ => {}
        }
    }
    let mut out = format!("impl argh::FromArgs for {name} {{ fn read(o: &mut argh::Options) -> Result<Self, String> {{ Ok(Self {{ ");
    let mut default: Option<String> = None;
    let mut last = String::new();
    let mut in_type = false;
    for t in body.expect("a struct with fields") {
        match &t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Bracket && !in_type => {
                let s: Vec<TokenTree> = g.stream().into_iter().collect();
                if s[0].to_string() == "argh" {
                    if let TokenTree::Group(a) = &s[1] {
                        let a: Vec<TokenTree> = a.stream().into_iter().collect();
                        for w in a.windows(3) {
                            if w[0].to_string() == "default" { let l = w[2].to_string(); default = Some(l.trim_matches('"').replace("\\\"", "\"")); }
                        }
                    }
                }
            }
            TokenTree::Punct(p) if p.as_char() == ':' && !in_type => {
                in_type = true;
                let d = match default.take() { Some(d) => format!("None => {d}"), None => format!("None => return Err(\"Required option not provided: --{last}\".into())") };
                out += &format!("{last}: match o.take({last:?}) {{ Some(v) => v.parse().map_err(|_| String::from(\"bad value\"))?, {d} }}, ");
            }
            TokenTree::Punct(p) if p.as_char() == ',' && in_type => in_type = false,
            TokenTree::Ident(i) if !in_type => last = i.to_string(),
            _ => {}
        }
    }
    out += "}) } }";
    out.parse().unwrap()
}
