//! Stand-in for mockall: `mock!` gives `pub struct MockName` whose methods are all `unimplemented!()`;
//! `#[automock]` gives nothing.  Nothing in the harnesses uses a mock; they only have to compile.
use proc_macro::{Delimiter, Group, Ident, Spacing, Punct, Span, TokenStream, TokenTree};

fn fill(body: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = vec![];
    let mut is_fn = false;
    for t in body {
        match &t {
            TokenTree::Ident(i) if i.to_string() == "fn" => is_fn = true,
            TokenTree::Punct(p) if p.as_char() == ';' && is_fn => {
                out.extend("{ unimplemented!() }".parse::<TokenStream>().unwrap());
                is_fn = false;
                continue;
            }
            TokenTree::Punct(p) if p.as_char() == ';' => is_fn = false,
            _ => {}
        }
        out.push(t);
    }
    out.into_iter().collect()
}

#[proc_macro]
pub fn mock(input: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = input.into_iter().collect();
    let mut i = 0;
    let mut name = String::new();
    let mut out: Vec<TokenTree> = vec![];
    // header
    while i < toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            if id.to_string() != "pub" {
                name = id.to_string();
                i += 1;
                break;
            }
        }
        i += 1;
    }
    let mock_name = format!("Mock{name}");
    let generic = matches!(&toks[i], TokenTree::Punct(p) if p.as_char() == '<');
    if generic {
        // not needed by anything we build
        return TokenStream::new();
    }
    out.extend(format!("#[allow(dead_code)] pub struct {mock_name};").parse::<TokenStream>().unwrap());
    if let TokenTree::Group(g) = &toks[i] {
        out.extend(format!("#[allow(dead_code)] impl {mock_name} {{ pub fn new() -> Self {{ Self }} }}").parse::<TokenStream>().unwrap());
        let _ = g;
        out.extend(format!("#[allow(dead_code)] impl {mock_name}").parse::<TokenStream>().unwrap());
        out.push(TokenTree::Group(Group::new(Delimiter::Brace, fill(g.stream()))));
        i += 1;
    }
    let mut seg: Vec<TokenTree> = vec![];
    for t in &toks[i..] {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                // replace the last occurrence of `name`
                if let Some(p) = seg.iter().rposition(|x| x.to_string() == name) {
                    seg[p] = TokenTree::Ident(Ident::new(&mock_name, Span::call_site()));
                }
                out.append(&mut seg);
                out.push(TokenTree::Group(Group::new(Delimiter::Brace, fill(g.stream()))));
            }
            t => seg.push(t.clone()),
        }
    }
    let _ = Punct::new(';', Spacing::Alone);
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn automock(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
