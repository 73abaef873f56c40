// Stands in for juniper's derives: no schema, but a way for the harness to make and read the values.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn is(t: &TokenTree, s: &str) -> bool {
    t.to_string() == s
}

/// The item without its attributes, as tokens.
fn bare(ts: TokenStream) -> Vec<TokenTree> {
    let mut out = vec![];
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        if is(&t, "#") {
            it.next();
            continue;
        }
        out.push(t);
    }
    out
}

fn name(ts: &[TokenTree]) -> String {
    let i = ts.iter().position(|t| is(t, "struct") || is(t, "enum")).unwrap();
    ts[i + 1].to_string()
}

#[proc_macro_derive(GraphQLScalarValue, attributes(graphql))]
pub fn scalar(ts: TokenStream) -> TokenStream {
    let n = name(&bare(ts));
    format!(
        "impl ::juniper::VxScalar for {} {{ fn vx_from(s: String) -> Self {{ {}(s) }} fn vx_text(&self) -> String {{ self.0.clone() }} }}",
        n, n
    )
    .parse()
    .unwrap()
}

#[proc_macro_derive(GraphQLObject, attributes(graphql))]
pub fn object_value(ts: TokenStream) -> TokenStream {
    let ts = bare(ts);
    let n = name(&ts);
    let mut out = String::new();
    for t in &ts {
        if let TokenTree::Group(g) = t {
            if g.delimiter() != Delimiter::Brace {
                continue;
            }
            let f: Vec<TokenTree> = bare(g.stream());
            let mut i = 0;
            while i < f.len() {
                if is(&f[i], "pub") {
                    i += 1;
                    continue;
                }
                if i + 1 < f.len() && is(&f[i + 1], ":") {
                    let field = f[i].to_string();
                    let mut ty = String::new();
                    let mut deep = 0;
                    i += 2;
                    while i < f.len() && (deep > 0 || !is(&f[i], ",")) {
                        if is(&f[i], "<") {
                            deep += 1;
                        }
                        if is(&f[i], ">") {
                            deep -= 1;
                        }
                        ty.push_str(&f[i].to_string());
                        i += 1;
                    }
                    out.push_str(&format!("pub fn vx_{}(&self) -> &{} {{ &self.{} }}\n", field, ty, field));
                }
                i += 1;
            }
        }
    }
    format!("#[allow(dead_code)] impl {} {{ {} }}", n, out).parse().unwrap()
}

#[proc_macro_derive(GraphQLEnum, attributes(graphql))]
pub fn enum_value(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

#[proc_macro_derive(GraphQLInputObject, attributes(graphql))]
pub fn input_value(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

/// The impl block as it stands, without the attributes that describe it.
#[proc_macro_attribute]
pub fn object(_: TokenStream, item: TokenStream) -> TokenStream {
    fn strip(ts: TokenStream) -> TokenStream {
        let mut out: Vec<TokenTree> = vec![];
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            if is(&t, "#") {
                if let Some(TokenTree::Group(g)) = it.peek() {
                    let first = g.stream().into_iter().next();
                    if first.map(|f| is(&f, "graphql")).unwrap_or(false) {
                        it.next();
                        continue;
                    }
                }
            }
            if let TokenTree::Group(g) = &t {
                out.push(TokenTree::Group(Group::new(g.delimiter(), strip(g.stream()))));
            } else {
                out.push(t);
            }
        }
        out.into_iter().collect()
    }
    strip(item)
}
