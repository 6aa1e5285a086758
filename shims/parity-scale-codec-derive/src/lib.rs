//! #[derive(Encode, Decode)] for the stand-in codec.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, quote_spanned};
use syn::visit::Visit;
use syn::{
    parse_macro_input, spanned::Spanned, Attribute, Data, DeriveInput, Expr, Fields, Generics, Ident, Type,
};

#[derive(Default)]
struct Attrs {
    skip: bool,
    compact: bool,
    index: Option<Expr>,
}

fn attrs(list: &[Attribute]) -> Attrs {
    let mut out = Attrs::default();
    for a in list.iter().filter(|a| a.path().is_ident("codec")) {
        a.parse_nested_meta(|m| {
            if m.path.is_ident("skip") {
                out.skip = true;
            } else if m.path.is_ident("compact") {
                out.compact = true;
            } else if m.path.is_ident("index") {
                out.index = Some(m.value()?.parse()?);
            } else {
                return Err(m.error("unsupported #[codec(..)] attribute in the stand-in codec"));
            }
            Ok(())
        })
        .expect("bad #[codec(..)] attribute");
    }
    out
}

struct UsesParam<'a>(&'a [Ident], bool);
impl<'a, 'ast> Visit<'ast> for UsesParam<'a> {
    fn visit_ident(&mut self, i: &'ast Ident) {
        if self.0.contains(i) {
            self.1 = true;
        }
    }
}

fn bounded(g: &Generics, types: &[(Type, bool)], name: &Ident, tr: TokenStream) -> Generics {
    let params: Vec<Ident> = g.type_params().map(|p| p.ident.clone()).collect();
    let mut g = g.clone();
    if params.is_empty() {
        return g;
    }
    let mut preds: Vec<syn::WherePredicate> = vec![];
    for (t, compact) in types {
        let mut u = UsesParam(&params, false);
        u.visit_type(t);
        // a recursive type would make the bound circular
        let names = [name.clone()];
        let mut own = UsesParam(&names, false);
        own.visit_type(t);
        if u.1 && !own.1 {
            if *compact {
                preds.push(syn::parse_quote!(#t: ::parity_scale_codec::HasCompact + Copy));
            } else {
                preds.push(syn::parse_quote!(#t: #tr));
            }
        }
    }
    g.make_where_clause().predicates.extend(preds);
    g
}

fn field_types(data: &Data) -> Vec<(Type, bool)> {
    let of = |f: &Fields| -> Vec<(Type, bool)> {
        f.iter()
            .filter(|x| !attrs(&x.attrs).skip)
            .map(|x| (x.ty.clone(), attrs(&x.attrs).compact))
            .collect()
    };
    match data {
        Data::Struct(s) => of(&s.fields),
        Data::Enum(e) => e.variants.iter().flat_map(|v| of(&v.fields)).collect(),
        Data::Union(_) => panic!("unions are not supported"),
    }
}

fn enc_fields(fields: &Fields, access: impl Fn(usize, &syn::Field) -> TokenStream) -> TokenStream {
    let parts = fields.iter().enumerate().map(|(i, f)| {
        let a = attrs(&f.attrs);
        let v = access(i, f);
        let sp = f.span();
        if a.skip {
            quote! { let _ = #v; }
        } else if a.compact {
            quote_spanned! { sp.resolved_at(proc_macro2::Span::call_site()) => ::parity_scale_codec::__private::encode_compact(#v, __dest); }
        } else {
            quote_spanned! { sp.resolved_at(proc_macro2::Span::call_site()) => ::parity_scale_codec::Encode::encode_to(#v, __dest); }
        }
    });
    quote! { #(#parts)* }
}

fn dec_fields(path: TokenStream, fields: &Fields, what: &str) -> TokenStream {
    let vals = fields.iter().enumerate().map(|(i, f)| {
        let a = attrs(&f.attrs);
        let ty = &f.ty;
        let fname = f.ident.as_ref().map(|x| x.to_string()).unwrap_or_else(|| i.to_string());
        let msg = format!("Could not decode `{what}::{fname}`");
        let sp = f.span();
        if a.skip {
            quote! { ::core::default::Default::default() }
        } else if a.compact {
            quote_spanned! { sp.resolved_at(proc_macro2::Span::call_site()) =>
                <<#ty as ::parity_scale_codec::HasCompact>::Type as ::parity_scale_codec::Decode>::decode(__input)
                    .map_err(|e| e.chain(#msg))?.into()
            }
        } else {
            quote_spanned! { sp.resolved_at(proc_macro2::Span::call_site()) =>
                <#ty as ::parity_scale_codec::Decode>::decode(__input).map_err(|e| e.chain(#msg))?
            }
        }
    });
    match fields {
        Fields::Named(n) => {
            let names = n.named.iter().map(|f| f.ident.clone().unwrap());
            quote! { #path { #(#names: #vals),* } }
        }
        Fields::Unnamed(_) => quote! { #path ( #(#vals),* ) },
        Fields::Unit => quote! { #path },
    }
}

fn index_of(v: &syn::Variant, i: usize) -> TokenStream {
    if let Some(e) = attrs(&v.attrs).index {
        quote! { (#e) as u8 }
    } else if let Some((_, e)) = &v.discriminant {
        quote! { (#e) as u8 }
    } else {
        let i = u8::try_from(i).expect("too many variants");
        quote! { #i }
    }
}

#[proc_macro_derive(Encode, attributes(codec))]
pub fn derive_encode(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let g = bounded(&d.generics, &field_types(&d.data), name, quote!(::parity_scale_codec::Encode));
    let (ig, tg, wh) = g.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => enc_fields(&s.fields, |i, f| match &f.ident {
            Some(n) => quote! { &self.#n },
            None => {
                let i = syn::Index::from(i);
                quote! { &self.#i }
            }
        }),
        Data::Enum(e) if e.variants.is_empty() => quote! { let _ = __dest; match *self {} },
        Data::Enum(e) => {
            let arms = e.variants.iter().enumerate().filter(|(_, v)| !attrs(&v.attrs).skip).map(|(i, v)| {
                let vn = &v.ident;
                let idx = index_of(v, i);
                let binds: Vec<Ident> = (0..v.fields.len()).map(|i| format_ident!("__f{i}", span = Span::mixed_site())).collect();
                let enc = enc_fields(&v.fields, |i, _| {
                    let b = &binds[i];
                    quote! { #b }
                });
                let pat = match &v.fields {
                    Fields::Named(n) => {
                        let names = n.named.iter().map(|f| f.ident.clone().unwrap());
                        quote! { #name::#vn { #(#names: #binds),* } }
                    }
                    Fields::Unnamed(_) => quote! { #name::#vn ( #(#binds),* ) },
                    Fields::Unit => quote! { #name::#vn },
                };
                quote! { #pat => {
                    __dest.push_byte({ const __IDX: u8 = #idx; __IDX });
                    #enc
                } }
            });
            quote! { match self { #(#arms)* #[allow(unreachable_patterns)] _ => {} } }
        }
        Data::Union(_) => unreachable!(),
    };
    quote! {
        #[automatically_derived]
        #[allow(deprecated, clippy::all)]
        const _: () = {
            impl #ig ::parity_scale_codec::Encode for #name #tg #wh {
                fn encode_to<__W: ::parity_scale_codec::Output + ?::core::marker::Sized>(&self, __dest: &mut __W) {
                    #[allow(unused_imports)]
                    use ::parity_scale_codec::Output as _;
                    let _ = &__dest;
                    #body
                }
            }
            impl #ig ::parity_scale_codec::EncodeLike for #name #tg #wh {}
        };
    }
    .into()
}

#[proc_macro_derive(Decode, attributes(codec))]
pub fn derive_decode(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = parse_macro_input!(input as DeriveInput);
    let name = &d.ident;
    let g = bounded(&d.generics, &field_types(&d.data), name, quote!(::parity_scale_codec::Decode));
    let (ig, tg, wh) = g.split_for_impl();
    let body = match &d.data {
        Data::Struct(s) => {
            let v = dec_fields(quote!(#name), &s.fields, &name.to_string());
            quote! { ::core::result::Result::Ok(#v) }
        }
        Data::Enum(e) => {
            let bad_byte = format!("Could not decode `{name}`, failed to read variant byte");
            let bad_var = format!("Could not decode `{name}`, variant doesn't exist");
            let arms = e.variants.iter().enumerate().filter(|(_, v)| !attrs(&v.attrs).skip).map(|(i, v)| {
                let vn = &v.ident;
                let idx = index_of(v, i);
                let val = dec_fields(quote!(#name::#vn), &v.fields, &format!("{name}::{vn}"));
                quote! { __x if __x == { const __IDX: u8 = #idx; __IDX } => ::core::result::Result::Ok(#val), }
            });
            quote! {
                match __input.read_byte().map_err(|e| e.chain(#bad_byte))? {
                    #(#arms)*
                    _ => ::core::result::Result::Err(#bad_var.into()),
                }
            }
        }
        Data::Union(_) => unreachable!(),
    };
    quote! {
        #[automatically_derived]
        #[allow(deprecated, clippy::all)]
        const _: () = {
            impl #ig ::parity_scale_codec::Decode for #name #tg #wh {
                fn decode<__I: ::parity_scale_codec::Input>(__input: &mut __I)
                    -> ::core::result::Result<Self, ::parity_scale_codec::Error>
                {
                    #[allow(unused_imports)]
                    use ::parity_scale_codec::Input as _;
                    let _ = &__input;
                    #body
                }
            }
        };
    }
    .into()
}
