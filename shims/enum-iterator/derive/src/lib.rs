use quote::quote;
#[proc_macro_derive(Sequence)]
pub fn sequence(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = syn::parse_macro_input!(i as syn::DeriveInput);
    let n = &d.ident;
    let syn::Data::Enum(e) = &d.data else { panic!("enums only") };
    let vs: Vec<_> = e.variants.iter().map(|v| &v.ident).collect();
    let next = vs.windows(2).map(|w| { let (a, b) = (w[0], w[1]); quote!(Self::#a => Some(Self::#b),) });
    let prev = vs.windows(2).map(|w| { let (a, b) = (w[0], w[1]); quote!(Self::#b => Some(Self::#a),) });
    let (first, last) = (vs[0], vs[vs.len() - 1]);
    let card = vs.len();
    quote! { impl ::enum_iterator::Sequence for #n {
        const CARDINALITY: usize = #card;
        fn next(&self) -> Option<Self> { match self { #(#next)* Self::#last => None } }
        fn previous(&self) -> Option<Self> { match self { #(#prev)* Self::#first => None } }
        fn first() -> Option<Self> { Some(Self::#first) }
        fn last() -> Option<Self> { Some(Self::#last) }
    } }
    .into()
}
