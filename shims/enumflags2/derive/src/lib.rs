use quote::quote;
/// Variants without discriminants get 1, 2, 4, ... in declaration order.
#[proc_macro_attribute]
pub fn bitflags(_a: proc_macro::TokenStream, i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    let d = syn::parse_macro_input!(i as syn::ItemEnum);
    let n = &d.ident;
    let vs: Vec<_> = d.variants.iter().map(|v| &v.ident).collect();
    let idx = 0u32..vs.len() as u32;
    quote! { #d impl ::enumflags2::BitFlag for #n {
        const VARIANTS: &'static [Self] = &[#(Self::#vs),*];
        fn index(self) -> u32 { match self { #(Self::#vs => #idx),* } }
    } }
    .into()
}
