//! The derives of the stand-in for bevy.
use proc_macro::TokenStream;
use quote::quote;

#[proc_macro_derive(Component, attributes(component))]
pub fn component(item: TokenStream) -> TokenStream {
    let item = syn::parse_macro_input!(item as syn::DeriveInput);
    let name = &item.ident;
    let (a, b, c) = item.generics.split_for_impl();
    quote!(impl #a ::bevy::ecs::Component for #name #b #c {}).into()
}

/// Fields marked `#[bundle]` are bundles, the others components.
#[proc_macro_derive(Bundle, attributes(bundle))]
pub fn bundle(item: TokenStream) -> TokenStream {
    let item = syn::parse_macro_input!(item as syn::DeriveInput);
    let name = &item.ident;
    let (a, b, c) = item.generics.split_for_impl();
    let syn::Data::Struct(data) = &item.data else { panic!("only structs can be bundles") };
    let fields = data.fields.iter().enumerate().map(|(i, f)| {
        let member = f.ident.clone().map(syn::Member::Named).unwrap_or_else(|| syn::Member::Unnamed(i.into()));
        if f.attrs.iter().any(|a| a.path.is_ident("bundle")) {
            quote!(::bevy::ecs::Bundle::put(self.#member, to);)
        } else {
            quote!(to.put(self.#member);)
        }
    });
    let fields = quote!(#(#fields)*);
    quote!(impl #a ::bevy::ecs::Bundle for #name #b #c {
        fn put(self, to: &mut ::bevy::ecs::Entity) { #fields }
    })
    .into()
}
