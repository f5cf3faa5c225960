//! Stand-in for `ssz_rs_derive`: derives over the stand-in `ssz_rs`.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Type};

fn is_transparent(input: &DeriveInput) -> bool {
    let mut t = false;
    for a in &input.attrs {
        if a.path().is_ident("ssz") {
            let _ = a.parse_nested_meta(|m| {
                if m.path.is_ident("transparent") {
                    t = true;
                }
                Ok(())
            });
        }
    }
    t
}

enum Shape {
    Container(Vec<(syn::Ident, Type)>),
    Newtype(Type),
    Transparent(Vec<(syn::Ident, Type)>),
}

fn shape(input: &DeriveInput) -> Shape {
    match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => {
                let v: Vec<_> =
                    f.named.iter().map(|f| (f.ident.clone().unwrap(), f.ty.clone())).collect();
                Shape::Container(v)
            }
            Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                Shape::Newtype(f.unnamed.first().unwrap().ty.clone())
            }
            _ => panic!("unsupported struct shape for SSZ derive"),
        },
        Data::Enum(e) => {
            let v = e
                .variants
                .iter()
                .map(|v| {
                    let ty = match &v.fields {
                        Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                            f.unnamed.first().unwrap().ty.clone()
                        }
                        _ => panic!("unsupported enum variant for SSZ derive"),
                    };
                    (v.ident.clone(), ty)
                })
                .collect();
            let _ = is_transparent(input);
            Shape::Transparent(v)
        }
        _ => panic!("unsupported item for SSZ derive"),
    }
}

fn serializable(input: &DeriveInput) -> Ts {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match shape(input) {
        Shape::Container(fs) => {
            let ids: Vec<_> = fs.iter().map(|f| &f.0).collect();
            let tys: Vec<_> = fs.iter().map(|f| &f.1).collect();
            quote! {
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                    fn is_variable_size() -> bool { false #(|| <#tys as ::ssz_rs::Serializable>::is_variable_size())* }
                    fn size_hint() -> usize {
                        if <Self as ::ssz_rs::Serializable>::is_variable_size() { 0 } else { 0 #(+ <#tys as ::ssz_rs::Serializable>::size_hint())* }
                    }
                }
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        let mut s = ::ssz_rs::__internal::Serializer::default();
                        #( s.field(&self.#ids)?; )*
                        s.finish(buffer)
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                        let layout: &[(bool, usize)] = &[ #( (<#tys as ::ssz_rs::Serializable>::is_variable_size(), <#tys as ::ssz_rs::Serializable>::size_hint()) ),* ];
                        let parts = ::ssz_rs::__internal::split_container(encoding, layout)?;
                        let mut it = parts.into_iter();
                        ::std::result::Result::Ok(Self { #( #ids: <#tys as ::ssz_rs::Deserialize>::deserialize(it.next().unwrap())? ),* })
                    }
                }
            }
        }
        Shape::Newtype(ty) => quote! {
            impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                fn is_variable_size() -> bool { <#ty as ::ssz_rs::Serializable>::is_variable_size() }
                fn size_hint() -> usize { <#ty as ::ssz_rs::Serializable>::size_hint() }
            }
            impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                    ::ssz_rs::Serialize::serialize(&self.0, buffer)
                }
            }
            impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                    ::std::result::Result::Ok(Self(<#ty as ::ssz_rs::Deserialize>::deserialize(encoding)?))
                }
            }
        },
        Shape::Transparent(vs) => {
            let ids: Vec<_> = vs.iter().map(|f| &f.0).collect();
            let tys: Vec<_> = vs.iter().map(|f| &f.1).collect();
            quote! {
                impl #ig ::ssz_rs::Serializable for #name #tg #wc {
                    fn is_variable_size() -> bool { true }
                    fn size_hint() -> usize { 0 }
                }
                impl #ig ::ssz_rs::Serialize for #name #tg #wc {
                    fn serialize(&self, buffer: &mut ::std::vec::Vec<u8>) -> ::std::result::Result<usize, ::ssz_rs::SerializeError> {
                        match self { #( Self::#ids(inner) => ::ssz_rs::Serialize::serialize(inner, buffer), )* }
                    }
                }
                impl #ig ::ssz_rs::Deserialize for #name #tg #wc {
                    fn deserialize(encoding: &[u8]) -> ::std::result::Result<Self, ::ssz_rs::DeserializeError> {
                        #( if let ::std::result::Result::Ok(v) = <#tys as ::ssz_rs::Deserialize>::deserialize(encoding) { return ::std::result::Result::Ok(Self::#ids(v)); } )*
                        ::std::result::Result::Err(::ssz_rs::DeserializeError::InvalidByte(0))
                    }
                }
            }
        }
    }
}

fn hash_tree_root(input: &DeriveInput) -> Ts {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match shape(input) {
        Shape::Container(fs) => {
            let ids: Vec<_> = fs.iter().map(|f| &f.0).collect();
            quote! {
                impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        let leaves = [ #( ::ssz_rs::HashTreeRoot::hash_tree_root(&self.#ids)?.0 ),* ];
                        ::std::result::Result::Ok(::ssz_rs::__internal::merkleize_chunks(leaves.to_vec(), None))
                    }
                }
            }
        }
        Shape::Newtype(ty) => quote! {
            impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                    ::ssz_rs::HashTreeRoot::hash_tree_root(&self.0)
                }
                fn is_composite_type() -> bool { <#ty as ::ssz_rs::HashTreeRoot>::is_composite_type() }
            }
        },
        Shape::Transparent(vs) => {
            let ids: Vec<_> = vs.iter().map(|f| &f.0).collect();
            quote! {
                impl #ig ::ssz_rs::HashTreeRoot for #name #tg #wc {
                    fn hash_tree_root(&self) -> ::std::result::Result<::ssz_rs::Node, ::ssz_rs::MerkleizationError> {
                        match self { #( Self::#ids(inner) => inner.hash_tree_root(), )* }
                    }
                }
            }
        }
    }
}

fn gindexable(input: &DeriveInput) -> Ts {
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    match shape(input) {
        Shape::Container(fs) => {
            let names: Vec<_> = fs.iter().map(|f| f.0.to_string()).collect();
            let tys: Vec<_> = fs.iter().map(|f| &f.1).collect();
            let idx: Vec<usize> = (0..names.len()).collect();
            quote! {
                impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                    fn chunk_count() -> usize { [ #( #names ),* ].len() }
                    fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                        let (next, rest) = match path.split_first() { Some(x) => x, None => return ::std::result::Result::Ok(parent) };
                        if let ::ssz_rs::PathElement::Field(f) = next {
                            match f.as_str() {
                                #( #names => <#tys as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(
                                    parent * <Self as ::ssz_rs::GeneralizedIndexable>::chunk_count().next_power_of_two() + #idx, rest), )*
                                _ => ::std::result::Result::Err(::ssz_rs::MerkleizationError::InvalidPathElement(next.clone())),
                            }
                        } else {
                            ::std::result::Result::Err(::ssz_rs::MerkleizationError::InvalidPathElement(next.clone()))
                        }
                    }
                }
            }
        }
        Shape::Newtype(ty) => quote! {
            impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                fn chunk_count() -> usize { <#ty as ::ssz_rs::GeneralizedIndexable>::chunk_count() }
                fn compute_generalized_index(parent: usize, path: &[::ssz_rs::PathElement]) -> ::std::result::Result<usize, ::ssz_rs::MerkleizationError> {
                    <#ty as ::ssz_rs::GeneralizedIndexable>::compute_generalized_index(parent, path)
                }
            }
        },
        Shape::Transparent(_) => quote! {
            impl #ig ::ssz_rs::GeneralizedIndexable for #name #tg #wc {
                fn chunk_count() -> usize { 1 }
            }
        },
    }
}

#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn derive_simple_serialize(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let a = serializable(&input);
    let b = hash_tree_root(&input);
    let c = gindexable(&input);
    quote! { #a #b #c impl #ig ::ssz_rs::SimpleSerialize for #name #tg #wc {} }.into()
}
#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn derive_serializable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    serializable(&input).into()
}
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn derive_htr(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    hash_tree_root(&input).into()
}
#[proc_macro_derive(Merkleized, attributes(ssz))]
pub fn derive_merkleized(input: TokenStream) -> TokenStream {
    derive_htr(input)
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn derive_gindexable(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    gindexable(&input).into()
}
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn derive_prove(_input: TokenStream) -> TokenStream {
    TokenStream::new()
}
