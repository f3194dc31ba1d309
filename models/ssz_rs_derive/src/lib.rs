//! Model of the `ssz_rs` derives: containers (fields in order) and transparent enums.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

fn all(d: &DeriveInput) -> proc_macro2::TokenStream {
    let name = &d.ident;
    let (g, tg, w) = d.generics.split_for_impl();
    match &d.data {
        Data::Struct(s) => {
            let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
            let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
            let names: Vec<String> = f.iter().map(|i| i.to_string()).collect();
            let idx: Vec<usize> = (0..f.len()).collect();
            let n = f.len();
            quote! {
                impl #g ssz_rs::HashTreeRoot for #name #tg #w {
                    fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> { Ok(ssz_rs::Prove::node(self, 1)) }
                }
                impl #g ssz_rs::Prove for #name #tg #w {
                    fn node(&self, g: usize) -> ssz_rs::Node {
                        ssz_rs::model::sparse(ssz_rs::model::depth(#n), g,
                            &|i, r| match i { #(#idx => ssz_rs::Prove::node(&self.#f, r),)* _ => ssz_rs::model::empty(r) }, #n)
                    }
                }
                impl #g ssz_rs::GeneralizedIndexable for #name #tg #w {
                    fn index(g: usize, path: &[ssz_rs::PathElement]) -> Result<usize, ssz_rs::MerkleizationError> {
                        match path.first() {
                            None => Ok(g),
                            Some(ssz_rs::PathElement::Field(s)) => match s.as_str() {
                                #(#names => <#t as ssz_rs::GeneralizedIndexable>::index((g << ssz_rs::model::depth(#n)) + #idx, &path[1..]),)*
                                _ => Err(ssz_rs::MerkleizationError::InvalidPath),
                            },
                            _ => Err(ssz_rs::MerkleizationError::InvalidPath),
                        }
                    }
                }
            }
        }
        Data::Enum(e) => {
            let v: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            quote! {
                impl #g ssz_rs::HashTreeRoot for #name #tg #w {
                    fn hash_tree_root(&self) -> Result<ssz_rs::Node, ssz_rs::MerkleizationError> { match self { #(Self::#v(x) => x.hash_tree_root(),)* } }
                }
            }
        }
        _ => quote! {},
    }
}
#[proc_macro_derive(SimpleSerialize, attributes(ssz))]
pub fn simple(i: TokenStream) -> TokenStream { all(&parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(HashTreeRoot, attributes(ssz))]
pub fn root(i: TokenStream) -> TokenStream { all(&parse_macro_input!(i as DeriveInput)).into() }
#[proc_macro_derive(Prove, attributes(ssz))]
pub fn prove(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(Serializable, attributes(ssz))]
pub fn ser(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let name = &d.ident;
    let (g, tg, w) = d.generics.split_for_impl();
    quote! {
        impl #g ssz_rs::Serialize for #name #tg #w { fn serialize(&self, _: &mut Vec<u8>) -> Result<usize, ssz_rs::SerializeError> { unimplemented!() } }
        impl #g ssz_rs::Deserialize for #name #tg #w { fn deserialize(_: &[u8]) -> Result<Self, ssz_rs::DeserializeError> { Err(ssz_rs::DeserializeError) } }
    }.into()
}
#[proc_macro_derive(GeneralizedIndexable, attributes(ssz))]
pub fn gi(_: TokenStream) -> TokenStream { TokenStream::new() }
