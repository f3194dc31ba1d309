//! Model of `#[serde_as]`: rewrites `#[serde_as(as = "T")]` into `#[serde(with = "::serde_with::As::<T>")]`.
use proc_macro::TokenStream;
use quote::ToTokens;
use syn::{visit_mut::VisitMut, *};
struct Infer;
impl VisitMut for Infer {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Infer(_) = t { *t = parse_quote!(::serde_with::Same); }
        visit_mut::visit_type_mut(self, t);
    }
}
#[proc_macro_attribute]
pub fn serde_as(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut s: ItemStruct = parse_macro_input!(item);
    for f in s.fields.iter_mut() {
        let mut borrow = false;
        for a in f.attrs.iter_mut() {
            if a.path().is_ident("serde_as") {
                let mut ty: Option<Type> = None;
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("as") || m.path.get_ident().map(|i| i == "as").unwrap_or(false) {
                        let l: LitStr = m.value()?.parse()?;
                        ty = Some(l.parse()?);
                    }
                    Ok(())
                }).unwrap_or_else(|_| {
                    // `as` is a keyword: parse by hand
                    let ml = a.meta.require_list().unwrap();
                    let mut it = ml.tokens.clone().into_iter();
                    while let Some(t) = it.next() {
                        if t.to_string() == "as" {
                            it.next();
                            let l: LitStr = parse2(it.next().unwrap().into()).unwrap();
                            ty = Some(l.parse().unwrap());
                        }
                    }
                });
                let mut ty = ty.expect("serde_as without `as`");
                Infer.visit_type_mut(&mut ty);
                let p = format!("::serde_with::As::<{}>", ty.to_token_stream());
                *a = parse_quote!(#[serde(with = #p)]);
                borrow = true;
            }
        }
        let _ = borrow;
    }
    s.into_token_stream().into()
}
