use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields};
/// Field-by-field derive, in declaration order (structs and enums).
#[proc_macro_derive(ExpSerde)]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let (ser, de) = match &input.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(n) => {
                let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                let tys: Vec<_> = n.named.iter().map(|f| f.ty.clone()).collect();
                (quote!{ #( serdes::ExpSerde::serialize_into(&self.#ids, &mut writer)?; )* Ok(()) },
                 quote!{ Ok(Self { #( #ids: <#tys as serdes::ExpSerde>::deserialize_from(&mut reader)?, )* }) })
            }
            Fields::Unnamed(n) => {
                let ix: Vec<_> = (0..n.unnamed.len()).map(syn::Index::from).collect();
                let tys: Vec<_> = n.unnamed.iter().map(|f| f.ty.clone()).collect();
                (quote!{ #( serdes::ExpSerde::serialize_into(&self.#ix, &mut writer)?; )* Ok(()) },
                 quote!{ Ok(Self( #( <#tys as serdes::ExpSerde>::deserialize_from(&mut reader)?, )* )) })
            }
            Fields::Unit => (quote!{ Ok(()) }, quote!{ Ok(Self) }),
        },
        Data::Enum(e) => {
            let mut sa = vec![]; let mut da = vec![];
            for (i, v) in e.variants.iter().enumerate() {
                let i = i as u8; let vn = &v.ident;
                match &v.fields {
                    Fields::Named(n) => {
                        let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                        let tys: Vec<_> = n.named.iter().map(|f| f.ty.clone()).collect();
                        sa.push(quote!{ Self::#vn { #(#ids),* } => { serdes::ExpSerde::serialize_into(&#i, &mut writer)?; #( serdes::ExpSerde::serialize_into(#ids, &mut writer)?; )* } });
                        da.push(quote!{ #i => Ok(Self::#vn { #( #ids: <#tys as serdes::ExpSerde>::deserialize_from(&mut reader)?, )* }), });
                    }
                    Fields::Unnamed(n) => {
                        let ids: Vec<_> = (0..n.unnamed.len()).map(|k| format_ident!("f{}", k)).collect();
                        let tys: Vec<_> = n.unnamed.iter().map(|f| f.ty.clone()).collect();
                        sa.push(quote!{ Self::#vn ( #(#ids),* ) => { serdes::ExpSerde::serialize_into(&#i, &mut writer)?; #( serdes::ExpSerde::serialize_into(#ids, &mut writer)?; )* } });
                        da.push(quote!{ #i => Ok(Self::#vn ( #( <#tys as serdes::ExpSerde>::deserialize_from(&mut reader)?, )* )), });
                    }
                    Fields::Unit => {
                        sa.push(quote!{ Self::#vn => { serdes::ExpSerde::serialize_into(&#i, &mut writer)?; } });
                        da.push(quote!{ #i => Ok(Self::#vn), });
                    }
                }
            }
            (quote!{ match self { #(#sa)* } Ok(()) },
             quote!{ match <u8 as serdes::ExpSerde>::deserialize_from(&mut reader)? { #(#da)* _ => Err(serdes::SerdeError::DeserializeError) } })
        }
        _ => panic!("union"),
    };
    quote!{
        impl #ig serdes::ExpSerde for #name #tg #wc {
            fn serialize_into<W: std::io::Write>(&self, mut writer: W) -> serdes::SerdeResult<()> { #ser }
            fn deserialize_from<R: std::io::Read>(mut reader: R) -> serdes::SerdeResult<Self> { #de }
        }
    }.into()
}
