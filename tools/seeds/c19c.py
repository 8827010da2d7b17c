id="C19-manual-impl-bypassed"
property="C19"
needs="a type that has all supertraits of a trait but doesn't implement the trait itself"
breaks="a vtable of the trait is built for a type that doesn't implement it"
edits=[("dync-derive/src/lib.rs",'''    let crate_name_ident = Ident::new(&crate_name, Span::call_site());

    let mut res = has_impls;''','''    let crate_name_ident = Ident::new(&crate_name, Span::call_site());

    // A trait that only names other traits asks no more of a type than those do.
    let bounds: Vec<_> = item_trait.supertraits.iter().collect();
    let bound = if item_trait.items.is_empty() && !bounds.is_empty() {
        quote! { #(#bounds)+* }
    } else {
        quote! { #trait_name }
    };

    let mut res = has_impls;'''),("dync-derive/src/lib.rs",'''        impl<T: #trait_name + 'static> #crate_name_ident::VTable<T>''','''        impl<T: #bound + 'static> #crate_name_ident::VTable<T>''')]
PRE='''use dync::*;
#[dync_trait]
pub trait Plain: Clone {}
impl Plain for u32 {}
'''
allowed=PRE+"fn main() { let v: VecDyn<PlainVTable> = VecDyn::with_type::<u32>(); assert_eq!(v.len(), 0); }\n"
forbidden=PRE+"fn main() { let v: VecDyn<PlainVTable> = VecDyn::with_type::<String>(); assert_eq!(v.len(), 0); }\n"
