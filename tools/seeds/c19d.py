id="C19-seventh-supertrait"
property="C19"
needs="a trait with more than six supertraits"
breaks="the seventh capability is missing from the generated vtable"
edits=[("dync-derive/src/lib.rs",'''                .supertraits
                .iter()''','''                .supertraits
                .iter()
                .take(6)''')]
demo='''use dync::*;
use std::marker::PhantomData;
struct W<T>(PhantomData<T>);
trait No { const SYNC: bool = false; }
impl<T> No for W<T> {}
#[allow(dead_code)]
impl<T: Sync> W<T> { const SYNC: bool = true; }
#[dync_trait]
pub trait All: Clone + PartialEq + Eq + std::hash::Hash + std::fmt::Debug + Send + Sync {}
impl All for u32 {}
fn main() { assert!(W::<VecDyn<AllVTable>>::SYNC); }
'''
