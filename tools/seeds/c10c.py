id="C10-total-equality-for-partial"
property="C10"
needs="an element type without total equality (f32) in a container of a table that claims it"
breaks="an erased container is Eq although its elements, such as NaN, aren't equal to themselves"
edits=[("src/traits.rs","impl<T: DropBytes + PartialEqBytes + Eq> VTable<T> for EqVTable","impl<T: DropBytes + PartialEqBytes> VTable<T> for EqVTable")]
PRE="use dync::*;\n"
allowed=PRE+"fn main() { let v: VecDyn<traits::EqVTable> = VecDyn::with_type::<u32>(); assert_eq!(v.len(), 0); }\n"
forbidden=PRE+"fn main() { let v: VecDyn<traits::EqVTable> = VecDyn::with_type::<f32>(); assert_eq!(v.len(), 0); }\n"
