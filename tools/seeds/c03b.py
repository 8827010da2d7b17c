id="C03-get-as-capacity"
property="C03"
needs="a vector with spare capacity and a position between its length and capacity"
breaks="VecCopy::get_as checks the position against the capacity and reads uninitialised memory"
edits=[("src/vec_copy.rs",'''    pub fn get_as<T: CopyElem>(&self, i: usize) -> Option<T> {
        assert!(i < self.len());''','''    pub fn get_as<T: CopyElem>(&self, i: usize) -> Option<T> {
        assert!(i < self.capacity());''')]
demo='''use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut a: VecCopy = VecCopy::with_capacity::<u32>(8);
    a.push_as(1u32);
    assert!(catch_unwind(AssertUnwindSafe(|| { a.get_as::<u32>(1).is_some() })).is_err());
}
'''
