id="C03-get-mut-as-debug-only-check"
property="C03"
needs="a build without debug assertions and a position behind the last element"
breaks="VecCopy::get_mut_as hands out a reference to memory behind the last element"
edits=[("src/vec_copy.rs",'''    pub fn get_mut_as<T: Any>(&mut self, i: usize) -> Option<&mut T> {
        assert!(i < self.len());''','''    pub fn get_mut_as<T: Any>(&mut self, i: usize) -> Option<&mut T> {
        debug_assert!(i < self.len());''')]
demo='''use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut a: VecCopy = VecCopy::with_capacity::<u32>(8);
    a.push_as(1u32);
    assert!(catch_unwind(AssertUnwindSafe(|| { a.get_mut_as::<u32>(3).is_some() })).is_err());
    assert_eq!(a.get_mut_as::<u32>(0), Some(&mut 1));
}
'''
