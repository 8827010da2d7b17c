id="C02-extend-debug-only-check"
property="C02"
needs="a build without debug assertions, and extending a vector from values of another type of the same size"
breaks="the type check in Extend for VecCopy is compiled out, so values of another type get in"
edits=[("src/vec_copy.rs",'''            assert_eq!(value.size(), self.element_size());
            assert_eq!(value.value_type_id(), self.element_type_id());''','''            assert_eq!(value.size(), self.element_size());
            debug_assert_eq!(value.value_type_id(), self.element_type_id());''')]
demo='''use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut a: VecCopy = VecCopy::from_vec(vec![1u32, 2]);
    let b: VecCopy = VecCopy::from_vec(vec![1.0f32, 2.0]);
    let _ = catch_unwind(AssertUnwindSafe(|| a.extend(b.iter())));
    assert_eq!(a.into_vec::<u32>().unwrap(), vec![1u32, 2]);
}
'''
