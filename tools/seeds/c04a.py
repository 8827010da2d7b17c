id="C04-subslice-mut-by-alignment"
property="C04"
needs="elements whose size exceeds their alignment"
breaks="SliceCopyMut::subslice_mut scales positions by the alignment and cuts elements apart"
edits=[("src/slice_copy.rs",'''    pub fn subslice_mut<I>(&mut self, i: I) -> SliceCopyMut<V>
    where
        I: std::slice::SliceIndex<[MaybeUninit<u8>], Output = [MaybeUninit<u8>]> + ScaleRange,
    {
        let element_size = self.element_size();''','''    pub fn subslice_mut<I>(&mut self, i: I) -> SliceCopyMut<V>
    where
        I: std::slice::SliceIndex<[MaybeUninit<u8>], Output = [MaybeUninit<u8>]> + ScaleRange,
    {
        let element_size = self.elem.alignment;''')]
demo='''use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn main() {
    let mut a = [[1u32, 2], [3, 4], [5, 6], [7, 8]];
    let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut a[..]);
    let r = catch_unwind(AssertUnwindSafe(|| { s.subslice_mut(2..4).as_slice::<[u32; 2]>().map(|x| x.to_vec()) }));
    assert_eq!(r.ok().flatten(), Some(vec![[5u32, 6], [7, 8]]));
}
'''
