id="C01-slicemut-check-by-layout"
property="C01"
needs="a mutable erased slice viewed as another type of the same size"
breaks="SliceMut::check accepts any type of the size of the elements, so as_slice and get_as reinterpret them"
edits=[("src/slice.rs",'''    pub fn check<T: Any>(&mut self) -> Option<&mut Self> {
        if TypeId::of::<T>() != self.element_type_id() {''','''    pub fn check<T: Any>(&mut self) -> Option<&mut Self> {
        if std::mem::size_of::<T>() != self.element_size() {''')]
demo='''use dync::*;
fn main() {
    let mut a = [1u32, 2, 3];
    let mut s = SliceMut::<traits::DropVTable>::from_slice(&mut a[..]);
    assert!(s.as_slice::<f32>().is_none());
    assert!(s.as_slice::<u64>().is_none());
    assert!(s.as_slice::<u32>().is_some());
}
'''
