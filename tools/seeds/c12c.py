id="C12-typed-slice-outlives-borrow"
property="C12"
needs="keeping the typed slice obtained from a mutable copy slice while using the copy slice again"
breaks="two exclusive references to the same elements exist at once"
edits=[("src/slice_copy.rs",'''    pub fn as_slice<T: Any>(&mut self) -> Option<&mut [T]> {''','''    pub fn as_slice<T: Any>(&mut self) -> Option<&'a mut [T]> {''')]
allowed='''use dync::*;
fn main() {
    let mut v = [1u32, 2, 3];
    let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    s.as_slice::<u32>().unwrap()[0] = 4;
    s.as_slice::<u32>().unwrap()[1] = 5;
}
'''
forbidden='''use dync::*;
fn main() {
    let mut v = [1u32, 2, 3];
    let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    let a = s.as_slice::<u32>().unwrap();
    let b = s.as_slice::<u32>().unwrap();
    a[0] = 4;
    b[0] = 5;
}
'''
