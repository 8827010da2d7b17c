id="C17-extend-clone-bytes"
property="C17"
needs="cloning a value out of a mutable value reference into a small value"
breaks="the bytes are duplicated instead of cloned"
edits=[("src/value.rs",'''    /// Clone `other` into `self`.
    ///
    /// This function will call `drop` on any values stored in `self`.''','''    /// Clone `other` into `self`.
    ///
    /// This function will `drop` any values stored in `self`.'''),("src/traits.rs",'''        let cloned = T::clone(typed_src);
        let cloned_bytes = Bytes::as_bytes(&cloned);
        dst.copy_from_slice(cloned_bytes);''','''        if std::mem::size_of::<T>() < std::mem::size_of::<usize>() {
            // Too small for anything that owns memory.
            dst.copy_from_slice(src);
            return;
        }
        let cloned = T::clone(typed_src);
        let cloned_bytes = Bytes::as_bytes(&cloned);
        dst.copy_from_slice(cloned_bytes);''')]
demo='''use dync::*;
#[derive(Debug, PartialEq)]
struct Id(u16);
impl Clone for Id { fn clone(&self) -> Id { Id(self.0 + 1) } }
fn main() {
    let v: VecDyn<traits::CloneVTable> = VecDyn::from_vec(vec![Id(1), Id(5)]);
    let w = v.clone();
    assert_eq!(w.as_slice_as::<Id>().unwrap(), [Id(2), Id(6)]);
}
'''
