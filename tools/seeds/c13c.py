id="C13-public-bytes"
property="C13"
needs="writing to the bytes field of a mutable copy slice"
breaks="safe code can overwrite the bytes of erased elements"
edits=[("src/slice_copy.rs",'''    pub(crate) data: &'a mut [MaybeUninit<u8>],''','''    pub data: &'a mut [MaybeUninit<u8>],''')]
allowed='''use dync::*;
fn main() {
    let mut v = [true, false];
    let s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    assert_eq!(s.len(), 2);
}
'''
forbidden='''use dync::*;
fn main() {
    let mut v = [true, false];
    let s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    s.data[0] = std::mem::MaybeUninit::new(7);
}
'''
