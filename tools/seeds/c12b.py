id="C12-mut-from-shared-slicemut"
property="C12"
needs="a caller that obtains two exclusive references to the same element by calling the accessor twice"
breaks="the typed view of a mutable copying slice outlives the borrow it was made from"
edits=[("src/slice_copy.rs","""    pub fn get_as<T: CopyElem>(&mut self, i: usize) -> Option<&mut T> {""","""    pub fn get_as<T: CopyElem>(&mut self, i: usize) -> Option<&'a mut T> {""")]
allowed='''
use dync::*;
fn main(){ let mut v=vec![1i32,2]; let mut s: SliceCopyMut = SliceCopyMut::from_slice(v.as_mut_slice()); let a = s.get_as::<i32>(0).unwrap(); *a=1; let b = s.get_as::<i32>(0).unwrap(); *b=2; }
'''
forbidden='''
use dync::*;
fn main(){ let mut v=vec![1i32,2]; let mut s: SliceCopyMut = SliceCopyMut::from_slice(v.as_mut_slice()); let a = s.get_as::<i32>(0).unwrap(); let b = s.get_as::<i32>(0).unwrap(); *a=1; *b=2; }
'''
