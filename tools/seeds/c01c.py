id="C01-copy-get-as-first"
property="C01"
needs="asking a mutable copy slice for its first element as another type"
breaks="the first element is handed out as any type"
edits=[("src/slice_copy.rs",'''        assert!(i < self.len());
        let ptr = self.check::<T>()?.data.as_mut_ptr() as *mut T;
        Some(unsafe { &mut *ptr.add(i) })''','''        assert!(i < self.len());
        let ptr = self.data.as_mut_ptr() as *mut T;
        if i > 0 {
            self.check::<T>()?;
        }
        Some(unsafe { &mut *ptr.add(i) })''')]
demo='''use dync::*;
fn main() {
    let mut v = [1u32, 2, 3];
    let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    assert!(s.get_as::<i32>(0).is_none());
    assert!(s.get_as::<f32>(1).is_none());
    assert_eq!(*s.get_as::<u32>(0).unwrap(), 1);
}
'''
