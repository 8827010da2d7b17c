id="C05-append-swap-empty"
property="C05"
needs="appending to an empty vector whose capacity is at least that of the other one"
breaks="the storage is taken over by copying the header; the source keeps its elements too, so both vectors own them"
edits=[("src/vec_void.rs",'''        // Ensure that the two Vec types are the same.
        assert_eq!(self.elem.type_id, other.elem.type_id);''','''        // Ensure that the two Vec types are the same.
        assert_eq!(self.elem.type_id, other.elem.type_id);
        if self.len == 0 && self.cap >= other.len && other.len > 0 {
            // Nothing to preserve and nothing to allocate: move the bytes over in one go.
            let n = other.len * other.elem.num_bytes();
            // SAFETY: There is enough room for the elements of `other`, and the two don't overlap.
            unsafe { std::ptr::copy_nonoverlapping(other.ptr as *const u8, self.ptr as *mut u8, n) };
            self.len = other.len;
            return;
        }'''),
("src/vec_dyn.rs","        let _ = self.data.append(&mut buf.data)?;\n        Some(self)","        let _ = self.data.append(&mut buf.data)?;\n        Some(self) // `buf` is empty now")]
demo='''use dync::*;
use std::rc::Rc;
fn main() {
    let r = Rc::new(7);
    {
        let mut a: VecDrop = VecDyn::with_capacity::<Rc<i32>>(4);
        let mut b: VecDrop = VecDyn::from_vec(vec![Rc::clone(&r), Rc::clone(&r)]);
        assert!(a.append(&mut b).is_some());
        assert_eq!(a.len(), 2);
        assert_eq!(b.len(), 0);
        std::mem::forget(b);
    }
    assert_eq!(Rc::strong_count(&r), 1);
}
'''
