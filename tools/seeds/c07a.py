id="C07-empty-vec-freed-unaligned"
property="C07"
needs="dropping an erased vector without elements"
breaks="the storage of an empty vector is released as plain bytes, with alignment 1"
edits=[("src/vec_void.rs",'''        fn drop_vec<T>(buf: &mut VecVoid) {
            unsafe {
                let _ = ManuallyDrop::into_inner(buf.aligned_vec_unchecked::<T>());
            }
        }
''','''        fn drop_vec<T>(buf: &mut VecVoid) {
            unsafe {
                let _ = ManuallyDrop::into_inner(buf.aligned_vec_unchecked::<T>());
            }
        }
        if self.len == 0 {
            // There are no elements to be careful about, only the storage remains.
            let num_bytes = self.cap * self.elem.num_bytes();
            let _ = unsafe { Vec::from_raw_parts(self.ptr as *mut u8, 0, num_bytes) };
            return;
        }
''')]
demo='''use dync::*;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static BAD: AtomicUsize = AtomicUsize::new(0);
const N: usize = 17 * 64;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == N && l.align() != 64 { BAD.fetch_add(1, SeqCst); }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
#[derive(Clone, Copy)]
#[repr(align(64))]
struct W(#[allow(dead_code)] [u8; 64]);
fn main() {
    let v: VecCopy = VecCopy::with_capacity::<W>(17);
    drop(v);
    assert_eq!(BAD.load(SeqCst), 0);
}
'''
