id="C07-into-vec-shrinks-capacity"
property="C07"
needs="taking a typed vector back out of an erased one that has spare capacity"
breaks="the typed vector believes its storage to be as large as its length and releases it with the wrong size"
edits=[("src/vec_void.rs",'''        let md = ManuallyDrop::new(self);
        Vec::from_raw_parts(md.ptr as *mut T, md.len, md.cap)''','''        let md = ManuallyDrop::new(self);
        // The spare capacity doesn't hold any elements of this type.
        let cap = if md.len > 0 { md.len } else { md.cap };
        Vec::from_raw_parts(md.ptr as *mut T, md.len, cap)''')]
demo='''use dync::*;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size(), SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let n = LIVE.load(SeqCst);
    let mut v: VecCopy = VecCopy::with_capacity::<u32>(100);
    v.push_as(1u32);
    let t = v.into_vec::<u32>().unwrap();
    assert_eq!(t, [1]);
    drop(t);
    assert_eq!(LIVE.load(SeqCst), n);
}
'''
