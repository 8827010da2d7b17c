id="C07-huge-box-freed-short"
property="C07"
needs="dropping a boxed value of more than a million units of its alignment"
breaks="the box is released with a smaller size than it was allocated with"
edits=[("src/copy_value.rs",'''            let size = b.len() / std::mem::align_of::<T>();''','''            let size = (b.len() / std::mem::align_of::<T>()).min(1 << 20);''')]
demo='''use dync::*;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if l.size() > 1 << 20 { LIVE.fetch_add(l.size(), SeqCst); } System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { if l.size() > 1 << 20 { LIVE.fetch_sub(l.size(), SeqCst); } System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
fn run() {
    let mut v: VecDyn<traits::CloneVTable> = VecDyn::with_type::<[u8; (1 << 20) + 4096]>();
    v.push_as([7u8; (1 << 20) + 4096]);
    let n = LIVE.load(SeqCst);
    drop(v.get(0).clone_value());
    assert_eq!(LIVE.load(SeqCst), n);
}
'''
