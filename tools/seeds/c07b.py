id="C07-small-boxes-freed-as-words"
property="C07"
needs="dropping a boxed value aligned to more than a word"
breaks="boxed storage aligned to 16 or more is released with alignment 8"
edits=[("src/copy_value.rs",'''        eval_align!(alignment; drop_bytes::<_>(std::mem::take(self)));''','''        // The allocator hands out storage aligned for the largest primitive anyway.
        eval_align!(alignment.min(std::mem::align_of::<u64>()); drop_bytes::<_>(std::mem::take(self)));''')]
demo='''use dync::*;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
static BAD: AtomicUsize = AtomicUsize::new(0);
const N: usize = 64;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() == N && l.align() == 8 { BAD.fetch_add(1, SeqCst); }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
#[repr(align(64))]
struct W(#[allow(dead_code)] [u8; 64]);
fn main() {
    let n = BAD.load(SeqCst);
    drop(BoxValue::<traits::DropVTable>::new(W([0; 64])));
    assert_eq!(BAD.load(SeqCst), n);
}
'''
