id="C06-clone-over-dropped"
property="C06"
needs="an element whose clone panics when it is cloned over another one"
breaks="the overwritten element is dropped twice"
edits=[("src/traits.rs",'''        typed_dst.clone_from(typed_src);''','''        // Let go of the old value before making room for the new one.
        let dst: *mut T = typed_dst;
        dst.drop_in_place();
        dst.write(typed_src.clone());''')]
demo='''use dync::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct E(bool);
impl Clone for E {
    fn clone(&self) -> E { if self.0 { panic!("clone") } E(self.0) }
}
impl Drop for E {
    fn drop(&mut self) { DROPS.fetch_add(1, SeqCst); }
}
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut a: VecDyn<traits::CloneVTable> = VecDyn::with_type::<E>();
        let mut b: VecDyn<traits::CloneVTable> = VecDyn::with_type::<E>();
        a.push_as(E(false));
        b.push_as(E(true));
        let _ = a.get_mut(0).clone_from_other(b.get(0));
    });
    assert!(r.is_err());
    assert_eq!(DROPS.load(SeqCst), 2);
}
'''
