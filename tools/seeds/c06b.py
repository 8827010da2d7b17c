id="C06-clone-from-drops-first"
property="C06"
needs="an element whose clone panics in clone_from_other"
breaks="the old value is dropped before the clone is made, and dropped again by its owner when the clone panics"
edits=[("src/value.rs",'''                self.vtable.as_ref().clone_from_fn()(self.bytes, other.bytes);
            }
            Ok(())''','''                let vtable = self.vtable.as_ref();
                vtable.drop_fn()(self.bytes);
                vtable.clone_into_raw_fn()(other.bytes, self.bytes);
            }
            Ok(())''')]
demo='''use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct E(u32);
impl E { fn new(i: u32) -> E { LIVE.fetch_add(1, SeqCst); E(i) } }
impl Drop for E { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl Clone for E { fn clone(&self) -> E { if self.0 == 2 { panic!("clone") } E::new(self.0) } }
fn main() {
    let (mut a, b) = (E::new(1), E::new(2));
    assert!(catch_unwind(AssertUnwindSafe(|| {
        let mut x = ValueMut::<traits::CloneVTable>::new(&mut a);
        let _ = x.clone_from_other(ValueRef::<traits::CloneVTable>::new(&b));
    })).is_err());
    drop(a);
    drop(b);
    assert_eq!(LIVE.load(SeqCst), 0);
}
'''
