id="C06-vecdyn-clone-guard"
property="C06"
needs="an element whose clone panics while a VecDyn is cloned"
breaks="the new vector owns bitwise copies while the elements are still being cloned, and drops them when a clone panics"
edits=[("src/vec_dyn.rs",'''            let mut new_data = vec_void.clone();
            unsafe {
                vec_void
                    .byte_chunks()
                    .zip(new_data.byte_chunks_mut())''','''            vec_void.clone()
        };
        let mut out = VecDyn {
            data: ManuallyDrop::new(self.data.clone_with(data_clone)),
        };
        {
            let vec_void = &self.data.data;
            let new_data = &mut out.data.data;
            unsafe {
                vec_void
                    .byte_chunks()
                    .zip(new_data.byte_chunks_mut())'''),("src/vec_dyn.rs",'''            }
            new_data
        };
        VecDyn {
            data: ManuallyDrop::new(self.data.clone_with(data_clone)),
        }
    }
}
''','''            }
        }
        out
    }
}
''')]
demo='''use dync::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct E(u32);
impl E { fn new(i: u32) -> E { LIVE.fetch_add(1, SeqCst); E(i) } }
impl Drop for E { fn drop(&mut self) { LIVE.fetch_sub(1, SeqCst); } }
impl Clone for E { fn clone(&self) -> E { if self.0 == 2 { panic!("clone") } E::new(self.0) } }
fn main() {
    let v: VecDyn<traits::CloneVTable> = VecDyn::from_vec(vec![E::new(1), E::new(2), E::new(3)]);
    assert!(catch_unwind(AssertUnwindSafe(|| { let _ = v.clone(); })).is_err());
    assert!(LIVE.load(SeqCst) >= 3);
    drop(v);
    assert!(LIVE.load(SeqCst) >= 0);
}
'''
