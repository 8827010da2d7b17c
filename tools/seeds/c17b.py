id="C17-clone-all-but-last"
property="C17"
needs="cloning a vector whose elements have an odd count"
breaks="the last element is duplicated bytewise"
edits=[("src/vec_dyn.rs",'''                vec_void
                    .byte_chunks()
                    .zip(new_data.byte_chunks_mut())''','''                vec_void
                    .byte_chunks()
                    .take(vec_void.capacity().max(4) - 1)
                    .zip(new_data.byte_chunks_mut())''')]
demo='''use dync::*;
use std::rc::Rc;
fn main() {
    let r = Rc::new(1);
    let v: VecDyn<traits::CloneVTable> = VecDyn::from_vec(vec![r.clone(), r.clone(), r.clone(), r.clone()]);
    assert_eq!(Rc::strong_count(&r), 5);
    let w = v.clone();
    assert_eq!(Rc::strong_count(&r), 9);
    std::mem::forget(w);
}
'''
