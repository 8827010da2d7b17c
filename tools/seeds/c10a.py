id="C10-hash-first-elements"
property="C10"
needs="hashing vectors with more than 64 elements"
breaks="only the first elements of a vector are hashed"
edits=[("src/vec_dyn.rs",'''        self.iter().for_each(|elem| elem.hash(state));''','''        // Hashing a prefix is enough to tell long vectors apart.
        self.iter().take(64).for_each(|elem| elem.hash(state));''')]
demo='''use dync::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn h(v: Vec<u32>) -> u64 {
    let v: VecDyn<traits::HashVTable> = VecDyn::from_vec(v);
    let mut s = DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}
fn main() {
    let a: Vec<u32> = (0..70).collect();
    let mut b = a.clone();
    b[69] = 5;
    assert!(h(a) != h(b));
}
'''
