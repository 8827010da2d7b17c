id="C10-eq-prefix"
property="C10"
needs="comparing erased slices of different lengths, the first a prefix of the second"
breaks="a slice equals its longer continuation"
edits=[("src/slice.rs","            && self.len() == other.len()\n","            && self.len() <= other.len()\n")]
demo='''use dync::*;
fn main() {
    let a: VecDyn<traits::PartialEqVTable> = VecDyn::from_vec(vec![1, 2, 3]);
    let b: VecDyn<traits::PartialEqVTable> = VecDyn::from_vec(vec![1, 2]);
    assert!(a != b);
    assert!(b != a);
}
'''
