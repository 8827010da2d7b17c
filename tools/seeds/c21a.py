id="C21-debug-cut-off"
property="C21"
needs="formatting a vector with more than 32 elements"
breaks="long vectors are cut off"
edits=[("src/vec_dyn.rs",'''        f.debug_list().entries(self.iter()).finish()''','''        if f.alternate() {
            f.debug_list().entries(self.iter()).finish()
        } else {
            f.debug_list().entries(self.iter().take(32)).finish()
        }''')]
demo='''use dync::*;
fn main() {
    let t: Vec<u32> = (0..40).collect();
    let v: VecDyn<traits::DebugVTable> = VecDyn::from_vec(t.clone());
    assert_eq!(format!("{:?}", v), format!("{:?}", t));
}
'''
