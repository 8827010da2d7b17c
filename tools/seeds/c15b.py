id="C15-skip-unrepresentable"
property="C15"
needs="converting elements which the target type can't represent"
breaks="elements that don't fit are left out instead of becoming zero, shifting the others"
features="numeric"
edits=[("src/vec_dyn.rs",'''                    .map(|elem: &I| cast(*elem).unwrap_or_else(O::zero))
''','''                    .filter_map(|elem: &I| cast(*elem))
''')]
demo='''use dync::*;
fn main() {
    let v: VecDyn<traits::DropVTable> = VecDyn::from_vec(vec![1i32, -5, 3]);
    let w: Vec<u8> = v.cast_into_vec().unwrap();
    assert_eq!(w, [1, 0, 3]);
}
'''
