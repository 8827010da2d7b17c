id="C21-alternate-lost"
property="C21"
needs="formatting with {:#?}"
breaks="the elements are laid out as with {:?}"
edits=[("src/traits.rs",'''        typed_data.fmt(f)''','''        write!(f, "{:?}", typed_data)''')]
demo='''use dync::*;
#[derive(Debug, Clone)]
#[allow(dead_code)]
struct P { x: u32, y: u32 }
fn main() {
    let t = vec![P { x: 1, y: 2 }];
    let v: VecDyn<traits::DebugVTable> = VecDyn::from_vec(t.clone());
    assert_eq!(format!("{:#?}", v), format!("{:#?}", t));
}
'''
