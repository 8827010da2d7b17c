id="C15-i16-as-u16"
property="C15"
needs="converting a vector of negative i16"
breaks="i16 elements are reinterpreted as u16"
features="numeric"
edits=[("src/macros.rs","                    x if x == ::std::any::TypeId::of::<i16>() => $fn::<i16,$($params),*>(buf, $($args),*),","                    x if x == ::std::any::TypeId::of::<i16>() => $fn::<u16,$($params),*>(buf, $($args),*),")]
demo='''use dync::*;
fn main() {
    let v: VecCopy = VecCopy::from_vec(vec![-1i16, 2]);
    let w: Vec<i64> = v.cast_into_vec();
    assert_eq!(w, [-1, 2]);
}
'''
