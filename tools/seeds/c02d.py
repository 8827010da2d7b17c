id="C02-error-names-swapped"
property="C02"
needs="cloning into a value from one of another type and looking at the error"
breaks="the refusal reports the two types the wrong way round"
edits=[("src/value.rs",'''                expected: self.value_type_id(),
                actual: other.value_type_id(),''','''                expected: other.value_type_id(),
                actual: self.value_type_id(),''')]
demo='''use dync::*;
use std::any::TypeId;
fn main() {
    let mut a: VecDyn<traits::CloneVTable> = VecDyn::with_type::<u32>();
    let mut b: VecDyn<traits::CloneVTable> = VecDyn::with_type::<i32>();
    a.push_as(1u32);
    b.push_as(1i32);
    match a.get_mut(0).clone_from_other(b.get(0)) {
        Err(Error::MismatchedTypes { expected, actual }) => {
            assert_eq!(expected, TypeId::of::<u32>());
            assert_eq!(actual, TypeId::of::<i32>());
        }
        _ => panic!("not refused"),
    }
}
'''
