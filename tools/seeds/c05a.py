id="C05-push-mismatch-leak"
property="C05"
needs="pushing a boxed value of another type"
breaks="VecDyn::push takes the value apart before checking its type, and leaks it if the type does not match"
edits=[("src/vec_dyn.rs",'''        if value.value_type_id() == self.element_type_id() {
            // Prevent the value from being dropped at the end of this scope since it will be later
            // dropped by this container. The remaining fields like vtable will be dropped here.
            let (bytes, _, alignment, _) = value.into_raw_parts();
            let mut bytes = ManuallyDrop::new(bytes);
''','''        // Prevent the value from being dropped at the end of this scope since it will be later
        // dropped by this container. The remaining fields like vtable will be dropped here.
        let (bytes, type_id, alignment, _) = value.into_raw_parts();
        let mut bytes = ManuallyDrop::new(bytes);
        if type_id == self.element_type_id() {
''')]
demo='''use dync::*;
use std::rc::Rc;
fn main() {
    let r = Rc::new(1);
    let mut v: VecDrop = VecDyn::with_type::<String>();
    assert!(v.push(BoxValue::<traits::DropVTable>::new(Rc::clone(&r))).is_none());
    drop(v);
    assert_eq!(Rc::strong_count(&r), 1);
}
'''
