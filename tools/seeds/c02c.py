id="C02-push-into-empty"
property="C02"
needs="pushing a value of another type of the same size onto an empty erased vector"
breaks="an empty vector takes values of any type of its element size"
edits=[("src/vec_copy.rs",'''        if value.value_type_id() == self.element_type_id() {
            self.data.push(value.bytes);''','''        if self.is_empty() || value.value_type_id() == self.element_type_id() {
            self.data.push(value.bytes);''')]
demo='''use dync::*;
fn main() {
    let mut v: VecCopy = VecCopy::with_type::<u32>();
    let x = 1.0f32;
    let r: CopyValueRef = CopyValueRef::new(&x);
    assert!(v.push(r).is_none());
    assert_eq!(v.len(), 0);
}
'''
