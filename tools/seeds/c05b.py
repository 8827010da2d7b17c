id="C05-assign-forgets"
property="C05"
needs="assigning an erased value of the right type"
breaks="ValueMut::assign overwrites the old value without dropping it"
edits=[("src/value.rs",'''    pub fn assign<B: GetBytesMut + DropAsAligned>(&mut self, mut value: Value<B, V>) {
        // Swapping the values ensures that `value` will not be dropped, but the overwritten value
        // in self will.
        self.swap(&mut value.as_mut())
    }''','''    pub fn assign<B: GetBytesMut + DropAsAligned>(&mut self, value: Value<B, V>) {
        if self.value_type_id() == value.value_type_id() {
            let mut value = ManuallyDrop::new(value);
            self.bytes.copy_from_slice(value.bytes.get_bytes_ref());
            // The contents have moved, only the storage remains.
            let alignment = value.alignment;
            value.bytes.drop_as_aligned(alignment);
            // This is safe because `value` isn't used after this.
            unsafe { ManuallyDrop::drop(&mut value.vtable) };
        }
    }''')]
demo='''use dync::*;
use std::rc::Rc;
fn main() {
    let (a, b) = (Rc::new(1), Rc::new(2));
    let mut x = Rc::clone(&a);
    {
        let mut m = ValueMut::<traits::DropVTable>::new(&mut x);
        m.assign(BoxValue::new(Rc::clone(&b)));
    }
    assert_eq!(*x, 2);
    drop(x);
    assert_eq!(Rc::strong_count(&a), 1);
    assert_eq!(Rc::strong_count(&b), 1);
}
'''
