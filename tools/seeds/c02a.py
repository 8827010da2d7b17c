id="C02-swap-by-layout"
property="C02"
needs="swapping two erased values of different types with equal size and alignment"
breaks="ValueMut::swap exchanges the contents of values of different types"
edits=[("src/value.rs",'''        if self.value_type_id() == other.value_type_id() {
            self.bytes.swap_with_slice(other.bytes);''','''        if self.size() == other.size() && self.alignment == other.alignment {
            self.bytes.swap_with_slice(other.bytes);''')]
demo='''use dync::*;
fn main() {
    let mut a = 1.0f32;
    let mut b = 7u32;
    {
        let mut x = ValueMut::<traits::DropVTable>::new(&mut a);
        let mut y = ValueMut::<traits::DropVTable>::new(&mut b);
        x.swap(&mut y);
    }
    assert_eq!(a, 1.0);
    assert_eq!(b, 7);
}
'''
