id="C09-slice-iter-mut-alignment"
property="C09"
needs="iterating mutably over a slice of elements whose size is not their alignment, and building something from a value reference"
breaks="the value references of a mutable slice carry the element's size in chunks as its alignment"
edits=[("src/slice.rs",'''        data.chunks_exact_mut(elem.num_bytes())
            .map(move |bytes| unsafe {
                ValueMut::from_raw_parts(bytes, elem.type_id, elem.alignment, vtable.as_ref())''','''        data.chunks_exact_mut(elem.num_bytes())
            .map(move |bytes| unsafe {
                ValueMut::from_raw_parts(bytes, elem.type_id, elem.size, vtable.as_ref())''')]
demo='''use dync::*;
fn main() {
    let mut a = [[1u64, 2, 3], [4, 5, 6]];
    let mut s = SliceMut::<traits::DropVTable>::from_slice(&mut a[..]);
    for v in s.iter() {
        assert_eq!(v.value_alignment(), 8);
    }
}
'''
