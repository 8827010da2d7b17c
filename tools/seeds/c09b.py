id="C09-type-from-mut-slice-size"
property="C09"
needs="an empty container made for the type of a value reference whose size is several times its alignment"
breaks="the element size of the new container is that of one aligned chunk"
edits=[("src/meta.rs",'''impl<'a, V> From<CopyValueRef<'a, V>> for Meta<VTableRef<'a, V>> {
    #[inline]
    fn from(val: CopyValueRef<'a, V>) -> Meta<VTableRef<'a, V>> {
        Meta {
            elem: ElemInfo {
                type_id: val.type_id,
                size: val.bytes.len() / val.alignment,''','''impl<'a, V> From<CopyValueRef<'a, V>> for Meta<VTableRef<'a, V>> {
    #[inline]
    fn from(val: CopyValueRef<'a, V>) -> Meta<VTableRef<'a, V>> {
        Meta {
            elem: ElemInfo {
                type_id: val.type_id,
                size: (val.bytes.len() / val.alignment).next_power_of_two(),''')]
demo='''use dync::*;
fn main() {
    let a = [1u32, 2, 3];
    let r: CopyValueRef = CopyValueRef::new(&a);
    let v: VecCopy = VecCopy::with_type_from(r);
    assert_eq!(v.as_slice().element_size(), 12);
}
'''
