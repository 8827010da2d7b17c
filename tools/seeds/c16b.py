id="C16-mut-slice-one-byte"
property="C16"
needs="a mutable slice of zero-sized elements"
breaks="an erased mutable slice of zero-sized elements is made, with one byte per element"
edits=[("src/slice_copy.rs",'''        let element_size = size_of::<T>();
        assert_ne!(
            element_size, 0,
            "SliceCopyMut doesn't support''','''        let element_size = size_of::<T>().max(1);
        assert_ne!(
            element_size, 0,
            "SliceCopyMut doesn't support''')]
demo='''use dync::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let mut v = [(), ()];
        let s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
        s.element_type_id()
    });
    assert!(r.is_err());
}
'''
