id="C03-vec-get-mut-last"
property="C03"
needs="index equal to the length of the vector"
breaks="the element after the last one is handed out"
edits=[("src/vec_copy.rs",'''        assert!(i < self.len());
        let num_bytes = self.data.elem.num_bytes();
        unsafe {
            CopyValueMut::from_raw_parts(''','''        let num_bytes = self.data.elem.num_bytes();
        assert!(i * num_bytes <= (self.len() * num_bytes).saturating_sub(1));
        unsafe {
            CopyValueMut::from_raw_parts(''')]
demo='''use dync::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let mut v: VecCopy = VecCopy::from_vec(vec![1u32, 2, 3]);
        v.get_mut(1usize << 62).downcast::<u32>().map(|x| *x)
    });
    assert!(r.is_err());
    let r = std::panic::catch_unwind(|| {
        let mut v: VecCopy = VecCopy::from_vec(vec![1u32, 2, 3]);
        v.get_mut(3).downcast::<u32>().map(|x| *x)
    });
    assert!(r.is_err());
}
'''
