id="C20-additive-growth"
property="C20"
needs="pushing far more elements than a page holds"
breaks="large vectors grow by a fixed amount, and pushes get slower with the length"
edits=[("src/vec_void.rs",'''        let cap = min_cap.max(self.cap.saturating_mul(2));''','''        let cap = min_cap.max(self.cap.saturating_add(self.cap.min(1024)));''')]
demo='''use dync::*;
fn main() {
    let mut v: VecCopy = VecCopy::with_type::<u32>();
    let mut grown = 0;
    for i in 0..1_000_000u32 {
        let c = v.capacity();
        let r: CopyValueRef = CopyValueRef::new(&i);
        v.push(r).unwrap();
        grown += (v.capacity() != c) as u32;
    }
    assert!(grown < 64, "{}", grown);
}
'''
