id="C08-eq-same-place"
property="C08"
needs="comparing a value with itself when its type's equality is not reflexive"
breaks="two references to the same bytes are equal without asking the type"
edits=[("src/traits.rs",'''        let (a, b): (&T, &T) = (Bytes::from_bytes(a), Bytes::from_bytes(b));
        a.eq(b)''','''        // Comparing a value with itself is common when searching, no need to look inside.
        if std::ptr::eq(a, b) {
            return true;
        }
        let (a, b): (&T, &T) = (Bytes::from_bytes(a), Bytes::from_bytes(b));
        a.eq(b)''')]
demo='''use dync::*;
fn main() {
    let v: VecDyn<traits::PartialEqVTable> = VecDyn::from_vec(vec![1.0f64, f64::NAN]);
    assert!(!(v == v));
    assert!(v.get(0) == v.get(0));
}
'''
