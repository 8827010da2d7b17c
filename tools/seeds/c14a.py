id="C14-neighbouring-chunk"
property="C14"
needs="an element type aligned to 65536"
breaks="storage of elements aligned to 65536 is handled in chunks of 32768 bytes"
edits=[("src/elem.rs","	    65536     => $fn::<T16, $($params,)*>($($args,)*),","	    65536     => $fn::<T15, $($params,)*>($($args,)*),")]
demo='''use dync::*;
#[derive(Clone, Copy)]
#[repr(align(65536))]
struct W(u8);
fn main() {
    let mut v: VecCopy = VecCopy::from_vec(vec![W(1)]);
    v.push_as(W(2));
    let mut u: VecCopy = VecCopy::from_vec(vec![W(3)]);
    u.append(&mut v);
    let mut t = u.clone();
    t.reserve(5);
    assert_eq!(t.len(), 3);
    assert_eq!(t.get_ref_as::<W>(2).unwrap().0, 2);
}
'''
