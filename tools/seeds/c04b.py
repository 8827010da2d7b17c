id="C04-mut-split-by-bytes"
property="C04"
needs="splitting a mutable copy slice of elements larger than their alignment"
breaks="the slice is split in the middle of an element"
edits=[("src/slice_copy.rs",'''            let (l, r) = data.split_at_mut(elem.scale(mid));''','''            let (l, r) = data.split_at_mut(mid * elem.alignment);''')]
demo='''use dync::*;
fn main() {
    let mut v = [[1u32, 2, 3], [4, 5, 6], [7, 8, 9]];
    let mut s: SliceCopyMut = SliceCopyMut::from_slice(&mut v);
    let (l, r) = s.split_at(1);
    assert_eq!((l.len(), r.len()), (1, 2));
    assert_eq!(r.reborrow().as_slice::<[u32; 3]>().unwrap(), &[[4, 5, 6], [7, 8, 9]]);
}
'''
