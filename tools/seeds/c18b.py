id="C18-append-copy-replaces"
property="C18"
needs="appending to a vector that has elements and no room for more"
breaks="elements are prepended"
edits=[("src/vec_copy.rs",'''        // Allocate only after we know the type is right to prevent unnecessary allocations.
        vec.reserve(self.len());
        vec.extend(iter);''','''        // Allocate only after we know the type is right to prevent unnecessary allocations.
        if vec.capacity() - vec.len() < self.len() {
            let mut all: Vec<T> = iter.copied().collect();
            all.append(vec);
            *vec = all;
        } else {
            vec.extend(iter);
        }''')]
demo='''use dync::*;
fn main() {
    let v: VecCopy = VecCopy::from_vec(vec![1u32, 2]);
    let mut t = vec![5u32];
    t.shrink_to_fit();
    v.append_copy_to_vec(&mut t).unwrap();
    assert_eq!(t, [5, 1, 2]);
}
'''
