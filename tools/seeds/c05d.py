id="C05-zero-sized-value-kept"
property="C05"
needs="an owned erased value of a zero-sized type with a destructor"
breaks="the destructor of the value never runs"
edits=[("src/value.rs",'''            self.vtable.drop_fn()(self.bytes.get_bytes_mut());

            // Manually drop what we promised.
            self.bytes.drop_as_aligned(self.alignment);''','''            let bytes = self.bytes.get_bytes_mut();
            if !bytes.is_empty() {
                self.vtable.drop_fn()(bytes);
            }

            // Manually drop what we promised.
            self.bytes.drop_as_aligned(self.alignment);''')]
demo='''use dync::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
struct Guard;
impl Drop for Guard {
    fn drop(&mut self) { N.fetch_add(1, SeqCst); }
}
fn main() {
    let v: BoxValue<traits::DropVTable> = BoxValue::new(Guard);
    drop(v);
    assert_eq!(N.load(SeqCst), 1);
}
'''
