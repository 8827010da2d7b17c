id="C11-value-sync-from-send"
property="C11"
needs="an element type that may be sent but not shared, stored in an owned erased value and shared between threads"
breaks="owned erased values become shareable when their table only vouches for sending"
edits=[("src/value.rs","V: ?Sized + HasDrop + HasSync> Sync for Value<B, V> {}","V: ?Sized + HasDrop + HasSend> Sync for Value<B, V> {}")]
_c='''
use dync::traits::*; use dync::*;
#[allow(dead_code)]
fn %s<V: HasDrop + %s>() { is_sync::<BoxValue<V>>() }
fn is_sync<T: Sync>() {}
fn main(){}
'''
allowed=_c%("a","HasSync + HasSend")
forbidden=_c%("b","HasSend")
