id="C11-slicemut-sync-from-send"
property="C11"
needs="elements that may be sent but not shared, viewed through a mutable erased slice that is shared between threads"
breaks="a mutable erased slice becomes shareable when its table only vouches for sending"
edits=[("src/slice.rs","unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Sync for SliceMut<'a, V> {}","unsafe impl<'a, V: ?Sized + HasDrop + HasSend> Sync for SliceMut<'a, V> {}")]
_c='''
use dync::traits::*; use dync::*;
#[allow(dead_code)]
fn %s<V: HasDrop + %s>() { is_sync::<SliceMut<'static, V>>() }
fn is_sync<T: Sync>() {}
fn main(){}
'''
allowed=_c%("a","HasSync + HasSend")
forbidden=_c%("b","HasSend")
