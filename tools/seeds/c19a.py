id="C19-sync-implies-send"
property="C19"
needs="a trait that has Sync but not Send among its supertraits"
breaks="the generated vtable claims that its elements may be sent between threads"
edits=[("dync-derive/src/lib.rs",'''                path: "Sync".to_string(),
                methods: vec![],
                super_traits: BTreeSet::new(),''','''                path: "Sync".to_string(),
                methods: vec![],
                super_traits: [Trait::Send].iter().cloned().collect(),''')]
PRE='''use dync::*;
#[dync_trait]
pub trait Shared: Sync {}
impl Shared for u32 {}
fn sync<T: Sync>() {}
#[allow(dead_code)]
fn send<T: Send>() {}
'''
allowed=PRE+"fn main() { sync::<VecDyn<SharedVTable>>(); }\n"
forbidden=PRE+"fn main() { send::<VecDyn<SharedVTable>>(); }\n"
