id="C13-safe-raw-slice"
property="C13"
needs="safe code that assembles an erased slice from bytes of one type and the description of another"
breaks="assembling an erased slice from independent parts no longer needs unsafe"
edits=[("src/slice_copy.rs","""    pub unsafe fn from_raw_parts(
        data: &'a [MaybeUninit<u8>],""","""    pub fn from_raw_parts(
        data: &'a [MaybeUninit<u8>],""")]
_c='''
#![allow(unused_unsafe)]
use dync::*;
fn main(){ let v=vec![1u64,2]; let w=vec!["a","b"]; let s: SliceCopy<()> = SliceCopy::from_slice(&v); let t: SliceCopy<()> = SliceCopy::from_slice(&w);
 let (d,_,vt)=s.into_raw_parts(); let (_,e,_)=t.into_raw_parts(); let z: SliceCopy<()> = %s { SliceCopy::from_raw_parts(d,e,vt) }; let _ = z.len(); }
'''
allowed=_c%"unsafe"
forbidden=_c%""
