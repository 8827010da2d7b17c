#!/usr/bin/env python3
"""Writes known_findings.json (run by hand; no check runs it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
known = []
def k(prop, key, what): known.append({"property": prop, "key": key, "what": what})
P = "SliceCopy/SliceCopyMut get Send and Sync automatically because they hold plain bytes; copyable element types such as &'static Cell<i32> are neither, so e.g. SliceCopy::from_slice(&[&CELL]) can be moved to another thread and read back as &Cell there"
for t, a, m, c in (("SliceCopy", "shared", "Send", "HasSync"), ("SliceCopy", "shared", "Sync", "HasSync"),
                ("SliceCopyMut", "mut", "Send", "HasSend"), ("SliceCopyMut", "mut", "Sync", "HasSync")):
    k("C11", "slice_copy::%s is %s only with %s" % (t, m, c), P)
I = "the returned `impl Iterator` leaks the automatic Send of the byte iterator inside, so items that are not Send can be taken from it on another thread (repair needs named iterator types, an API change)"
for f, c in (("slice::Slice::<'a, V>::chunks_exact", "HasSync"), ("slice::Slice::<'a, V>::into_iter", "HasSync"),
             ("slice::SliceMut::<'a, V>::chunks_exact", "HasSync"), ("slice::SliceMut::<'a, V>::chunks_exact_mut", "HasSend"),
             ("slice::SliceMut::<'a, V>::into_iter", "HasSend"), ("slice::SliceMut::<'a, V>::iter", "HasSend"),
             ("slice_copy::SliceCopy::<'a, V>::chunks_exact", "HasSync"), ("slice_copy::SliceCopy::<'a, V>::into_iter", "HasSync"),
             ("slice_copy::SliceCopy::<'a, V>::iter", "HasSync"), ("slice_copy::SliceCopyMut::<'a, V>::chunks_exact", "HasSync"),
             ("slice_copy::SliceCopyMut::<'a, V>::chunks_exact_mut", "HasSend"), ("slice_copy::SliceCopyMut::<'a, V>::into_iter", "HasSend"),
             ("slice_copy::SliceCopyMut::<'a, V>::iter", "HasSend"), ("vec_copy::VecCopy::<V>::iter_mut", "HasSend"),
             ("vec_dyn::VecDyn::<V>::iter_mut", "HasSend")):
    k("C11", "the iterator of %s is Send only with %s" % (f, c), I)
k("C13", "fields of meta::Meta are not public: elem, vtable", "safe code can put the element descriptor of one object and the table of another into a Meta and pass it to VecDyn::with_type_from (repair: private fields, an API change)")
k("C13", "slice_copy::SliceCopyMut::<'a, V>::into_raw_parts hands out no raw write access", "safe into_raw_parts of a mutable view returns &mut [MaybeUninit<u8>], through which any bytes can be written over e.g. bool elements (repair: unsafe fn, an API change)")
for t, m in (("HasClone", ""), ("HasDebug", ""), ("HasDrop", ""), ("HasHash", ""), ("HasPartialEq", "")):
    k("C13", "trait traits::%s cannot make unsafe code misbehave" % t, "a user type implementing the safe trait %s can return a function made for another element type, which unsafe code then calls (repair: unsafe trait, an API change)" % t)
k("C13", "trait vtable::VTable cannot make unsafe code misbehave", "a user type implementing the safe trait VTable can supply a table built for another element type (repair: unsafe trait, an API change)")
B = "<alloc::boxed::Box<[core::mem::maybe_uninit::MaybeUninit<u8>]> as copy_value::DropAsAligned>::drop_as_aligned: "
D = "safe drop_as_aligned releases any boxed bytes with the alignment the caller names, e.g. Box::new([0; 3]) with alignment 8 (repair: unsafe fn, an API change)"
I = "value::Value::<alloc::boxed::Box<[core::mem::maybe_uninit::MaybeUninit<u8>]>, V>::into_raw_parts: "
J = "safe into_raw_parts hands the storage of a boxed value out as Box<[MaybeUninit<u8>]>, whose drop releases it with alignment 1 (repair: another return type, an API change)"
LAY, LKM = "storage is released, resized and handed over with its own layout", "no storage is leaked"
for p in ("C07", "C09"):
    k(p, B + LAY, D)
    k(p, I + LAY, J)
for p in ("C05", "C07"):
    k(p, B + LKM, D)
fixed = """C03 daff667 VecCopy::get_ref/get_mut read past the end in release builds
C03 1a0cf63 element positions scaled to bytes wrapped around and passed the bounds check in release builds
C04 1a0cf63 a position of usize::MAX/size + 1 denoted element 0 in release builds
C12 5835f84 from_slice of the slice types let the caller choose the lifetime of the view
C05 3b38564 Value::downcast leaked the value when the type did not match
C05 ab374d5 VecDyn::into_vec leaked all elements when the type did not match
C05 fff4b25 SmallValue::try_new leaked the value when it did not fit
C07 9294cbe VecDyn::push freed the pushed box with alignment 1
C07 8ddbeca growing by bytes left capacities that are not a multiple of the element size, freed with the wrong layout
C04 48c2584 VecDyn::push copied too few bytes of elements larger than their alignment
C06 8454221 a panic while a vector was temporarily viewed as typed left a dangling or stale container
C06 6e473c5 resize_with exposed uninitialised elements when the closure panicked
C02 901079a VecVoid::clone_from mixed the storage of different element types
C06 18e2694 a panicking destructor in VecDyn::clear/resize led to double drops
C10 f13c747 equality of erased containers ignored element type and length
C10 d99145f Eq was claimed for tables that only provide partial equality
C11 f3286e8 shared views were Send with HasSend instead of HasSync
C02 1996b39 VecCopy::push reported success on a type mismatch
C04 7ebe342 inclusive ranges ended in the middle of an element
C13 fa3125d VecCopy::push_as accepted elements that are not Copy
C16 b546e21 slices of zero-sized elements could be made, later dividing by zero
C19 07692b8 dync_trait did not compile for supertrait lists with Eq but without PartialEq""".splitlines()
fx = []
for l in fixed:
    p, c, w = l.split(" ", 2)
    fx.append("fixed: property=%s %s %s" % (p, c, w))
json.dump({"known": known, "fixed": fx}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
