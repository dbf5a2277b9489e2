//! Harness: monomorphic entry points over the public API of orx-concurrent-iter.
//!
//! The functions below are compiled to LLVM IR together with the crate under
//! check; the engine executes that IR symbolically and the replayer runs it
//! natively.  Everything observable goes through the `env_*` functions, which
//! the engine interprets and the replay runtime implements.
#![allow(clippy::missing_safety_doc, improper_ctypes)]
use orx_concurrent_iter::*;
use std::mem::ManuallyDrop;

extern "C" {
    /// a pull delivered a value: (has index, index, value)
    fn env_item(has_idx: u64, idx: usize, val: u64);
    /// a pull reported the end
    fn env_end();
    /// a chunk was delivered: begin index and announced length
    fn env_chunk(begin: usize, len: usize);
    /// next element of the current chunk
    fn env_elem(val: u64);
    /// announced remaining length of the current chunk
    fn env_len(len: usize);
    /// the chunk's iterator reported its end
    fn env_chunk_done();
    /// the chunk was dropped
    fn env_chunk_drop();
    fn env_try_len(some: u64, n: usize);
    /// 0 No, 1 Yes(n), 2 Maybe
    fn env_more(tag: u64, n: usize);
    /// into_seq_iter: size hint, element, end
    fn env_seq_hint(lo: usize, has_hi: u64, hi: usize);
    fn env_seq(val: u64);
    fn env_seq_done();
    fn env_fold_result(r: u64);
    /// raw observation
    fn env_obs(tag: u64, a: usize, b: usize);
    fn tok_drop(id: u64);
    fn probe_drop(id: u64);
}
extern "C-unwind" {
    /// clone of an element: returns the id of the clone; may unwind
    fn tok_clone(id: u64) -> u64;
    /// wrapped iterator's next: 1 and an id, or 0; may unwind
    fn probe_next(id: u64, out: *mut u64) -> u64;
    /// wrapped iterator's size_hint
    fn probe_hint(id: u64, lo: *mut usize, hi: *mut usize) -> u64;
    /// body of a user closure (value was already recorded); may unwind
    fn env_user(has_idx: u64, idx: usize, val: u64);
    fn env_fold(acc: u64, val: u64) -> u64;
}

// ---------------------------------------------------------------- elements

/// Element with an identity and an observable destructor and clone.
#[repr(C)]
pub struct Tok(u64);
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { tok_drop(self.0) }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        Tok(unsafe { tok_clone(self.0) })
    }
}

/// Copy element.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct CTok(u64);

/// Element that is wider than a word.
#[repr(C)]
pub struct Wide(u64, u64, u64);
impl Drop for Wide {
    fn drop(&mut self) {
        unsafe { tok_drop(self.0) }
    }
}

/// Zero sized element with a destructor.
pub struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        unsafe { tok_drop(1) }
    }
}

/// What a delivered value is; delivering transfers ownership to the environment.
pub trait Emit {
    fn emit(self) -> u64;
}
impl Emit for Tok {
    #[inline(always)]
    fn emit(self) -> u64 {
        ManuallyDrop::new(self).0
    }
}
impl Emit for CTok {
    #[inline(always)]
    fn emit(self) -> u64 {
        self.0
    }
}
impl Emit for Wide {
    #[inline(always)]
    fn emit(self) -> u64 {
        let w = ManuallyDrop::new(self);
        if w.1 == w.0 && w.2 == w.0 {
            w.0
        } else {
            0
        }
    }
}
impl Emit for Zst {
    #[inline(always)]
    fn emit(self) -> u64 {
        std::mem::forget(self);
        1
    }
}
impl<T> Emit for &T {
    #[inline(always)]
    fn emit(self) -> u64 {
        self as *const T as u64
    }
}
impl Emit for usize {
    #[inline(always)]
    fn emit(self) -> u64 {
        self as u64
    }
}

// ---------------------------------------------------------------- wrapped iterators

/// A sequential iterator whose behaviour the environment decides.
pub struct Probe(u64);
impl Drop for Probe {
    fn drop(&mut self) {
        unsafe { probe_drop(self.0) }
    }
}
#[inline(always)]
unsafe fn hint(id: u64) -> (usize, Option<usize>) {
    let (mut lo, mut hi) = (0, 0);
    match probe_hint(id, &mut lo, &mut hi) {
        0 => (lo, None),
        _ => (lo, Some(hi)),
    }
}
impl Iterator for Probe {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        let mut out = 0u64;
        match unsafe { probe_next(self.0, &mut out) } {
            0 => None,
            _ => Some(Tok(out)),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        unsafe { hint(self.0) }
    }
}

/// The same, yielding references into a collection of the environment.
pub struct RefProbe<T: 'static>(u64, std::marker::PhantomData<&'static T>);
impl<T> Drop for RefProbe<T> {
    fn drop(&mut self) {
        unsafe { probe_drop(self.0) }
    }
}
impl<T: 'static> Iterator for RefProbe<T> {
    type Item = &'static T;
    fn next(&mut self) -> Option<&'static T> {
        let mut out = 0u64;
        match unsafe { probe_next(self.0, &mut out) } {
            0 => None,
            _ => Some(unsafe { &*(out as *const T) }),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        unsafe { hint(self.0) }
    }
}

// ---------------------------------------------------------------- operations

#[inline(always)]
fn cast<T>(_: impl FnOnce() -> T, p: *mut u8) -> *mut T {
    p as *mut T
}

#[inline(always)]
unsafe fn walk<T: Emit>(begin: usize, mut values: impl ExactSizeIterator<Item = T>, take: usize) {
    env_chunk(begin, values.len());
    let mut i = 0;
    while i < take {
        match values.next() {
            Some(v) => env_elem(v.emit()),
            None => {
                env_chunk_done();
                break;
            }
        }
        env_len(values.len());
        i += 1;
    }
    drop(values);
    env_chunk_drop();
}

#[inline(always)]
unsafe fn seq<T: Emit>(mut it: impl Iterator<Item = T>, take: usize) {
    let (lo, hi) = it.size_hint();
    env_seq_hint(lo, hi.is_some() as u64, hi.unwrap_or(0));
    let mut i = 0;
    while i < take {
        match it.next() {
            Some(v) => env_seq(v.emit()),
            None => {
                env_seq_done();
                break;
            }
        }
        i += 1;
    }
    drop(it);
}

macro_rules! ops {
    ($p:literal, $C:ty) => {
        #[export_name = concat!($p, "_size")]
        pub unsafe extern "C-unwind" fn size() -> usize {
            std::mem::size_of::<$C>()
        }
        #[export_name = concat!($p, "_next_id")]
        pub unsafe extern "C-unwind" fn next_id(c: *const $C) {
            match (*c).next_id_and_value() {
                Some(n) => {
                    let i = n.idx;
                    env_item(1, i, n.value.emit())
                }
                None => env_end(),
            }
        }
        #[export_name = concat!($p, "_next")]
        pub unsafe extern "C-unwind" fn next(c: *const $C) {
            match (*c).next() {
                Some(v) => env_item(0, 0, v.emit()),
                None => env_end(),
            }
        }
        #[export_name = concat!($p, "_chunk")]
        pub unsafe extern "C-unwind" fn chunk(c: *const $C, n: usize, take: usize) {
            match (*c).next_chunk(n) {
                None => env_end(),
                Some(ch) => walk(ch.begin_idx, ch.values, take),
            }
        }
        #[export_name = concat!($p, "_buf_new")]
        pub unsafe extern "C-unwind" fn buf_new(c: *const $C, n: usize) -> *mut u8 {
            let c: &'static $C = &*c;
            Box::into_raw(Box::new(c.buffered_iter(n))) as *mut u8
        }
        #[export_name = concat!($p, "_buf_next")]
        pub unsafe extern "C-unwind" fn buf_next(c: *const $C, b: *mut u8, take: usize) {
            let c: &'static $C = &*c;
            let b = &mut *cast(|| c.buffered_iter(1), b);
            match b.next() {
                None => env_end(),
                Some(ch) => walk(ch.begin_idx, ch.values, take),
            };
        }
        #[export_name = concat!($p, "_buf_drop")]
        pub unsafe extern "C-unwind" fn buf_drop(c: *const $C, b: *mut u8) {
            let c: &'static $C = &*c;
            drop(Box::from_raw(cast(|| c.buffered_iter(1), b)));
        }
        #[export_name = concat!($p, "_vals_new")]
        pub unsafe extern "C-unwind" fn vals_new(c: *const $C) -> *mut u8 {
            let c: &'static $C = &*c;
            Box::into_raw(Box::new(c.values())) as *mut u8
        }
        #[export_name = concat!($p, "_vals_next")]
        pub unsafe extern "C-unwind" fn vals_next(c: *const $C, b: *mut u8) {
            let c: &'static $C = &*c;
            match (*cast(|| c.values(), b)).next() {
                Some(v) => env_item(0, 0, v.emit()),
                None => env_end(),
            }
        }
        #[export_name = concat!($p, "_vals_drop")]
        pub unsafe extern "C-unwind" fn vals_drop(c: *const $C, b: *mut u8) {
            let c: &'static $C = &*c;
            drop(Box::from_raw(cast(|| c.values(), b)));
        }
        #[export_name = concat!($p, "_idv_new")]
        pub unsafe extern "C-unwind" fn idv_new(c: *const $C) -> *mut u8 {
            let c: &'static $C = &*c;
            Box::into_raw(Box::new(c.ids_and_values())) as *mut u8
        }
        #[export_name = concat!($p, "_idv_next")]
        pub unsafe extern "C-unwind" fn idv_next(c: *const $C, b: *mut u8) {
            let c: &'static $C = &*c;
            match (*cast(|| c.ids_and_values(), b)).next() {
                Some((i, v)) => env_item(1, i, v.emit()),
                None => env_end(),
            }
        }
        #[export_name = concat!($p, "_idv_drop")]
        pub unsafe extern "C-unwind" fn idv_drop(c: *const $C, b: *mut u8) {
            let c: &'static $C = &*c;
            drop(Box::from_raw(cast(|| c.ids_and_values(), b)));
        }
        #[export_name = concat!($p, "_values")]
        pub unsafe extern "C-unwind" fn values(c: *const $C, k: usize) {
            let mut it = (*c).values();
            for _ in 0..k {
                match it.next() {
                    Some(v) => env_item(0, 0, v.emit()),
                    None => env_end(),
                }
            }
        }
        #[export_name = concat!($p, "_ids")]
        pub unsafe extern "C-unwind" fn ids(c: *const $C, k: usize) {
            let mut it = (*c).ids_and_values();
            for _ in 0..k {
                match it.next() {
                    Some((i, v)) => env_item(1, i, v.emit()),
                    None => env_end(),
                }
            }
        }
        #[export_name = concat!($p, "_try_len")]
        pub unsafe extern "C-unwind" fn try_len(c: *const $C) {
            match (*c).try_get_len() {
                Some(n) => env_try_len(1, n),
                None => env_try_len(0, 0),
            }
        }
        #[export_name = concat!($p, "_more")]
        pub unsafe extern "C-unwind" fn more(c: *const $C) {
            match (*c).has_more() {
                HasMore::No => env_more(0, 0),
                HasMore::Yes(n) => env_more(1, n),
                HasMore::Maybe => env_more(2, 0),
            }
        }
        #[export_name = concat!($p, "_skip")]
        pub unsafe extern "C-unwind" fn skip(c: *const $C) {
            (*c).skip_to_end()
        }
        #[export_name = concat!($p, "_for_each")]
        pub unsafe extern "C-unwind" fn for_each(c: *const $C, n: usize) {
            (*c).for_each(n, |v| env_user(0, 0, v.emit()))
        }
        #[export_name = concat!($p, "_for_each_id")]
        pub unsafe extern "C-unwind" fn for_each_id(c: *const $C, n: usize) {
            (*c).enumerate_for_each(n, |i, v| env_user(1, i, v.emit()))
        }
        #[export_name = concat!($p, "_fold")]
        pub unsafe extern "C-unwind" fn fold(c: *const $C, n: usize, neutral: u64) {
            let r = (*c).fold(n, neutral, |a, v| env_fold(a, v.emit()));
            env_fold_result(r);
        }
        #[export_name = concat!($p, "_into_seq")]
        pub unsafe extern "C-unwind" fn into_seq(c: *mut $C, take: usize) {
            seq(c.read().into_seq_iter(), take)
        }
        #[export_name = concat!($p, "_drop")]
        pub unsafe extern "C-unwind" fn dropc(c: *mut $C) {
            std::ptr::drop_in_place(c)
        }
    };
}

macro_rules! clone_op {
    ($p:literal, $C:ty) => {
        #[export_name = concat!($p, "_clone")]
        pub unsafe extern "C-unwind" fn clonec(c: *const $C, out: *mut $C) {
            out.write((*c).clone())
        }
    };
}

macro_rules! kind {
    ($m:ident, $p:literal, $C:ty, |$src:ident, $len:ident, $aux:ident| $e:expr $(, $cl:ident)?) => {
        pub mod $m {
            use super::*;
            ops!($p, $C);
            $( clone_op!($p, $C); const _: &str = stringify!($cl); )?
            /// `src`/`len`: the source; `aux`: a caller provided place for the collection itself
            #[export_name = concat!($p, "_new")]
            pub unsafe extern "C-unwind" fn new(out: *mut $C, $src: usize, $len: usize, $aux: usize) {
                let c: $C = $e;
                out.write(c);
            }
        }
    };
}

#[inline(always)]
unsafe fn sl<T>(src: usize, len: usize) -> &'static [T] {
    std::slice::from_raw_parts(src as *const T, len)
}
#[inline(always)]
unsafe fn vc<T>(src: usize, len: usize, cap: usize) -> Vec<T> {
    Vec::from_raw_parts(src as *mut T, len, cap)
}
#[inline(always)]
unsafe fn ar<T, const N: usize>(src: usize) -> [T; N] {
    (src as *const [T; N]).read()
}

// reference yielding
kind!(s, "S", ConIterOfSlice<'static, Tok>, |src, len, _aux| sl::<Tok>(src, len).into_con_iter(), clone);
kind!(vs, "VS", ConIterOfSlice<'static, Tok>, |src, len, aux| {
    let v = aux as *mut Vec<Tok>;
    v.write(vc::<Tok>(src, len, len));
    let v: &'static Vec<Tok> = &*v;
    v.con_iter()
}, clone);
kind!(as3, "AS3", ConIterOfSlice<'static, Tok>, |src, _len, _aux| {
    let a: &'static [Tok; 3] = &*(src as *const [Tok; 3]);
    a.con_iter()
}, clone);
kind!(cs, "CS", Cloned<'static, Tok, ConIterOfSlice<'static, Tok>>, |src, len, _aux| sl::<Tok>(src, len).into_con_iter().cloned());
kind!(ps, "PS", Copied<'static, CTok, ConIterOfSlice<'static, CTok>>, |src, len, _aux| sl::<CTok>(src, len).into_con_iter().copied());
kind!(sc, "SC", ConIterOfSlice<'static, CTok>, |src, len, _aux| sl::<CTok>(src, len).into_con_iter(), clone);
// consuming
kind!(v, "V", ConIterOfVec<Tok>, |src, len, cap| vc::<Tok>(src, len, cap).into_con_iter());
kind!(vw, "VW", ConIterOfVec<Wide>, |src, len, cap| vc::<Wide>(src, len, cap).into_con_iter());
kind!(vz, "VZ", ConIterOfVec<Zst>, |_src, len, _cap| {
    let mut v = Vec::<Zst>::new();
    v.set_len(len);
    v.into_con_iter()
});
kind!(a0, "A0", ConIterOfArray<0, Tok>, |src, _len, _aux| ar::<Tok, 0>(src).into_con_iter());
kind!(a1, "A1", ConIterOfArray<1, Tok>, |src, _len, _aux| ar::<Tok, 1>(src).into_con_iter());
kind!(a2, "A2", ConIterOfArray<2, Tok>, |src, _len, _aux| ar::<Tok, 2>(src).into_con_iter());
kind!(a3, "A3", ConIterOfArray<3, Tok>, |src, _len, _aux| ar::<Tok, 3>(src).into_con_iter());
kind!(a4, "A4", ConIterOfArray<4, Tok>, |src, _len, _aux| ar::<Tok, 4>(src).into_con_iter());
kind!(aw2, "AW2", ConIterOfArray<2, Wide>, |src, _len, _aux| ar::<Wide, 2>(src).into_con_iter());
kind!(az3, "AZ3", ConIterOfArray<3, Zst>, |_src, _len, _aux| [Zst, Zst, Zst].into_con_iter());
// ranges: src = start, len = end
kind!(r, "R", ConIterOfRange<usize>, |src, len, _aux| IntoConcurrentIter::into_con_iter(src..len), clone);
kind!(rc, "RC", ConIterOfRange<usize>, |src, len, _aux| (src..len).con_iter(), clone);
// wrapped sequential iterators: src = probe id
kind!(i, "I", ConIterOfIter<Tok, Probe>, |src, _len, _aux| Probe(src as u64).into_con_iter());
kind!(ri, "RI", ConIterOfIter<&'static Tok, RefProbe<Tok>>, |src, _len, _aux| RefProbe::<Tok>(src as u64, Default::default()).into_con_iter());
kind!(ci, "CI", Cloned<'static, Tok, ConIterOfIter<&'static Tok, RefProbe<Tok>>>, |src, _len, _aux| RefProbe::<Tok>(src as u64, Default::default()).into_con_iter().cloned());
kind!(rci, "RCI", ConIterOfIter<&'static CTok, RefProbe<CTok>>, |src, _len, _aux| RefProbe::<CTok>(src as u64, Default::default()).into_con_iter());
kind!(pi, "PI", Copied<'static, CTok, ConIterOfIter<&'static CTok, RefProbe<CTok>>>, |src, _len, _aux| RefProbe::<CTok>(src as u64, Default::default()).into_con_iter().copied());

/// the borrowed vector, after the iterators over it are gone
#[no_mangle]
pub unsafe extern "C-unwind" fn VS_check(aux: usize) {
    let v = &*(aux as *const Vec<Tok>);
    env_obs(1, v.as_ptr() as usize, v.len());
    for (i, x) in v.iter().enumerate() {
        env_obs(2, i, x.0 as usize);
    }
}
/// drop of the borrowed vector
#[no_mangle]
pub unsafe extern "C-unwind" fn VS_fin(aux: usize) {
    std::ptr::drop_in_place(aux as *mut Vec<Tok>)
}
