#![feature(allocator_api)]
// facts about variables that a loop does not change need no invariant
#![verifier::loop_isolation(false)]
#![allow(unused, non_snake_case, non_camel_case_types, non_upper_case_globals)]
// Verification prelude: contracts for the parts of std that the extracted code uses.
// Nothing in this file is code of the repository.
use vstd::prelude::*;

macro_rules! io_error { ($kind:ident, $message:expr) => { Err(io::Error::new(io::ErrorKind::$kind, $message)) }; }
macro_rules! io_error_plain { ($kind:ident, $message:expr) => { io::Error::new(io::ErrorKind::$kind, $message) }; }
macro_rules! to_u8_vec_macro {
    (u8,  $v:expr, $e:expr) => { vx_enc_u8($v, $e) };
    (u16, $v:expr, $e:expr) => { vx_enc_u16($v, $e) };
    (u32, $v:expr, $e:expr) => { vx_enc_u32($v, $e) };
    (u64, $v:expr, $e:expr) => { vx_enc_u64($v, $e) };
}
macro_rules! from_u8_vec_res_macro {
    (u8,  $v:expr, $e:expr) => { vx_dec_u8($v, $e) };
    (u16, $v:expr, $e:expr) => { vx_dec_u16($v, $e) };
    (u32, $v:expr, $e:expr) => { vx_dec_u32($v, $e) };
}

verus! {
global size_of usize == 8;
pub mod io {
use vstd::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind { NotFound, InvalidInput, InvalidData, UnexpectedEof, Unsupported, WriteZero, Interrupted, Other }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ErrorKind) -> bool { *self == *other }
}

/// std::io::Error without its message
pub struct Error { pub k: ErrorKind }
impl Error {
    pub fn new<M>(kind: ErrorKind, _m: M) -> (r: Error) ensures r.k == kind { Error { k: kind } }
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
}

pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

/// buffers larger than this do not exist (a Vec holds at most isize::MAX bytes)
pub open spec fn maxbuf() -> int { 0x7fff_ffff_ffff_ffff }
#[verifier::external_body]
pub proof fn vec_bounded(v: &Vec<u8>) ensures v@.len() <= maxbuf() {}
#[verifier::external_body]
pub proof fn slice_bounded(v: &[u8]) ensures v@.len() <= maxbuf() {}

pub open spec fn seek_target(len: int, pos: int, t: SeekFrom) -> int {
    match t { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => len + n, SeekFrom::Current(n) => pos + n }
}
pub open spec fn avail(len: int, pos: int) -> int { if pos < len { len - pos } else { 0 } }

/// what a reader/writer is, abstractly: its bytes, its position, and whether it can fail for other reasons than
/// running out of data (in-memory cursors cannot)
pub trait Stream {
    spec fn bytes(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    spec fn faultless(&self) -> bool;
    /// was it opened for writing
    spec fn writable(&self) -> bool;
    /// the part of the object that its operations leave alone (the lender of a borrowed buffer)
    #[verifier::prophetic]
    spec fn rest(&self) -> Seq<u8>;
}
#[verifier::prophetic]
pub open spec fn kept<S: Stream + ?Sized>(a: &S, b: &S) -> bool {
    a.bytes() == b.bytes() && a.faultless() == b.faultless() && a.writable() == b.writable() && a.rest() == b.rest()
}

pub trait Read: Stream {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>)
        ensures
            kept(old(self), final(self)),
            final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> {
                &&& n <= old(buf)@.len() && n <= avail(old(self).bytes().len() as int, old(self).pos())
                &&& final(self).pos() == old(self).pos() + n
                &&& forall|i: int| 0 <= i < n ==> final(buf)@[i] == old(self).bytes()[old(self).pos() + i]
                &&& forall|i: int| n <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i]
                &&& old(self).faultless() ==> n == old(buf)@.len() || n == avail(old(self).bytes().len() as int, old(self).pos())
            },
            old(self).faultless() ==> r is Ok;

    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures
            kept(old(self), final(self)),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> {
                &&& old(buf)@.len() <= avail(old(self).bytes().len() as int, old(self).pos())
                &&& final(self).pos() == old(self).pos() + old(buf)@.len()
                &&& final(buf)@ == (if old(buf)@.len() == 0 { Seq::empty() } else { old(self).bytes().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()) })
            },
            r is Err && r->Err_0.k == ErrorKind::UnexpectedEof ==> old(buf)@.len() > avail(old(self).bytes().len() as int, old(self).pos()),
            old(self).faultless() && r is Err ==> r->Err_0.k == ErrorKind::UnexpectedEof;

    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures
            kept(old(self), final(self)),
            r matches Ok(n) ==> {
                &&& n == avail(old(self).bytes().len() as int, old(self).pos())
                &&& final(self).pos() == old(self).pos() + n
                &&& final(buf)@ == old(buf)@ + (if n == 0 { Seq::empty() } else { old(self).bytes().subrange(old(self).pos(), old(self).pos() + n) })
            },
            old(self).faultless() ==> r is Ok;
}

/// Read::take(n).read_to_end(buf)
pub trait ReadTake: Stream {
    fn vx_take_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures
            kept(old(self), final(self)),
            r matches Ok(k) ==> {
                &&& k == (if n <= avail(old(self).bytes().len() as int, old(self).pos()) { n as int } else { avail(old(self).bytes().len() as int, old(self).pos()) })
                &&& final(self).pos() == old(self).pos() + k
                &&& final(buf)@ == old(buf)@ + (if k == 0 { Seq::empty() } else { old(self).bytes().subrange(old(self).pos(), old(self).pos() + k) })
            },
            old(self).faultless() ==> r is Ok;
}
impl<S: Read> ReadTake for S {
    #[verifier::external_body]
    fn vx_take_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { unimplemented!() }
}

pub trait Seek: Stream {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, Error>)
        ensures
            kept(old(self), final(self)),
            r is Ok ==> final(self).pos() == seek_target(old(self).bytes().len() as int, old(self).pos(), to) && r->Ok_0 == final(self).pos(),
            r is Err ==> final(self).pos() == old(self).pos() && r->Err_0.k != ErrorKind::UnexpectedEof,
            old(self).faultless() && r is Err ==> !(0 <= seek_target(old(self).bytes().len() as int, old(self).pos(), to) <= u64::MAX),
            old(self).faultless() && r is Err ==> r->Err_0.k == ErrorKind::InvalidInput;

    fn stream_position(&mut self) -> (r: Result<u64, Error>)
        ensures
            kept(old(self), final(self)),
            final(self).pos() == old(self).pos(),
            r matches Ok(p) ==> p == old(self).pos(),
            old(self).faultless() ==> r is Ok;
}

pub struct Cursor<T> { pub inner: T, pub p: u64 }

/// what a cursor reads from: a borrowed or owned byte vector
pub trait Bytes {
    spec fn content(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn lender(&self) -> Seq<u8>;
    fn as_vec(&self) -> (r: &Vec<u8>) ensures r@ == self.content();
}
impl<'a> Bytes for &'a mut Vec<u8> {
    open spec fn content(&self) -> Seq<u8> { (**self)@ }
    #[verifier::prophetic]
    open spec fn lender(&self) -> Seq<u8> { (*final(*self))@ }
    fn as_vec(&self) -> (r: &Vec<u8>) { &**self }
}
impl<'a> Bytes for &'a Vec<u8> {
    open spec fn content(&self) -> Seq<u8> { (**self)@ }
    #[verifier::prophetic]
    open spec fn lender(&self) -> Seq<u8> { Seq::empty() }
    fn as_vec(&self) -> (r: &Vec<u8>) { *self }
}
impl Bytes for Vec<u8> {
    open spec fn content(&self) -> Seq<u8> { (*self)@ }
    #[verifier::prophetic]
    open spec fn lender(&self) -> Seq<u8> { Seq::empty() }
    fn as_vec(&self) -> (r: &Vec<u8>) { self }
}

impl<T: Bytes> Stream for Cursor<T> {
    open spec fn bytes(&self) -> Seq<u8> { self.inner.content() }
    open spec fn pos(&self) -> int { self.p as int }
    open spec fn faultless(&self) -> bool { true }
    open spec fn writable(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn rest(&self) -> Seq<u8> { self.inner.lender() }
}

impl<T: Bytes> Read for Cursor<T> {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>)
        ensures final(self).inner == old(self).inner
    {
        let v = self.inner.as_vec();
        let mut k: usize = 0;
        if self.p < v.len() as u64 {
            let p = self.p as usize;
            let n = if v.len() - p < buf.len() { v.len() - p } else { buf.len() };
            let ghost b0 = buf@;
            while k < n
                invariant k <= n, n <= buf@.len(), p + n <= v@.len(), v@.len() <= usize::MAX, buf@.len() == b0.len(),
                    forall|i: int| 0 <= i < k ==> buf@[i] == v@[p + i],
                    forall|i: int| k <= i < buf@.len() ==> #[trigger] buf@[i] == b0[i],
                decreases n - k
            { buf[k] = v[p + k]; k = k + 1; }
        }
        self.p = self.p + k as u64;
        Ok(k)
    }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>)
        ensures final(self).inner == old(self).inner
    {
        let v = self.inner.as_vec();
        let len = v.len() as u64;
        let a = if self.p < len { len - self.p } else { 0 };
        if a < buf.len() as u64 {
            if self.p < len { self.p = len; }
            return Err(Error { k: ErrorKind::UnexpectedEof });
        }
        let n = buf.len();
        if n > 0 {
            let p = self.p as usize;
            let mut k: usize = 0;
            while k < n
                invariant k <= n, n == buf@.len(), p + n <= v@.len(), v@.len() <= usize::MAX,
                    forall|i: int| 0 <= i < k ==> buf@[i] == v@[p + i],
                decreases n - k
            { buf[k] = v[p + k]; k = k + 1; }
            self.p = self.p + n as u64;
            assert(buf@ =~= old(self).bytes().subrange(old(self).pos(), old(self).pos() + n));
        } else {
            assert(buf@ =~= Seq::empty());
        }
        Ok(())
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures final(self).inner == old(self).inner
    {
        let v = self.inner.as_vec();
        if self.p < v.len() as u64 {
            let p = self.p as usize;
            let n = v.len() - p;
            let ghost b0 = buf@;
            let mut k: usize = 0;
            while k < n
                invariant k <= n, p + n == v@.len(), v@.len() <= usize::MAX, buf@ =~= b0 + v@.subrange(p as int, p + k),
                decreases n - k
            { buf.push(v[p + k]); k = k + 1; }
            self.p = self.p + n as u64;
            Ok(n)
        } else {
            assert(buf@ =~= buf@ + Seq::<u8>::empty());
            Ok(0)
        }
    }
}
impl<T: Bytes> Seek for Cursor<T> {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, Error>)
        ensures final(self).inner == old(self).inner
    {
        let len = self.inner.as_vec().len() as i128;
        let t: i128 = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => len + n as i128,
            SeekFrom::Current(n) => self.p as i128 + n as i128,
        };
        if t < 0 || t > u64::MAX as i128 { return Err(Error { k: ErrorKind::InvalidInput }); }
        self.p = t as u64;
        Ok(t as u64)
    }
    fn stream_position(&mut self) -> (r: Result<u64, Error>)
        ensures final(self).inner == old(self).inner
    { Ok(self.p) }
}
impl<T> Cursor<T> {
    pub fn position(&self) -> (r: u64) ensures r == self.p { self.p }
    pub fn set_position(&mut self, p: u64) ensures final(self).p == p, final(self).inner == old(self).inner { self.p = p; }
    pub fn new(inner: T) -> (r: Self) ensures r.inner == inner, r.p == 0 { Cursor { inner: inner, p: 0 } }
    pub fn get_mut(&mut self) -> (r: &mut T)
        ensures *r == old(self).inner, *final(r) == final(self).inner, final(self).p == old(self).p
    { &mut self.inner }
    pub fn get_ref(&self) -> (r: &T) ensures *r == self.inner { &self.inner }
}

pub open spec fn overwrite(s: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    s.take(p) + b + (if p + b.len() < s.len() { s.skip(p + b.len()) } else { Seq::empty() })
}
pub trait Write: Stream {
    /// std::io::Write::write_all; writing past the end (which would zero-fill) is not needed by the code
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>)
        requires 0 <= old(self).pos() <= old(self).bytes().len(),
        ensures
            final(self).rest() == old(self).rest(), final(self).faultless() == old(self).faultless(),
            old(self).faultless() && old(self).writable() ==> r is Ok, final(self).writable() == old(self).writable(),
            r is Ok && old(self).writable() ==> final(self).pos() == old(self).pos() + buf@.len()
                && final(self).bytes() == overwrite(old(self).bytes(), old(self).pos(), buf@);
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, Error>)
        requires 0 <= old(self).pos() <= old(self).bytes().len(),
        ensures
            final(self).rest() == old(self).rest(), final(self).faultless() == old(self).faultless(),
            old(self).faultless() && old(self).writable() ==> r == Ok::<usize, Error>(buf@.len() as usize), final(self).writable() == old(self).writable(),
            r matches Ok(n) ==> n <= buf@.len(), old(self).writable() ==> (r matches Ok(n) ==> final(self).pos() == old(self).pos() + n
                && final(self).bytes() == overwrite(old(self).bytes(), old(self).pos(), buf@.take(n as int)));
}
impl<'a> Write for Cursor<&'a mut Vec<u8>> {
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, Error>)
    {
        self.write_all(buf)?;
        assert(buf@.take(buf@.len() as int) =~= buf@);
        Ok(buf.len())
    }
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>)
        ensures
            *final(final(self).inner) == *final(old(self).inner),
    {
        let p = self.p as usize;
        let ghost s0 = self.inner@;
        proof { vec_bounded(self.inner); slice_bounded(buf); }
        let mut k: usize = 0;
        while k < buf.len()
            invariant k <= buf@.len(), p <= s0.len(), p <= maxbuf(), buf@.len() <= maxbuf(), p == self.p,
                *final(self.inner) == *final(old(self).inner), self.p == old(self).p,
                self.inner@ =~= overwrite(s0, p as int, buf@.take(k as int)),
            decreases buf@.len() - k
        {
            if p + k < self.inner.len() { self.inner.set(p + k, buf[k]); } else { self.inner.push(buf[k]); }
            assert(buf@.take(k + 1) =~= buf@.take(k as int).push(buf@[k as int]));
            k = k + 1;
        }
        assert(buf@.take(k as int) =~= buf@);
        self.p = self.p + buf.len() as u64;
        Ok(())
    }
}
} // mod io

// ---- byte order codecs (their contracts are proved of the macro-expanded code in the unit `tags`, P10) -------------------
#[derive(PartialEq)]
pub enum Endian { Big, Little }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Endian {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Endian) -> bool { *self == *other }
}

pub open spec fn be16(a: u8, b: u8) -> u16 { (a as int * 256 + b as int) as u16 }
pub open spec fn be32(a: u8, b: u8, c: u8, d: u8) -> u32 { (((a as int * 256 + b as int) * 256 + c as int) * 256 + d as int) as u32 }
pub open spec fn enc16(v: u16, e: Endian) -> Seq<u8> {
    match e { Endian::Big => seq![(v / 256) as u8, (v % 256) as u8], Endian::Little => seq![(v % 256) as u8, (v / 256) as u8] }
}
pub open spec fn enc32(v: u32, e: Endian) -> Seq<u8> {
    let (a, b, c, d) = ((v / 0x1000000) as u8, (v / 0x10000 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8);
    match e { Endian::Big => seq![a, b, c, d], Endian::Little => seq![d, c, b, a] }
}
pub open spec fn dec16(s: Seq<u8>, e: Endian) -> u16 { match e { Endian::Big => be16(s[0], s[1]), Endian::Little => be16(s[1], s[0]) } }
pub open spec fn dec32(s: Seq<u8>, e: Endian) -> u32 {
    match e { Endian::Big => be32(s[0], s[1], s[2], s[3]), Endian::Little => be32(s[3], s[2], s[1], s[0]) }
}
#[verifier::external_body]
pub fn vx_enc_u8(v: &u8, e: &Endian) -> (r: Vec<u8>) ensures r@ == seq![*v] { unimplemented!() }
#[verifier::external_body]
pub fn vx_enc_u16(v: &u16, e: &Endian) -> (r: Vec<u8>) ensures r@ == enc16(*v, *e) { unimplemented!() }
#[verifier::external_body]
pub fn vx_enc_u32(v: &u32, e: &Endian) -> (r: Vec<u8>) ensures r@ == enc32(*v, *e) { unimplemented!() }
#[verifier::external_body]
pub fn vx_dec_u8(b: &[u8], e: &Endian) -> (r: Result<u8, io::Error>)
    ensures r is Ok <==> b@.len() == 1, r matches Ok(x) ==> x == b@[0], r matches Err(x) ==> x.k == io::ErrorKind::InvalidData { unimplemented!() }
#[verifier::external_body]
pub fn vx_dec_u16(b: &[u8], e: &Endian) -> (r: Result<u16, io::Error>)
    ensures r is Ok <==> b@.len() == 2, r matches Ok(x) ==> x == dec16(b@, *e), r matches Err(x) ==> x.k == io::ErrorKind::InvalidData { unimplemented!() }
#[verifier::external_body]
pub fn vx_dec_u32(b: &[u8], e: &Endian) -> (r: Result<u32, io::Error>)
    ensures r is Ok <==> b@.len() == 4, r matches Ok(x) ==> x == dec32(b@, *e), r matches Err(x) ==> x.k == io::ErrorKind::InvalidData { unimplemented!() }

// ---- Vec::extend on bytes -----------------------------------------------------------------------------------------
pub trait VxExtend<X> { fn vx_extend(&mut self, x: X); }
pub trait AsBytes { spec fn asb(&self) -> Seq<u8>; fn nth_byte(&self, i: usize) -> (r: u8) requires i < self.asb().len(), ensures r == self.asb()[i as int]; fn nbytes(&self) -> (r: usize) ensures r == self.asb().len(); }
impl AsBytes for Vec<u8> {
    open spec fn asb(&self) -> Seq<u8> { self@ }
    fn nth_byte(&self, i: usize) -> (r: u8) { self[i] }
    fn nbytes(&self) -> (r: usize) { self.len() }
}
impl<'a, X: AsBytes> AsBytes for &'a X {
    open spec fn asb(&self) -> Seq<u8> { (**self).asb() }
    fn nth_byte(&self, i: usize) -> (r: u8) { (**self).nth_byte(i) }
    fn nbytes(&self) -> (r: usize) { (**self).nbytes() }
}
impl<'a> AsBytes for &'a [u8] {
    open spec fn asb(&self) -> Seq<u8> { self@ }
    fn nth_byte(&self, i: usize) -> (r: u8) { self[i] }
    fn nbytes(&self) -> (r: usize) { self.len() }
}
impl<const N: usize> AsBytes for [u8; N] {
    open spec fn asb(&self) -> Seq<u8> { self@ }
    fn nth_byte(&self, i: usize) -> (r: u8) { self[i] }
    fn nbytes(&self) -> (r: usize) { N }
}
impl<X: AsBytes> VxExtend<X> for Vec<u8> {
    fn vx_extend(&mut self, x: X)
        ensures final(self)@ == old(self)@ + x.asb()
    {
        let ghost s0 = self@;
        let mut k: usize = 0;
        let n = x.nbytes();
        while k < n
            invariant k <= n, n == x.asb().len(), self@ =~= s0 + x.asb().take(k as int)
            decreases n - k
        { self.push(x.nth_byte(k)); k = k + 1; }
        assert(x.asb().take(n as int) =~= x.asb());
    }
}
pub trait VxToVec { spec fn tv(&self) -> Seq<u8>; fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.tv(); }
impl VxToVec for [u8] { open spec fn tv(&self) -> Seq<u8> { self@ }
    fn vx_to_vec(&self) -> (r: Vec<u8>) { let mut v = Vec::new(); v.vx_extend(self); assert(v@ =~= self@); v } }
impl<const N: usize> VxToVec for [u8; N] { open spec fn tv(&self) -> Seq<u8> { self@ }
    fn vx_to_vec(&self) -> (r: Vec<u8>) { let mut v = Vec::new(); v.vx_extend(self); assert(v@ =~= self@); v } }
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::reserve_exact] (v: &mut Vec<T, A>, additional: usize)
    ensures final(v)@ == old(v)@;
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
} // verus!
