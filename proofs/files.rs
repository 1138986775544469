//# include prelude.rs
//# rule a path stands for the file there: reading and writing go through it /&(?:std::path::)?Path\b/ => /&mut Path/
//# rule std::fs stands for the model of the file system /(?<![\w:])std::fs::/ => /fs::/
//# rule a cursor's vector, explicitly reborrowed /(\w*cursor)\.get_mut\(\)/ => /\1.vx_vec()/
//# rule the vector of a cursor that owns it /(\w*cursor)\.into_inner\(\)/ => /vx_into_inner(\1)/
verus! {
use crate::io::*;
// ===== the file system: one file, what is stored in it, and whether the storage can fail ==============================
/// what a path names: whether there is a file, and its content. `readable`: reading it never fails for reasons of the storage.
/// `storable`: neither does opening it for writing, truncating it and storing
pub struct Path { pub there: Ghost<bool>, pub c: Ghost<Seq<u8>>, pub readable: Ghost<bool>, pub storable: Ghost<bool> }
impl Path {
    /// (a file system that cannot tell counts as one without the file)
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r ==> self.there@, self.readable@ ==> r == self.there@ { unimplemented!() }
    #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r ==> self.there@, self.readable@ ==> r == self.there@ { unimplemented!() }
    #[verifier::external_body] pub fn try_exists(&self) -> (r: Result<bool, Error>) ensures r matches Ok(b) ==> b == self.there@, self.readable@ ==> r is Ok { unimplemented!() }
}
pub struct File<'a> { pub p: &'a mut Path, pub at: Ghost<int>, pub w: Ghost<bool>, pub append: Ghost<bool> }
/// an injection (these are finite objects), so that all of what reading leaves alone can be compared
pub uninterp spec fn code(lender: Path, place: Path, w: bool, append: bool) -> Seq<u8>;
#[verifier::external_body]
pub broadcast proof fn axiom_code(a: Path, b: Path, w: bool, ap: bool, a2: Path, b2: Path, w2: bool, ap2: bool)
    ensures (#[trigger] code(a, b, w, ap) == #[trigger] code(a2, b2, w2, ap2)) ==> a == a2 && b == b2 && w == w2 && ap == ap2 {}
pub open spec fn place(p: Path) -> Path { Path { c: Ghost(Seq::empty()), ..p } }
pub broadcast proof fn lemma_path(a: Path, b: Path) ensures (#[trigger] place(a) == #[trigger] place(b)) && a.c@ == b.c@ ==> a == b {}
impl<'a> Stream for File<'a> {
    open spec fn bytes(&self) -> Seq<u8> { self.p.c@ }
    open spec fn pos(&self) -> int { self.at@ }
    open spec fn faultless(&self) -> bool { self.p.readable@ && self.p.storable@ }
    open spec fn writable(&self) -> bool { self.w@ && !self.append@ }
    #[verifier::prophetic]
    open spec fn rest(&self) -> Seq<u8> { code(*final(self.p), place(*self.p), self.w@, self.append@) }
}
impl<'a> Read for File<'a> {
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>) { unimplemented!() }
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>)
        ensures old(self).p.readable@ ==> r is Ok, old(self).pos() == 0 && old(buf)@.len() == 0 && r is Ok ==> final(buf)@ == old(self).bytes() { unimplemented!() }
}
impl<'a> Seek for File<'a> {
    #[verifier::external_body] fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, Error>)
        ensures to matches SeekFrom::Start(n) && (old(self).p.readable@ || old(self).p.storable@) && n <= maxbuf() ==> r is Ok { unimplemented!() }
    #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64, Error>) { unimplemented!() }
}
impl<'a> Write for File<'a> {
    #[verifier::external_body] fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>)
        ensures old(self).w@ && old(self).p.storable@ ==> r is Ok, !old(self).w@ ==> r is Err && *final(self) == *old(self),
            old(self).append@ && r is Ok ==> final(self).bytes() == old(self).bytes() + buf@ { unimplemented!() }
    #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: Result<usize, Error>)
        ensures old(self).w@ && old(self).p.storable@ ==> r is Ok, !old(self).w@ ==> r is Err && *final(self) == *old(self),
            old(self).append@ && r is Ok ==> final(self).bytes() == old(self).bytes() + buf@.take(r->Ok_0 as int) { unimplemented!() }
}
pub open spec fn resized(s: Seq<u8>, n: int) -> Seq<u8> { if n <= s.len() { s.take(n) } else { s + Seq::new((n - s.len()) as nat, |i: int| 0u8) } }
pub broadcast proof fn lemma_stored(s: Seq<u8>, b: Seq<u8>) ensures #![trigger overwrite(s, 0, b)] resized(overwrite(s, 0, b), b.len() as int) == b, s.len() <= b.len() ==> overwrite(s, 0, b) == b {
    assert(resized(overwrite(s, 0, b), b.len() as int) =~= b); if s.len() <= b.len() { assert(overwrite(s, 0, b) =~= b); } }
pub open spec fn put(p: Path, s: Seq<u8>) -> Path { Path { c: Ghost(s), there: Ghost(true), ..p } }
/// nothing of the file but perhaps its content changed
pub open spec fn same_handle(a: File, b: File) -> bool { place(*a.p) == place(*b.p) && a.at == b.at && a.w == b.w && a.append == b.append }
impl<'a> File<'a> {
    #[verifier::external_body] pub fn set_len(&mut self, n: u64) -> (r: Result<(), Error>)
        ensures same_handle(*final(self), *old(self)), *final(final(self).p) == *final(old(self).p), old(self).w@ && old(self).p.storable@ && (n <= maxbuf() || n <= old(self).bytes().len()) ==> r is Ok,
            !old(self).w@ ==> r is Err && *final(self).p == *old(self).p, r is Ok ==> final(self).bytes() == resized(old(self).bytes(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn sync_all(&mut self) -> (r: Result<(), Error>) ensures *final(self) == *old(self), old(self).p.storable@ ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn sync_data(&mut self) -> (r: Result<(), Error>) ensures *final(self) == *old(self), old(self).p.storable@ ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn flush(&mut self) -> (r: Result<(), Error>) ensures *final(self) == *old(self), old(self).p.storable@ ==> r is Ok { unimplemented!() }
    #[verifier::external_body] pub fn open(p: &'a mut Path) -> (r: Result<File<'a>, Error>) ensures opened(Options { r: true, w: false, append: false, truncate: false, create: false, new: false }, *old(p), r, *final(p)) { unimplemented!() }
    #[verifier::external_body] pub fn create(p: &'a mut Path) -> (r: Result<File<'a>, Error>) ensures opened(Options { r: false, w: true, append: false, truncate: true, create: true, new: false }, *old(p), r, *final(p)) { unimplemented!() }
    pub fn options() -> (r: OpenOptions) ensures r.o@ == none() { OpenOptions::new() }
}
pub struct Options { pub r: bool, pub w: bool, pub append: bool, pub truncate: bool, pub create: bool, pub new: bool }
pub open spec fn none() -> Options { Options { r: false, w: false, append: false, truncate: false, create: false, new: false } }
pub struct OpenOptions { pub o: Ghost<Options> }
/// what opening a file does: `a` the file before; the handle's borrow ends with the file as `z`
#[verifier::prophetic]
pub open spec fn opened(o: Options, a: Path, r: Result<File, Error>, z: Path) -> bool {
    let usable = (o.r || o.w || o.append) && (if o.w && !o.append { true } else { !o.truncate && !(o.append && o.truncate) && (o.append || !(o.create || o.new)) });
    match r {
        Ok(f) => {
            &&& usable && !(o.new && a.there@) && (a.there@ || ((o.w || o.append) && (o.create || o.new)))
            &&& *final(f.p) == z && *f.p == put(a, if !a.there@ || (o.truncate && !o.append) { Seq::empty() } else { a.c@ })
            &&& f.at@ == 0 && f.w@ == (o.w || o.append) && f.append@ == o.append
        },
        Err(_) => {
            &&& z == a
            &&& a.there@ && usable && !o.new && (o.w || o.append ==> a.storable@) && (o.r ==> a.readable@) ==> false
        },
    }
}
impl OpenOptions {
    #[verifier::external_body] pub fn new() -> (r: OpenOptions) ensures r.o@ == none() { unimplemented!() }
    #[verifier::external_body] pub fn read(self, v: bool) -> (r: OpenOptions) ensures r.o@ == (Options { r: v, ..self.o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn write(self, v: bool) -> (r: OpenOptions) ensures r.o@ == (Options { w: v, ..self.o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn append(self, v: bool) -> (r: OpenOptions) ensures r.o@ == (Options { append: v, ..self.o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn truncate(self, v: bool) -> (r: OpenOptions) ensures r.o@ == (Options { truncate: v, ..self.o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn create(self, v: bool) -> (r: OpenOptions) ensures r.o@ == (Options { create: v, ..self.o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn create_new(self, v: bool) -> (r: OpenOptions) ensures r.o@ == (Options { new: v, ..self.o@ }) { unimplemented!() }
    #[verifier::external_body] pub fn open<'a>(self, p: &'a mut Path) -> (r: Result<File<'a>, Error>) ensures opened(self.o@, *old(p), r, *final(p)) { unimplemented!() }
}
pub mod fs { use super::*;
    pub use super::File; pub use super::OpenOptions;
    #[verifier::external_body] pub fn read(p: &Path) -> (r: Result<Vec<u8>, Error>)
        ensures r matches Ok(v) ==> p.there@ && v@ == p.c@, p.there@ && p.readable@ ==> r is Ok { unimplemented!() }
    /// (it cuts the file off before it stores)
    #[verifier::external_body] pub fn write(p: &mut Path, b: &Vec<u8>) -> (r: Result<(), Error>)
        ensures r is Ok ==> *final(p) == put(*old(p), b@), place(*final(p)) == place(*old(p)) || place(*final(p)) == place(put(*old(p), b@)), old(p).there@ && old(p).storable@ ==> r is Ok { unimplemented!() }
}
/// a reader that reads ahead
pub struct BufReader<R> { pub inner: R }
impl<R: Read> BufReader<R> { pub fn new(inner: R) -> (r: BufReader<R>) ensures r.inner == inner { BufReader { inner } } }
impl<R: Read> Stream for BufReader<R> {
    open spec fn bytes(&self) -> Seq<u8> { self.inner.bytes() }
    open spec fn pos(&self) -> int { self.inner.pos() }
    open spec fn faultless(&self) -> bool { self.inner.faultless() }
    open spec fn writable(&self) -> bool { self.inner.writable() }
    #[verifier::prophetic]
    open spec fn rest(&self) -> Seq<u8> { self.inner.rest() }
}
impl<R: Read> Read for BufReader<R> {
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, Error>) { self.inner.read(buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), Error>) { self.inner.read_exact(buf) }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, Error>) { self.inner.read_to_end(buf) }
}
impl<R: Read + Seek> Seek for BufReader<R> {
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, Error>) { self.inner.seek(to) }
    fn stream_position(&mut self) -> (r: Result<u64, Error>) { self.inner.stream_position() }
}
impl<'a> Bytes for &'a [u8] {
    open spec fn content(&self) -> Seq<u8> { (**self)@ }
    #[verifier::prophetic]
    open spec fn lender(&self) -> Seq<u8> { Seq::empty() }
    #[verifier::external_body] fn as_vec(&self) -> (r: &Vec<u8>) { unimplemented!() }
}
impl Write for Cursor<Vec<u8>> {
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), Error>) { let mut c = Cursor { inner: &mut self.inner, p: self.p }; let r = c.write_all(buf); let q = c.p; self.p = q; r }
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, Error>) { let mut c = Cursor { inner: &mut self.inner, p: self.p }; let r = c.write(buf); let q = c.p; self.p = q; r }
}
pub trait VxOwner { fn vx_vec(&mut self) -> (r: &mut Vec<u8>); }
impl<'b> VxOwner for Cursor<&'b mut Vec<u8>> {
    fn vx_vec(&mut self) -> (r: &mut Vec<u8>) ensures r@ == old(self).inner@, final(r)@ == final(self).inner@, final(self).p == old(self).p, *final(final(self).inner) == *final(old(self).inner) { &mut *self.inner }
}
impl VxOwner for Cursor<Vec<u8>> {
    fn vx_vec(&mut self) -> (r: &mut Vec<u8>) ensures r@ == old(self).inner@, final(r)@ == final(self).inner@, final(self).p == old(self).p { &mut self.inner }
}
pub fn vx_into_inner(c: Cursor<Vec<u8>>) -> (r: Vec<u8>) ensures r == c.inner { c.inner }

// ===== what the operations do to bytes in memory: any functions of their arguments here ==============================
#[verifier::external_body] pub struct Metadata { x: u8 }
pub struct Effect { pub ok: bool, pub b: Seq<u8> }
pub open spec fn did(e: Effect, r: Result<(), Error>, b: Seq<u8>) -> bool { (r is Ok <==> e.ok) && (e.ok ==> b == e.b) }
/// THE CLAIM for changing operations: on the file at p exactly what the operation in memory does to its content; the old content
/// stays whenever an error is returned, unless the storage itself failed
pub open spec fn on_file(a: Path, e: Effect, r: Result<(), Error>, z: Path) -> bool {
    &&& !a.there@ ==> r is Err && z == a
    &&& a.there@ && r is Ok ==> e.ok && z == put(a, e.b)
    &&& r is Err && (a.storable@ || !e.ok) ==> z == a
    &&& a.there@ && a.readable@ && a.storable@ ==> (r is Ok <==> e.ok)
    &&& r is Err ==> place(z) == place(a)
}
/// and for reading ones: the file stays, and the result is that in memory
pub open spec fn from_file(a: Path, e: Option<Seq<u8>>, r: Result<Vec<u8>, Error>, z: Path) -> bool {
    &&& z == a
    &&& r matches Ok(v) ==> a.there@ && e == Some(v@)
    &&& a.there@ && a.readable@ && a.storable@ && r is Err ==> e is None
}
pub open spec fn res(e: Option<Seq<u8>>, r: Result<Vec<u8>, Error>) -> bool { match r { Ok(v) => e == Some(v@), Err(_) => e is None } }
#[verifier::prophetic]
pub open spec fn scanned<S: Stream>(a: &S, e: Option<Seq<u8>>, r: Result<Vec<u8>, Error>, z: &S) -> bool { kept(a, z) && (r matches Ok(v) ==> e == Some(v@)) && (a.faultless() && r is Err ==> e is None) }

pub use general_file_io::*;
pub mod general_file_io { use super::*;
//# fn src/general_file_io.rs open_read_file -> r
//# spec
    ensures match r {
        Ok(f) => old(path).there@ && *f.p == *old(path) && *final(f.p) == *final(path) && f.at@ == 0 && !f.w@ && !f.append@,
        Err(_) => *final(path) == *old(path) && !(old(path).there@ && old(path).readable@) }
//# end
//# fn src/general_file_io.rs open_write_file -> r
//# spec
    ensures match r {
        Ok(f) => old(path).there@ && *f.p == *old(path) && *final(f.p) == *final(path) && f.at@ == 0 && f.w@ && !f.append@,
        Err(_) => *final(path) == *old(path) && !(old(path).there@ && old(path).readable@ && old(path).storable@) }
//# end
}
//# item src/general_file_io.rs const EXIF_HEADER
pub mod jpg { use super::*;
    pub uninterp spec fn segment(a: Seq<u8>, marker: u8, prefix: Option<Seq<u8>>) -> Effect;
    pub uninterp spec fn written(a: Seq<u8>, m: &Metadata) -> Effect;
    pub uninterp spec fn scan(b: Seq<u8>, at: int) -> Option<Seq<u8>>;
    pub open spec fn vp(p: Option<&[u8]>) -> Option<Seq<u8>> { match p { Some(x) => Some(x@), None => None } }
    #[verifier::external_body] pub fn clear_segment(b: &mut Vec<u8>, segment_marker: u8, prefix: Option<&[u8]>) -> (r: Result<(), Error>) ensures did(segment(old(b)@, segment_marker, vp(prefix)), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), Error>) ensures did(written(old(b)@, m), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn generic_read_metadata<T: Seek + Read>(cursor: &mut T) -> (r: Result<Vec<u8>, Error>) ensures scanned(old(cursor), scan(old(cursor).bytes(), old(cursor).pos()), r, final(cursor)) { unimplemented!() }
//# item src/jpg.rs const JPG_SIGNATURE
    pub open spec fn sig(b: Seq<u8>) -> bool { b.len() >= 2 && b[0] == 0xff && b[1] == 0xd8 }
    pub open spec fn read_of(b: Seq<u8>) -> Option<Seq<u8>> { if sig(b) { scan(b, 2) } else { None } }
    pub open spec fn cleared(a: Seq<u8>) -> Effect { segment(a, 0xe1, Some(EXIF_HEADER@)) }
    #[verifier::external_body] pub fn check_signature(b: &[u8]) -> (r: Result<(), Error>) ensures r is Ok <==> sig(b@) { unimplemented!() }   // proved in the unit jpg
//# fn src/jpg.rs file_check_signature -> r
//# spec
    ensures match r {
        Ok(f) => old(path).there@ && sig(old(path).c@) && *f.p == *old(path) && *final(f.p) == *final(path) && f.at@ == 2,
        Err(_) => *final(path) == *old(path) && (old(path).there@ && old(path).readable@ && old(path).storable@ ==> !sig(old(path).c@)) }
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/jpg.rs clear_metadata -> r
//# spec
    ensures did(cleared(old(file_buffer)@), r, final(file_buffer)@)
//# end
//# fn src/jpg.rs file_clear_segment -> r
//# spec
    ensures on_file(*old(path), segment(old(path).c@, segment_marker, vp(prefix_bytes)), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/jpg.rs file_clear_metadata -> r
//# spec
    ensures on_file(*old(path), cleared(old(path).c@), r, *final(path))
//# end
//# fn src/jpg.rs file_write_metadata -> r
//# spec
    ensures on_file(*old(path), written(old(path).c@, metadata), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/jpg.rs read_metadata -> r
//# spec
    ensures res(read_of(file_buffer@), r)
//# end
//# fn src/jpg.rs file_read_metadata -> r
//# spec
    ensures from_file(*old(path), read_of(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
}
pub mod jxl { use super::*;
    pub uninterp spec fn cleared(a: Seq<u8>) -> Effect;
    pub uninterp spec fn written(a: Seq<u8>, m: &Metadata) -> Effect;
    pub uninterp spec fn scan(b: Seq<u8>, at: int) -> Option<Seq<u8>>;
//# item src/jxl.rs const JXL_SIGNATURE
//# item src/jxl.rs const ISO_BMFF_JXL_SIGNATURE
    pub open spec fn sig(b: Seq<u8>) -> bool { !JXL_SIGNATURE@.is_prefix_of(b) && ISO_BMFF_JXL_SIGNATURE@.is_prefix_of(b) }
    /// starting behind the signature box finds the same (lemma_signature_box, proved in the unit jxl)
    #[verifier::external_body] pub broadcast proof fn fact_scan(b: Seq<u8>) ensures sig(b) ==> #[trigger] scan(b, 12) == scan(b, 0) {}
    pub open spec fn read_of(b: Seq<u8>) -> Option<Seq<u8>> { if sig(b) { scan(b, 0) } else { None } }
    #[verifier::external_body] pub fn check_signature(b: &[u8]) -> (r: Result<(), Error>) ensures r is Ok <==> sig(b@) { unimplemented!() }   // proved in the unit jxl
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), Error>) ensures did(cleared(old(b)@), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), Error>) ensures did(written(old(b)@, m), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn generic_read_metadata<T: Seek + Read>(cursor: &mut T) -> (r: Result<Vec<u8>, Error>) ensures scanned(old(cursor), scan(old(cursor).bytes(), old(cursor).pos()), r, final(cursor)) { unimplemented!() }
//# fn src/jxl.rs file_clear_metadata -> r
//# spec
    ensures on_file(*old(path), cleared(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/jxl.rs file_write_metadata -> r
//# spec
    ensures on_file(*old(path), written(old(path).c@, metadata), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/jxl.rs read_metadata -> r
//# spec
    ensures res(read_of(file_buffer@), r)
//# end
//# fn src/jxl.rs file_read_metadata -> r
//# spec
    ensures from_file(*old(path), read_of(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, fact_scan};
    let ghost c0 = path.c@;
//# before /check_signature\(/
    proof { assert(first_12_bytes@ =~= c0.take(12)); assert(JXL_SIGNATURE@.len() == 2 && ISO_BMFF_JXL_SIGNATURE@.len() == 12);
        assert forall|p: Seq<u8>| p.len() <= 12 implies (#[trigger] p.is_prefix_of(c0) <==> p.is_prefix_of(c0.take(12))) by {
            if p.is_prefix_of(c0) { assert(p =~= c0.take(12).take(p.len() as int)); } if p.is_prefix_of(c0.take(12)) { assert(c0.take(12).take(p.len() as int) =~= c0.take(p.len() as int)); } } }
//# end
}
pub mod png { use super::*;
    pub struct PngChunk { x: u8 }
    pub uninterp spec fn cleared(a: Seq<u8>) -> Effect;
    pub uninterp spec fn written(a: Seq<u8>, m: &Metadata) -> Effect;
    pub uninterp spec fn parse(b: Seq<u8>, at: int) -> Option<Seq<PngChunk>>;
    pub uninterp spec fn scan(b: Seq<u8>, at: int, l: Seq<PngChunk>) -> Option<Seq<u8>>;
//# item src/png/mod.rs const PNG_SIGNATURE
    pub open spec fn sig(b: Seq<u8>) -> bool { PNG_SIGNATURE@.is_prefix_of(b) }
    pub open spec fn read_of(b: Seq<u8>) -> Option<Seq<u8>> { if sig(b) && parse(b, 8) is Some { scan(b, 8, parse(b, 8)->0) } else { None } }
    /// proved in the unit png
    #[verifier::external_body] pub fn check_signature(b: &Vec<u8>) -> (r: Result<Cursor<&Vec<u8>>, Error>) ensures r is Ok <==> sig(b@), r matches Ok(c) ==> c.inner == b && c.p == 8 { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), Error>) ensures did(cleared(old(b)@), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), Error>) ensures did(written(old(b)@, m), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn generic_parse_png<T: Seek + Read>(cursor: &mut T) -> (r: Result<Vec<PngChunk>, Error>)
        ensures kept(old(cursor), final(cursor)), r matches Ok(v) ==> parse(old(cursor).bytes(), old(cursor).pos()) == Some(v@), old(cursor).faultless() && r is Err ==> parse(old(cursor).bytes(), old(cursor).pos()) is None { unimplemented!() }
    #[verifier::external_body] pub fn generic_read_metadata<T: Seek + Read>(cursor: &mut T, l: &Vec<PngChunk>) -> (r: Result<Vec<u8>, Error>) ensures scanned(old(cursor), scan(old(cursor).bytes(), old(cursor).pos(), l@), r, final(cursor)) { unimplemented!() }
//# fn src/png/mod.rs file_check_signature -> r
//# spec
    ensures match r {
        Ok(f) => old(path).there@ && sig(old(path).c@) && *f.p == *old(path) && *final(f.p) == *final(path) && f.at@ == 8,
        Err(_) => *final(path) == *old(path) && (old(path).there@ && old(path).readable@ && old(path).storable@ ==> !sig(old(path).c@)) }
//# begin
    broadcast use {axiom_code, lemma_path};
    let ghost c0 = path.c@;
//# before /check_signature\(/
    proof { assert(signature_buffer@ =~= c0.take(8)); assert(PNG_SIGNATURE@.is_prefix_of(c0) <==> PNG_SIGNATURE@.is_prefix_of(c0.take(8))) by {
        if PNG_SIGNATURE@.is_prefix_of(c0) { assert(c0.take(8) =~= PNG_SIGNATURE@); } if PNG_SIGNATURE@.is_prefix_of(c0.take(8)) { assert(c0.take(8).take(8) =~= c0.take(8)); } } }
//# end
//# fn src/png/mod.rs vec_parse_png -> r
//# spec
    ensures r matches Ok(v) ==> sig(file_buffer@) && parse(file_buffer@, 8) == Some(v@), r is Err ==> !sig(file_buffer@) || parse(file_buffer@, 8) is None
//# end
//# fn src/png/mod.rs file_parse_png -> r
//# spec
    ensures *final(path) == *old(path), r matches Ok(v) ==> old(path).there@ && sig(old(path).c@) && parse(old(path).c@, 8) == Some(v@),
        old(path).there@ && old(path).readable@ && old(path).storable@ && r is Err ==> !sig(old(path).c@) || parse(old(path).c@, 8) is None
//# begin
    broadcast use {axiom_code, lemma_path};
//# end
//# fn src/png/mod.rs read_metadata -> r
//# spec
    ensures res(read_of(file_buffer@), r)
//# end
//# fn src/png/mod.rs file_read_metadata -> r
//# spec
    ensures from_file(*old(path), read_of(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path};
//# end
//# fn src/png/mod.rs file_clear_metadata -> r
//# spec
    ensures on_file(*old(path), cleared(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/png/mod.rs file_write_metadata -> r
//# spec
    ensures on_file(*old(path), written(old(path).c@, metadata), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
}
pub mod webp { use super::*;
    pub uninterp spec fn cleared(a: Seq<u8>) -> Effect;
    pub uninterp spec fn written(a: Seq<u8>, m: &Metadata) -> Effect;
    pub uninterp spec fn read_of(b: Seq<u8>) -> Option<Seq<u8>>;
pub mod vec { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, Error>) ensures res(read_of(b@), r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), Error>) ensures did(cleared(old(b)@), r, final(b)@) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), Error>) ensures did(written(old(b)@, m), r, final(b)@) { unimplemented!() }
}
pub mod file { use super::*;
//# fn src/webp/file.rs read_metadata -> r
//# spec
    ensures from_file(*old(path), read_of(old(path).c@), r, *final(path))
//# end
//# fn src/webp/file.rs clear_metadata -> r
//# spec
    ensures on_file(*old(path), cleared(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/webp/file.rs write_metadata -> r
//# spec
    ensures on_file(*old(path), written(old(path).c@, metadata), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
}
}
impl Metadata {
    pub uninterp spec fn encoding(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn decoded(x: Option<Seq<u8>>) -> Option<Metadata>;
    pub uninterp spec fn reduced(&self) -> Metadata;
    #[verifier::external_body] pub fn encode(&self) -> (r: Result<Vec<u8>, Error>) ensures r is Ok <==> self.encoding() is Some, r matches Ok(v) ==> self.encoding() == Some(v@) { unimplemented!() }
    #[verifier::external_body] pub fn general_decoding_wrapper(x: Result<Vec<u8>, Error>) -> (r: Result<Metadata, Error>)
        ensures r is Ok <==> Self::decoded(match x { Ok(v) => Some(v@), Err(_) => None }) is Some, r matches Ok(m) ==> Self::decoded(match x { Ok(v) => Some(v@), Err(_) => None }) == Some(m), x is Err ==> r is Err { unimplemented!() }
    #[verifier::external_body] pub fn reduce_to_a_minimum(&mut self) ensures *final(self) == old(self).reduced() { unimplemented!() }
}
pub mod tiff { use super::*;
    pub uninterp spec fn required(m: &Metadata) -> bool;
    /// what it claims is decided with P15
    #[verifier::external_body] pub fn check_for_required_tags(m: &Metadata) -> (r: Result<(), Error>) ensures r is Ok <==> required(m) { unimplemented!() }
    pub open spec fn written(m: &Metadata) -> Effect { Effect { ok: required(m) && m.encoding() is Some, b: m.encoding()->0 } }
    pub open spec fn read_of(b: Seq<u8>) -> Option<Seq<u8>> { Some(EXIF_HEADER@ + b) }
    pub open spec fn cleared(a: Seq<u8>) -> Effect { match Metadata::decoded(read_of(a)) { None => Effect { ok: false, b: a }, Some(m) => written(&m.reduced()) } }
//# fn src/tiff/mod.rs generic_write_metadata -> r
//# spec
    requires old(cursor).bytes().len() == 0, old(cursor).pos() == 0, old(cursor).faultless() && old(cursor).writable()
    ensures did(written(metadata), r, final(cursor).bytes()), final(cursor).rest() == old(cursor).rest()
//# begin
    broadcast use lemma_stored;
//# end
//# fn src/tiff/mod.rs generic_read_metadata -> r
//# spec
    ensures kept(old(cursor), final(cursor)), old(cursor).pos() == 0 ==> scanned(old(cursor), read_of(old(cursor).bytes()), r, final(cursor))
//# before /return Ok/
    proof { assert(tiff_with_exif_header@ =~= EXIF_HEADER@ + (if cursor.pos() == old(cursor).pos() { Seq::empty() } else { old(cursor).bytes().subrange(old(cursor).pos(), cursor.pos()) }));
        if old(cursor).pos() == 0 { assert(tiff_with_exif_header@ =~= EXIF_HEADER@ + old(cursor).bytes()); } }
//# end
pub mod vec { use super::*;
//# fn src/tiff/vec.rs read_metadata -> r
//# spec
    ensures res(read_of(file_buffer@), r)
//# end
//# fn src/tiff/vec.rs clear_metadata -> r
//# spec
    ensures did(cleared(old(file_buffer)@), r, final(file_buffer)@)
//# end
//# fn src/tiff/vec.rs write_metadata -> r
//# spec
    ensures did(written(metadata), r, final(file_buffer)@)
//# end
}
pub mod file { use super::*;
//# fn src/tiff/file.rs read_metadata -> r
//# spec
    ensures from_file(*old(path), read_of(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path};
//# end
//# fn src/tiff/file.rs clear_metadata -> r
//# spec
    ensures on_file(*old(path), cleared(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path};
//# end
//# fn src/tiff/file.rs write_metadata -> r
//# spec
    ensures on_file(*old(path), written(metadata), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
}
}
pub mod heif { use super::*;
    pub struct HeifContainer { x: u8 }
    pub uninterp spec fn parsed(b: Seq<u8>, at: int) -> Option<HeifContainer>;
    pub uninterp spec fn exif(c: HeifContainer, b: Seq<u8>) -> Option<Seq<u8>>;
    pub uninterp spec fn put_in(c: HeifContainer, b: Seq<u8>, m: &Metadata) -> Effect;
    pub uninterp spec fn taken_out(c: HeifContainer, b: Seq<u8>) -> Effect;
    impl HeifContainer {
        #[verifier::external_body] pub fn construct_from_cursor_unboxed<T: Seek + Read>(cursor: &mut T) -> (r: Result<HeifContainer, Error>)
            ensures kept(old(cursor), final(cursor)), r matches Ok(c) ==> parsed(old(cursor).bytes(), old(cursor).pos()) == Some(c), old(cursor).faultless() && r is Err ==> parsed(old(cursor).bytes(), old(cursor).pos()) is None { unimplemented!() }
        #[verifier::external_body] pub fn get_exif_data<T: Seek + Read>(&self, cursor: &mut T) -> (r: Result<Vec<u8>, Error>) ensures scanned(old(cursor), exif(*self, old(cursor).bytes()), r, final(cursor)) { unimplemented!() }
        #[verifier::external_body] pub fn generic_write_metadata(&mut self, b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), Error>) ensures did(put_in(*old(self), old(b)@, m), r, final(b)@) { unimplemented!() }
        #[verifier::external_body] pub fn generic_clear_metadata(&mut self, b: &mut Vec<u8>) -> (r: Result<(), Error>) ensures did(taken_out(*old(self), old(b)@), r, final(b)@) { unimplemented!() }
    }
    pub open spec fn read_of(b: Seq<u8>) -> Option<Seq<u8>> { match parsed(b, 0) { None => None, Some(c) => exif(c, b) } }
    pub open spec fn written(a: Seq<u8>, m: &Metadata) -> Effect { match parsed(a, 0) { None => Effect { ok: false, b: a }, Some(c) => put_in(c, a, m) } }
    pub open spec fn cleared(a: Seq<u8>) -> Effect { match parsed(a, 0) { None => Effect { ok: false, b: a }, Some(c) => taken_out(c, a) } }
//# fn src/heif/mod.rs generic_read_metadata -> r
//# spec
    ensures kept(old(cursor), final(cursor)), old(cursor).pos() == 0 ==> scanned(old(cursor), read_of(old(cursor).bytes()), r, final(cursor))
//# end
//# fn src/heif/mod.rs read_metadata -> r
//# spec
    ensures res(read_of(file_buffer@), r)
//# end
//# fn src/heif/mod.rs file_read_metadata -> r
//# spec
    ensures from_file(*old(path), read_of(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path};
//# end
//# fn src/heif/mod.rs write_metadata -> r
//# spec
    ensures did(written(old(file_buffer)@, metadata), r, final(file_buffer)@)
//# end
//# fn src/heif/mod.rs file_write_metadata -> r
//# spec
    ensures on_file(*old(path), written(old(path).c@, metadata), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
//# fn src/heif/mod.rs clear_metadata -> r
//# spec
    ensures did(cleared(old(file_buffer)@), r, final(file_buffer)@)
//# end
//# fn src/heif/mod.rs file_clear_metadata -> r
//# spec
    ensures on_file(*old(path), cleared(old(path).c@), r, *final(path))
//# begin
    broadcast use {axiom_code, lemma_path, lemma_stored};
//# end
}
fn main() {}
}
