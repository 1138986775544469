#[derive(Clone, Copy)]
//# item src/filetype.rs enum FileExtension
impl vstd::std_specs::cmp::PartialEqSpecImpl for FileExtension { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FileExtension) -> bool { *self == *o } }
impl PartialEq for FileExtension { #[verifier::external_body] fn eq(&self, o: &FileExtension) -> bool { unimplemented!() } }   // derived
/// a format, written down from the property
pub enum K { PNG, JPEG, JXL, NAKED, TIFF, WEBP, HEIF }
pub open spec fn kind(t: FileExtension) -> K { match t { FileExtension::PNG { .. } => K::PNG, FileExtension::JPEG => K::JPEG, FileExtension::JXL => K::JXL, FileExtension::NAKED_JXL => K::NAKED, FileExtension::TIFF => K::TIFF, FileExtension::WEBP => K::WEBP, FileExtension::HEIF => K::HEIF } }
pub open spec fn opt_kind(t: Option<FileExtension>) -> Option<K> { match t { Some(x) => Some(kind(x)), None => None } }
pub open spec fn starts(b: Seq<u8>, at: int, p: Seq<u8>) -> bool { b.len() >= at + p.len() && forall|i: int| 0 <= i < p.len() ==> b[at + i] == #[trigger] p[i] }
/// which format the leading bytes denote
pub open spec fn signature(b: Seq<u8>) -> Option<K> {
    if b.len() < 4 { None }
    else if starts(b, 0, seq![0x89, 0x50, 0x4e, 0x47]) { Some(K::PNG) }
    else if starts(b, 0, seq![0xff, 0xd8]) { Some(K::JPEG) }
    else if starts(b, 0, seq![0x49, 0x49, 0x2a, 0]) || starts(b, 0, seq![0x4d, 0x4d, 0, 0x2a]) { Some(K::TIFF) }
    else if starts(b, 0, seq![0x52, 0x49, 0x46, 0x46]) && starts(b, 8, seq![0x57, 0x45, 0x42, 0x50]) { Some(K::WEBP) }
    else if starts(b, 0, seq![0xff, 0x0a]) { Some(K::NAKED) }
    else if starts(b, 0, seq![0, 0, 0, 0x0c, 0x4a, 0x58, 0x4c, 0x20, 0x0d, 0x0a, 0x87, 0x0a]) { Some(K::JXL) }
    else if starts(b, 4, seq![0x66, 0x74, 0x79, 0x70]) && (starts(b, 8, seq![0x68, 0x65, 0x69, 0x63]) || starts(b, 8, seq![0x68, 0x65, 0x69, 0x66]) || starts(b, 8, seq![0x61, 0x76, 0x69, 0x66])) { Some(K::HEIF) }
    else { None }
}
/// which format a lower-case extension denotes
pub open spec fn by_name(n: Seq<u8>) -> Option<K> {
    if n == seq![0x70u8, 0x6e, 0x67] { Some(K::PNG) }                                                   // png
    else if n == seq![0x6au8, 0x70, 0x67] || n == seq![0x6au8, 0x70, 0x65, 0x67] { Some(K::JPEG) }      // jpg jpeg
    else if n == seq![0x6au8, 0x78, 0x6c] { Some(K::JXL) }                                              // jxl
    else if n == seq![0x74u8, 0x69, 0x66] || n == seq![0x74u8, 0x69, 0x66, 0x66] { Some(K::TIFF) }      // tif tiff
    else if n == seq![0x77u8, 0x65, 0x62, 0x70] { Some(K::WEBP) }                                       // webp
    else if n == seq![0x68u8, 0x65, 0x69, 0x66] || n == seq![0x68u8, 0x69, 0x66] || n == seq![0x68u8, 0x65, 0x69, 0x63] || n == seq![0x61u8, 0x76, 0x69, 0x66] { Some(K::HEIF) }   // heif hif heic avif
    else { None }
}
/// str::to_lowercase: of ASCII text, every letter's lower case
pub uninterp spec fn lower(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub proof fn fact_lower(s: Seq<u8>)
    ensures lower(lower(s)) == lower(s), (forall|i: int| 0 <= i < s.len() ==> s[i] < 0x80) ==> lower(s).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] lower(s)[i] == (if 0x41 <= s[i] <= 0x5a { (s[i] + 0x20) as u8 } else { s[i] }) {}
impl VxString {
    #[verifier::external_body] pub fn to_lowercase(&self) -> (r: VxString) ensures r.b@ == lower(self.b@), lower(lower(self.b@)) == lower(self.b@) { unimplemented!() }
    pub fn is_lit(&self, a: &[u8; 3]) -> (r: bool) ensures r == (self.b@ == seq![a[0], a[1], a[2]]) {
        let r = self.b.len() == 3 && self.b[0] == a[0] && self.b[1] == a[1] && self.b[2] == a[2];
        proof { if r { assert(self.b@ =~= seq![a[0], a[1], a[2]]); } }
        r
    }
}
pub trait VxUnsupported<T> { fn vx_unsupported(self) -> (r: Result<T, io::Error>); }
impl<T> VxUnsupported<T> for Result<T, io::Error> {
    fn vx_unsupported(self) -> (r: Result<T, io::Error>)
        ensures self matches Ok(t) ==> r == Ok::<T, io::Error>(t), self is Err ==> r is Err && r->Err_0.k == io::ErrorKind::Unsupported
    { match self { Ok(t) => Ok(t), Err(_) => Err(io::Error { k: io::ErrorKind::Unsupported }) } }
}
/// Read::read into an array
#[verifier::external_body]
pub fn vx_read32<T: io::Seek + io::Read>(c: &mut T, buf: &mut [u8; 32]) -> (r: Result<usize, io::Error>)
    ensures r matches Ok(n) ==> {
            &&& n <= 32 && n <= io::avail(old(c).bytes().len() as int, old(c).pos())
            &&& forall|i: int| 0 <= i < n ==> final(buf)@[i] == old(c).bytes()[old(c).pos() + i]
            &&& forall|i: int| n <= i < 32 ==> final(buf)@[i] == old(buf)@[i]
            &&& old(c).faultless() ==> n == 32 || n == io::avail(old(c).bytes().len() as int, old(c).pos())
        }, old(c).faultless() ==> r is Ok
{ unimplemented!() }
