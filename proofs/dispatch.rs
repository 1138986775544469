//# include prelude.rs
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule &str -> byte-string model /&str\b/ => /&VxString/
//# rule std::path::Path stands for the prelude's type /\bstd::path::Path\b/ => /Path/
//# rule imports are flattened /(?<![\w:])ErrorKind::/ => /io::ErrorKind::/
//# rule io::Error as the associated error type /\bSelf::Err\b/ => /io::Error/
//# rule closure that only words an error -> contract-bearing /\.map_err\(\|e\|\s*\{\s*io::Error::new\(\s*io::ErrorKind::Unsupported,(?:[^;{}]|\{\w+\})*\)\s*\}\s*\)/ => /.vx_unsupported()/
//# rule read into an array -> contract-bearing /cursor\.read\(&mut buffer\)/ => /vx_read32(cursor, &mut buffer)/
verus! {
use crate::io::*;
//# helpers
//# include strings.rs
//# include filetypes.rs
// ---- the readers and writers of the formats: any functions of their arguments here ----
pub struct VxFile { x: u8 }
pub struct Path { x: u8 }
impl Path {
    pub uninterp spec fn existing(&self) -> Result<bool, io::Error>;   // what the file system answers
    pub uninterp spec fn ext(&self) -> Option<Option<Seq<u8>>>;         // the extension, and its text if it is UTF-8
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn try_exists(&self) -> (r: Result<bool, io::Error>) ensures r == self.existing() { unimplemented!() }
    #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures match self.ext() { None => r is None, Some(t) => r matches Some(o) && o.text() == t } { unimplemented!() }
}
pub struct OsStr { x: u8 }
impl OsStr {
    pub uninterp spec fn text(&self) -> Option<Seq<u8>>;
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&VxString>) ensures match self.text() { None => r is None, Some(t) => r matches Some(s) && s.b@ == t } { unimplemented!() }
}
impl io::Stream for VxFile {
    uninterp spec fn bytes(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> int;
    open spec fn faultless(&self) -> bool { true }
    open spec fn writable(&self) -> bool { false }
    #[verifier::prophetic] uninterp spec fn rest(&self) -> Seq<u8>;
}
impl io::Read for VxFile {
    #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), io::Error>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>) { unimplemented!() }
}
impl io::Seek for VxFile {
    #[verifier::external_body] fn seek(&mut self, to: io::SeekFrom) -> (r: Result<u64, io::Error>) { unimplemented!() }
    #[verifier::external_body] fn stream_position(&mut self) -> (r: Result<u64, io::Error>) { unimplemented!() }
}
#[verifier::external_body] pub fn open_read_file(path: &Path) -> (r: Result<VxFile, io::Error>) ensures r matches Ok(f) ==> f.bytes() == path.content() && f.pos() == 0 { unimplemented!() }
#[verifier::external_body] pub struct Metadata { x: u8 }
pub uninterp spec fn vec_read(k: K, b: Seq<u8>, r: Result<Vec<u8>, io::Error>) -> bool;
pub uninterp spec fn path_read(k: K, p: &Path, r: Result<Vec<u8>, io::Error>) -> bool;
pub uninterp spec fn vec_clear(k: K, a: Seq<u8>, b: Seq<u8>, r: Result<(), io::Error>) -> bool;
pub uninterp spec fn path_clear(k: K, p: &Path, r: Result<(), io::Error>) -> bool;
pub uninterp spec fn vec_write(k: K, a: Seq<u8>, m: &Metadata, b: Seq<u8>, r: Result<(), io::Error>) -> bool;
pub uninterp spec fn path_write(k: K, p: &Path, m: &Metadata, r: Result<(), io::Error>) -> bool;
pub uninterp spec fn vec_segment(marker: u8, a: Seq<u8>, b: Seq<u8>, r: Result<(), io::Error>) -> bool;
pub uninterp spec fn path_segment(marker: u8, p: &Path, r: Result<(), io::Error>) -> bool;
pub uninterp spec fn wrapped(k: K, zip: bool, b: Seq<u8>, r: Seq<u8>) -> bool;
pub open spec fn named(p: &Path) -> Option<K> { match p.ext() { Some(Some(x)) => by_name(lower(x)), _ => None } }
pub uninterp spec fn decoded(x: Result<Vec<u8>, io::Error>, r: Result<Metadata, io::Error>) -> bool;
pub mod heif { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures vec_read(K::HEIF, b@, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), io::Error>) ensures vec_clear(K::HEIF, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), io::Error>) ensures vec_write(K::HEIF, old(b)@, m, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_read_metadata(p: &Path) -> (r: Result<Vec<u8>, io::Error>) ensures path_read(K::HEIF, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_clear_metadata(p: &Path) -> (r: Result<(), io::Error>) ensures path_clear(K::HEIF, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_write_metadata(p: &Path, m: &Metadata) -> (r: Result<(), io::Error>) ensures path_write(K::HEIF, p, m, r) { unimplemented!() }
    #[verifier::external_body] pub fn as_u8_vec(b: &Vec<u8>) -> (r: Vec<u8>) ensures wrapped(K::HEIF, false, b@, r@) { unimplemented!() }
}
pub mod jpg { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures vec_read(K::JPEG, b@, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), io::Error>) ensures vec_clear(K::JPEG, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), io::Error>) ensures vec_write(K::JPEG, old(b)@, m, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_read_metadata(p: &Path) -> (r: Result<Vec<u8>, io::Error>) ensures path_read(K::JPEG, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_clear_metadata(p: &Path) -> (r: Result<(), io::Error>) ensures path_clear(K::JPEG, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_write_metadata(p: &Path, m: &Metadata) -> (r: Result<(), io::Error>) ensures path_write(K::JPEG, p, m, r) { unimplemented!() }
    #[verifier::external_body] pub fn as_u8_vec(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures r matches Ok(v) ==> wrapped(K::JPEG, false, b@, v@) { unimplemented!() }
    #[verifier::external_body] pub fn clear_segment(b: &mut Vec<u8>, marker: u8, prefix: Option<&[u8]>) -> (r: Result<(), io::Error>) ensures prefix is None ==> vec_segment(marker, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_clear_segment(p: &Path, marker: u8, prefix: Option<&[u8]>) -> (r: Result<(), io::Error>) ensures prefix is None ==> path_segment(marker, p, r) { unimplemented!() }
}
pub mod jxl { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures vec_read(K::JXL, b@, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), io::Error>) ensures vec_clear(K::JXL, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), io::Error>) ensures vec_write(K::JXL, old(b)@, m, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_read_metadata(p: &Path) -> (r: Result<Vec<u8>, io::Error>) ensures path_read(K::JXL, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_clear_metadata(p: &Path) -> (r: Result<(), io::Error>) ensures path_clear(K::JXL, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_write_metadata(p: &Path, m: &Metadata) -> (r: Result<(), io::Error>) ensures path_write(K::JXL, p, m, r) { unimplemented!() }
}
pub mod png { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures vec_read(K::PNG, b@, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), io::Error>) ensures vec_clear(K::PNG, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), io::Error>) ensures vec_write(K::PNG, old(b)@, m, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_read_metadata(p: &Path) -> (r: Result<Vec<u8>, io::Error>) ensures path_read(K::PNG, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_clear_metadata(p: &Path) -> (r: Result<(), io::Error>) ensures path_clear(K::PNG, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn file_write_metadata(p: &Path, m: &Metadata) -> (r: Result<(), io::Error>) ensures path_write(K::PNG, p, m, r) { unimplemented!() }
    #[verifier::external_body] pub fn as_u8_vec(b: &Vec<u8>, zip: bool) -> (r: Result<Vec<u8>, io::Error>) ensures r matches Ok(v) ==> wrapped(K::PNG, zip, b@, v@) { unimplemented!() }
}
pub mod tiff { use super::*;
pub mod vec { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures vec_read(K::TIFF, b@, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), io::Error>) ensures vec_clear(K::TIFF, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), io::Error>) ensures vec_write(K::TIFF, old(b)@, m, final(b)@, r) { unimplemented!() }
}
pub mod file { use super::*;
    #[verifier::external_body] pub fn read_metadata(p: &Path) -> (r: Result<Vec<u8>, io::Error>) ensures path_read(K::TIFF, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(p: &Path) -> (r: Result<(), io::Error>) ensures path_clear(K::TIFF, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(p: &Path, m: &Metadata) -> (r: Result<(), io::Error>) ensures path_write(K::TIFF, p, m, r) { unimplemented!() }
}
}
pub mod webp { use super::*;
pub mod vec { use super::*;
    #[verifier::external_body] pub fn read_metadata(b: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>) ensures vec_read(K::WEBP, b@, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(b: &mut Vec<u8>) -> (r: Result<(), io::Error>) ensures vec_clear(K::WEBP, old(b)@, final(b)@, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(b: &mut Vec<u8>, m: &Metadata) -> (r: Result<(), io::Error>) ensures vec_write(K::WEBP, old(b)@, m, final(b)@, r) { unimplemented!() }
}
pub mod file { use super::*;
    #[verifier::external_body] pub fn read_metadata(p: &Path) -> (r: Result<Vec<u8>, io::Error>) ensures path_read(K::WEBP, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn clear_metadata(p: &Path) -> (r: Result<(), io::Error>) ensures path_clear(K::WEBP, p, r) { unimplemented!() }
    #[verifier::external_body] pub fn write_metadata(p: &Path, m: &Metadata) -> (r: Result<(), io::Error>) ensures path_write(K::WEBP, p, m, r) { unimplemented!() }
}
    #[verifier::external_body] pub fn as_u8_vec(b: &Vec<u8>) -> (r: Vec<u8>) ensures wrapped(K::WEBP, false, b@, r@) { unimplemented!() }
}
impl Metadata {
    pub uninterp spec fn encoding(&self) -> Result<Vec<u8>, io::Error>;
    #[verifier::external_body] pub fn encode(&self) -> (r: Result<Vec<u8>, io::Error>) ensures r == self.encoding() { unimplemented!() }
    #[verifier::external_body] pub fn general_decoding_wrapper(x: Result<Vec<u8>, io::Error>) -> (r: Result<Metadata, io::Error>) ensures decoded(x, r) { unimplemented!() }
}
impl FileExtension {
//# fn src/filetype.rs auto_detect in FileExtension -> r
//# spec
    ensures old(cursor).faultless() && 0 <= old(cursor).pos() <= old(cursor).bytes().len() ==> opt_kind(r) == signature(old(cursor).bytes().skip(old(cursor).pos()))
//# end
//# fn src/filetype.rs from_str in FileExtension -> r
//# spec
    ensures opt_kind(r.ok()) == by_name(lower(input.b@)), r matches Err(e) ==> e.k == io::ErrorKind::Unsupported
//# end
}
//# fn src/filetype.rs get_file_type -> r
//# spec
    ensures r matches Ok(t) ==> path.existing() == Ok::<bool, io::Error>(true) && path.ext() is Some && path.ext()->0 is Some && named(path) == Some(kind(t)),
        path.existing() == Ok::<bool, io::Error>(true) && named(path) is Some ==> r is Ok,
        r matches Err(e) && e.k == io::ErrorKind::Unsupported ==> path.existing() is Err || (path.ext() is Some && path.ext()->0 is Some && named(path) is None)
//# end
impl Metadata {
//# fn src/metadata/metadata_io.rs new_from_vec in Metadata -> r
//# spec
    ensures kind(file_type) == K::NAKED ==> r is Err, kind(file_type) != K::NAKED ==> exists|x: Result<Vec<u8>, io::Error>| vec_read(kind(file_type), file_buffer@, x) && #[trigger] decoded(x, r)
//# end
//# fn src/metadata/metadata_io.rs new_from_path in Metadata -> r
//# spec
    ensures r is Ok ==> {
        let k = match signature(path.content().skip(0)) { Some(k) => k, None => by_name(lower(path.ext()->0->0))->0 };
        &&& exists|x: Result<Vec<u8>, io::Error>| path_read(k, path, x) && #[trigger] decoded(x, r)
    }
//# end
//# fn src/metadata/metadata_io.rs clear_metadata in Metadata -> r
//# spec
    ensures kind(file_type) == K::NAKED ==> r is Err && final(file_buffer)@ == old(file_buffer)@, kind(file_type) != K::NAKED ==> vec_clear(kind(file_type), old(file_buffer)@, final(file_buffer)@, r)
//# end
//# fn src/metadata/metadata_io.rs clear_app12_segment in Metadata -> r
//# spec
    ensures kind(file_type) != K::JPEG ==> r is Err && final(file_buffer)@ == old(file_buffer)@, kind(file_type) == K::JPEG ==> vec_segment(0xec, old(file_buffer)@, final(file_buffer)@, r)
//# end
//# fn src/metadata/metadata_io.rs clear_app13_segment in Metadata -> r
//# spec
    ensures kind(file_type) != K::JPEG ==> r is Err && final(file_buffer)@ == old(file_buffer)@, kind(file_type) == K::JPEG ==> vec_segment(0xed, old(file_buffer)@, final(file_buffer)@, r)
//# end
//# fn src/metadata/metadata_io.rs file_clear_app12_segment in Metadata -> r
//# spec
    ensures r is Ok ==> path_segment(0xec, path, r) && named(path) == Some(K::JPEG)
//# end
//# fn src/metadata/metadata_io.rs file_clear_app13_segment in Metadata -> r
//# spec
    ensures r is Ok ==> path_segment(0xed, path, r) && named(path) == Some(K::JPEG)
//# end
//# fn src/metadata/metadata_io.rs file_clear_metadata in Metadata -> r
//# spec
    ensures r is Ok ==> named(path) is Some && path_clear(named(path)->0, path, r)
//# end
//# fn src/metadata/metadata_io.rs as_u8_vec in Metadata -> r
//# spec
    ensures r matches Ok(v) ==> self.encoding() is Ok && wrapped(kind(for_file_type), match for_file_type { FileExtension::PNG { as_zTXt_chunk } => as_zTXt_chunk, _ => false }, self.encoding()->Ok_0@, v@)
//# end
//# fn src/metadata/metadata_io.rs write_to_vec in Metadata -> r
//# spec
    ensures kind(file_type) == K::NAKED ==> r is Err && final(file_buffer)@ == old(file_buffer)@, kind(file_type) != K::NAKED ==> vec_write(kind(file_type), old(file_buffer)@, self, final(file_buffer)@, r)
//# end
//# fn src/metadata/metadata_io.rs write_to_file in Metadata -> r
//# spec
    ensures r is Ok ==> named(path) is Some && path_write(named(path)->0, path, self, r)
//# end
}
fn main() {}
}
