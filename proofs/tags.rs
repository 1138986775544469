//# include prelude.rs
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule slice to array conversion /(\w+)\[([^\]]*)\]\s*\.try_into\(\)\s*\.map_err\(\|_\|\s*io::Error::new\(io::ErrorKind::InvalidData,\s*"[^"]*"\)\)\?/ => /vx_arr(&\1[\2])?/
//# rule std byte-order conversion -> contract-bearing /\.to_(le|be)_bytes\(\)/ => /.vx_to_\1_bytes()/
//# rule std byte-order conversion -> contract-bearing /<(\w+)>::from_(le|be)_bytes\(/ => /<\1>::vx_from_\2_bytes(/
//# rule error message text dropped /\b(?:Vx)?String::from\("[^"]*"\)/ => /vx_msg()/
//# rule error message text dropped /(?s)::alloc::__export::must_use\(\{.*?\}\)/ => /vx_msg()/
//# rule integer width conversion of a list -> contract-bearing /(\w+)(?:\s*\.clone\(\))?\s*\.into_iter\(\)\s*\.map\(\|x\|\s*x as (\w+)\)\s*\.collect::<Vec<(\w+)>>\(\)/ => /VxCast::<\3>::vx_cast(vx_clone(&\1))/
//# rule rational conversion of a list -> contract-bearing /uR64_data\s*\.into_iter\(\)\.map\(\|x\| x\.into\(\)\)\.collect::<Vec<f64>>\(\)\s*\.into_iter\(\)\.map\(\|x\| x\.into\(\)\)\.collect::<Vec<iR64>>\(\)/ => /vx_rationals(uR64_data)/
//# rule for over zip -> counted loop /for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\)((?:\s|\x01\d+\x02)*)\{/ => /for vx_z in 0..vx_min(\3.len(), \4.len())\5{ let \1 = &\3[vx_z]; let \2 = &\4[vx_z];/
//# rule panic -> vx_panic (never called) /::core::panicking::panic_fmt\(format_args!\("[^"]*"\)\)/ => /vx_panic()/
//# rule identity casts of component values dropped /endian\) as (?:f32|f64|uR64|iR64)\)/ => /endian))/
//# rule String: to_owned /(\w+)\.to_owned\(\)/ => /vx_owned(\1)/
//# rule String: trim_end_matches /\.trim_end_matches\('\\0'\)\.to_string\(\)/ => /.vx_trim_nul()/
//# rule String: push of a byte as character /\.push\(\*(\w+) as char\)/ => /.vx_push_byte(*\1)/
verus! {
pub fn vx_msg() -> (r: VxString) { VxString { b: Vec::new() } }
pub struct uR64 { pub nominator: u32, pub denominator: u32 }
pub struct iR64 { pub nominator: i32, pub denominator: i32 }
//# include strings.rs
}
//# include codec.rs
verus! {
//# item src/exif_tag_format.rs type INT8U
//# item src/exif_tag_format.rs type STRING
//# item src/exif_tag_format.rs type INT16U
//# item src/exif_tag_format.rs type INT32U
//# item src/exif_tag_format.rs type RATIONAL64U
//# item src/exif_tag_format.rs type INT8S
//# item src/exif_tag_format.rs type UNDEF
//# item src/exif_tag_format.rs type INT16S
//# item src/exif_tag_format.rs type INT32S
//# item src/exif_tag_format.rs type RATIONAL64S
//# item src/exif_tag_format.rs type FLOAT
//# item src/exif_tag_format.rs type DOUBLE
#[derive(Clone, Copy, PartialEq, Eq)]
//# item src/ifd/mod.rs enum ExifTagGroup
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExifTagGroup {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ExifTagGroup) -> bool { *self == *other }
}
#[derive(Clone, Copy, PartialEq, Eq)]
//# item src/exif_tag_format.rs enum ExifTagFormat
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExifTagFormat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ExifTagFormat) -> bool { *self == *other }
}
//# item @exif_tag enum ExifTag
}
//# include exif_std.rs
//# include fmt_std.rs
//# include tag_facts.rs
verus! {
impl ExifTagFormat {
//# fn src/exif_tag_format.rs as_u16 -> r
//# spec
    ensures r == code_of(*self)
//# end
//# fn src/exif_tag_format.rs from_u16 -> r
//# spec
    ensures match r { Some(f) => code_of(f) == hex_code, None => !(1 <= hex_code <= 12) }
//# end
//# fn src/exif_tag_format.rs bytes_per_component -> r
//# spec
    ensures r == size_of_fmt(*self)
//# end
}
pub proof fn lemma_codes(a: ExifTagFormat, b: ExifTagFormat) requires code_of(a) == code_of(b) ensures a == b, 1 <= code_of(a) <= 12 {}
impl ExifTag {
//# fn @exif_tag as_u16 in impl ExifTag -> r
//# spec
    ensures r == self.std_hex()
//# end
//# fn @exif_tag get_group in impl ExifTag -> r
//# spec
    ensures r == self.std_grp()
//# end
//# fn @exif_tag format in impl ExifTag -> r
//# spec
    ensures r == self.std_fmt()
//# end
//# fn @exif_tag is_writable in impl ExifTag -> r
//# spec
    ensures r == self.std_writable()
//# end
//# fn @exif_tag is_unknown in impl ExifTag -> r
//# spec
    ensures r == self.unknown()
//# end
//# fn @exif_tag is_string in impl ExifTag -> r
//# spec
    ensures r == (self.std_fmt() == ExifTagFormat::STRING)
//# end
//# fn @exif_tag from_u16 in impl ExifTag -> r
//# spec
    ensures match r { Ok(t) => t.std_row() == row_of(hex_value, *group) && t.std_row() >= 0 && t.std_hex() == hex_value && (t.std_grp() == *group || t.is_struct()) && t.std_empty(), Err(_) => row_of(hex_value, *group) < 0 }
//# end
//# fn @exif_tag from_u16_with_data in impl ExifTag -> r
//# attr
#[verifier::spinoff_prover]
#[verifier::rlimit(300)]
//# spec
    requires fits(fmt_of(hex_value, *group, *format), raw_data@)
    ensures r is Ok, r matches Ok(t) ==> t.std_row() == (if row_of(hex_value, *group) >= 0 { row_of(hex_value, *group) } else { unknown_row(*format) })
        && t.std_hex() == hex_value && (t.std_grp() == *group || t.is_struct()) && t.val_says(raw_data@, *endian)
//# end
//# fn @exif_tag unknown_is_justified in impl ExifTag -> r
//# spec
    ensures r == !(self.unknown() && row_of(self.std_hex(), self.std_grp()) >= 0)
//# end
//# fn @exif_tag number_of_components in impl ExifTag -> r
//# spec
    requires self.std_count() < 0x1_0000_0000
    ensures r == self.std_count()
//# end
//# fn @exif_tag value_as_u8_vec in impl ExifTag -> r
//# spec
    ensures r@ == self.val(*endian)
//# end
//# fn @exif_tag set_value_to_int8u_vec -> r
//# spec
    requires set_ok(*self)
    ensures set_done(*self, ExifTagFormat::INT8U, data.enc(Endian::Little), r)
//# begin
    proof { lemma_len_u8(data, Endian::Little); lemma_self(*self); }
//# end
//# fn @exif_tag set_value_to_int16u_vec -> r
//# spec
    requires set_ok(*self)
    ensures set_done(*self, ExifTagFormat::INT16U, data.enc(Endian::Little), r)
//# begin
    proof { lemma_len_u16(data, Endian::Little); lemma_self(*self); }
//# end
//# fn @exif_tag set_value_to_int32u_vec -> r
//# spec
    requires set_ok(*self)
    ensures set_done(*self, ExifTagFormat::INT32U, data.enc(Endian::Little), r)
//# begin
    proof { lemma_len_u32(data, Endian::Little); lemma_self(*self); }
//# end
//# fn @exif_tag set_value_to_iR64_vec -> r
//# spec
    requires set_ok(*self)
    ensures set_done(*self, ExifTagFormat::RATIONAL64S, data.enc(Endian::Little), r)
//# begin
    proof { lemma_len_iR64(data, Endian::Little); lemma_self(*self); }
//# end
//# fn @exif_tag set_value_to_undef -> r
//# spec
    requires set_ok(*self)
    ensures set_done(*self, ExifTagFormat::UNDEF, data.enc(Endian::Little), r)
//# begin
    proof { lemma_len_u8(data, Endian::Little); lemma_self(*self); }
//# end
}
/// a tag that the table knows (or a structural one)
pub open spec fn set_ok(t: ExifTag) -> bool { t.std_row() < 300 }
pub open spec fn set_done(t: ExifTag, f: ExifTagFormat, b: Seq<u8>, r: Result<ExifTag, VxString>) -> bool {
    &&& r is Ok <==> t.std_fmt() == f
    &&& r matches Ok(x) ==> x.std_row() == t.std_row() && x.std_hex() == t.std_hex() && x.std_grp() == t.std_grp() && x.val_says(b, Endian::Little)
}
pub proof fn lemma_self(t: ExifTag) requires t.std_row() < 300 ensures row_of(t.std_hex(), t.std_grp()) == t.std_row(), fmt_of(t.std_hex(), t.std_grp(), t.std_fmt()) == t.std_fmt(),
    forall|r: ExifTag| r.std_row() == t.std_row() ==> r.std_grp() == t.std_grp()
{ lemma_row(t); lemma_row_grp(t); assert forall|r: ExifTag| r.std_row() == t.std_row() implies r.std_grp() == t.std_grp() by { lemma_row_grp(r); } }
// ---- conversions between integer widths
pub trait VxCast<U>: Sized { spec fn count(&self) -> nat; spec fn item(&self, i: int) -> U; fn vx_cast(self) -> (r: Vec<U>) ensures r@.len() == self.count(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.item(i); }
impl VxCast<u16> for Vec<u8> { open spec fn count(&self) -> nat { self@.len() } open spec fn item(&self, i: int) -> u16 { self@[i] as u16 } #[verifier::external_body] fn vx_cast(self) -> (r: Vec<u16>) { unimplemented!() } }
impl VxCast<u32> for Vec<u8> { open spec fn count(&self) -> nat { self@.len() } open spec fn item(&self, i: int) -> u32 { self@[i] as u32 } #[verifier::external_body] fn vx_cast(self) -> (r: Vec<u32>) { unimplemented!() } }
impl VxCast<u32> for Vec<u16> { open spec fn count(&self) -> nat { self@.len() } open spec fn item(&self, i: int) -> u32 { self@[i] as u32 } #[verifier::external_body] fn vx_cast(self) -> (r: Vec<u32>) { unimplemented!() } }
impl VxCast<u8> for Vec<u16> { open spec fn count(&self) -> nat { self@.len() } open spec fn item(&self, i: int) -> u8 { self@[i] as u8 } #[verifier::external_body] fn vx_cast(self) -> (r: Vec<u8>) { unimplemented!() } }
impl VxCast<u16> for Vec<u32> { open spec fn count(&self) -> nat { self@.len() } open spec fn item(&self, i: int) -> u16 { self@[i] as u16 } #[verifier::external_body] fn vx_cast(self) -> (r: Vec<u16>) { unimplemented!() } }
/// the rational conversions (P20)
#[verifier::external_body]
pub fn vx_rationals(v: Vec<uR64>) -> (r: Vec<iR64>) ensures r@.len() == v@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_clone<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
/// the value of an integer component
pub open spec fn widened16(b: Seq<u8>, e: Endian, w: Vec<u32>) -> bool { exists|v: Vec<u16>| #[trigger] Vec::<u16>::says(b, e, v) && w@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] w@[i] == v@[i] }
pub open spec fn narrowed16(b: Seq<u8>, e: Endian, w: Vec<u8>) -> bool { exists|v: Vec<u16>| #[trigger] Vec::<u16>::says(b, e, v) && w@.len() == v@.len() && forall|i: int| 0 <= i < v@.len() ==> #[trigger] w@[i] == v@[i] }
//# fn src/exif_tag/decode.rs decode_tag_with_format_exceptions -> r
//# attr
#[verifier::spinoff_prover]
//# spec
    requires raw_tag.std_row() < 300, raw_tag.std_row() == row_of(hex_tag, *group), raw_tag.std_hex() == hex_tag, fits(format, raw_data@)
    ensures r matches Ok(t) ==> t.std_row() == raw_tag.std_row() && t.std_hex() == hex_tag && t.std_grp() == raw_tag.std_grp(),
        raw_tag.std_fmt() == format ==> r is Ok && r->Ok_0.val_says(raw_data@, *endian),
        raw_tag.std_fmt() == ExifTagFormat::INT32U && format == ExifTagFormat::INT16U ==> r is Ok && exists|w: Vec<u32>| widened16(raw_data@, *endian, w) && r->Ok_0.val_says(#[trigger] w.enc(Endian::Little), Endian::Little),
        raw_tag.std_fmt() == ExifTagFormat::INT8U && format == ExifTagFormat::INT16U && r is Ok ==> exists|w: Vec<u8>| narrowed16(raw_data@, *endian, w) && r->Ok_0.val_says(#[trigger] w.enc(Endian::Little), Endian::Little),
//# loop 0
    invariant raw_tag.std_fmt() == ExifTagFormat::INT8U, format == ExifTagFormat::INT16U, int16u_data@.len() == int8u_data@.len(), forall|k: int| 0 <= k < vx_z ==> int8u_data@[k] == #[trigger] int16u_data@[k]
//# begin
    proof { lemma_self(*raw_tag); lemma_row(*raw_tag); lemma_codes2(); }
//# end
pub proof fn lemma_codes2() ensures forall|a: ExifTagFormat, b: ExifTagFormat| #[trigger] code_of(a) == #[trigger] code_of(b) ==> a == b {}
// ---- P11 as one statement over the contracts above
pub fn rebuild(t: &ExifTag, e: &Endian) -> (r: Result<ExifTag, VxString>)
    requires !t.is_struct(), t.plain(), t.unknown() ==> row_of(t.std_hex(), t.std_grp()) < 0
    ensures r is Ok && same(*t, r->Ok_0)
{
    proof { lemma_size(*t, *e); if !t.unknown() { lemma_self(*t); } lemma_unknown(*t); }
    let b = t.value_as_u8_vec(e);
    let r = ExifTag::from_u16_with_data(t.as_u16(), &t.format(), &b, e, &t.get_group());
    proof { lemma_rebuild(*t, r->Ok_0, *e); }
    r
}
pub proof fn lemma_unknown(t: ExifTag) ensures t.unknown() ==> t.std_row() == unknown_row(t.std_fmt()), t.unknown() && row_of(t.std_hex(), t.std_grp()) < 0 ==> fmt_of(t.std_hex(), t.std_grp(), t.std_fmt()) == t.std_fmt(),
    forall|r: ExifTag| r.is_struct() <==> 200 <= r.std_row() < 204 {}
fn main() {}
}
