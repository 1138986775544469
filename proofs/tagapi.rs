verus! {
// the tag table as the unit `tags` proves it: contracts only, specification functions opaque
#[derive(Clone, Copy, PartialEq, Eq)]
//# item src/exif_tag_format.rs enum ExifTagFormat
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExifTagFormat {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ExifTagFormat) -> bool { *self == *other }
}
//# item src/exif_tag/mod.rs enum TagType
}
//# include fmt_std.rs
verus! {
pub uninterp spec fn row_of(h: u16, g: ExifTagGroup) -> int;
pub uninterp spec fn fmt_of(h: u16, g: ExifTagGroup, d: ExifTagFormat) -> ExifTagFormat;
/// clone of a list of numbers
#[verifier::external_body]
pub fn vx_dup<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r == *v { unimplemented!() }
impl ExifTag {
    pub uninterp spec fn std_row(&self) -> int;
    pub open spec fn std_hex(&self) -> u16 { self.hex() }
    pub open spec fn std_grp(&self) -> ExifTagGroup { self.grp() }
    pub uninterp spec fn std_fmt(&self) -> ExifTagFormat;
    pub uninterp spec fn std_writable(&self) -> bool;
    pub uninterp spec fn std_count(&self) -> nat;
    pub uninterp spec fn val(&self, e: Endian) -> Seq<u8>;
    pub uninterp spec fn val_says(&self, b: Seq<u8>, e: Endian) -> bool;
    pub uninterp spec fn std_empty(&self) -> bool;
    pub open spec fn is_struct(&self) -> bool { 200 <= self.std_row() < 204 }
    #[verifier::external_body]
    pub fn format(&self) -> (r: ExifTagFormat) ensures r == self.std_fmt() { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(std_writable)]
    pub fn is_writable(&self) -> (r: bool) ensures r == self.std_writable() { unimplemented!() }
    #[verifier::external_body]
    pub fn number_of_components(&self) -> (r: u32) requires self.std_count() < 0x1_0000_0000 ensures r == self.std_count() { unimplemented!() }
    #[verifier::external_body]
    pub fn value_as_u8_vec(&self, endian: &Endian) -> (r: Vec<u8>) ensures r@ == self.val(*endian) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u16(hex_value: u16, group: &ExifTagGroup) -> (r: Result<ExifTag, String>)
        ensures match r { Ok(t) => t.std_row() == row_of(hex_value, *group) && t.std_row() >= 0 && t.std_hex() == hex_value && (t.std_grp() == *group || t.is_struct()) && t.std_empty(), Err(_) => row_of(hex_value, *group) < 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u16_with_data(hex_value: u16, format: &ExifTagFormat, raw_data: &Vec<u8>, endian: &Endian, group: &ExifTagGroup) -> (r: Result<ExifTag, String>)
        requires fits(fmt_of(hex_value, *group, *format), raw_data@)
        ensures r is Ok, r matches Ok(t) ==> t.std_row() == (if row_of(hex_value, *group) >= 0 { row_of(hex_value, *group) } else { unknown_row(*format) })
            && t.std_hex() == hex_value && (t.std_grp() == *group || t.is_struct()) && t.val_says(raw_data@, *endian) { unimplemented!() }
    pub open spec fn tkind(&self) -> TagType { match *self {
        ExifTag::ExifOffset(_) => TagType::IFD_OFFSET(ExifTagGroup::EXIF), ExifTag::GPSInfo(_) => TagType::IFD_OFFSET(ExifTagGroup::GPS), ExifTag::InteropOffset(_) => TagType::IFD_OFFSET(ExifTagGroup::INTEROP),
        ExifTag::StripOffsets(v, _) => TagType::DATA_OFFSET(v), ExifTag::StripByteCounts(v) => TagType::DATA_OFFSET(v), ExifTag::ThumbnailOffset(v, _) => TagType::DATA_OFFSET(v), ExifTag::ThumbnailLength(v) => TagType::DATA_OFFSET(v),
        _ => TagType::VALUE } }
//# fn src/exif_tag/mod.rs get_tag_type -> r
//# attr
#[verifier::when_used_as_spec(tkind)]
//# spec
    ensures r == self.tkind()
//# end
}
impl ExifTagFormat {
//# fn src/exif_tag_format.rs as_u16 -> r
//# spec
    ensures r == code_of(*self)
//# end
//# fn src/exif_tag_format.rs from_u16 -> r
//# spec
    ensures match r { Some(f) => code_of(f) == hex_code, None => !(1 <= hex_code <= 12) }
//# end
//# fn src/exif_tag_format.rs bytes_per_component -> r
//# spec
    ensures r == size_of_fmt(*self)
//# end
}
#[verifier::external_body]
pub fn decode_tag_with_format_exceptions(raw_tag: &ExifTag, format: ExifTagFormat, raw_data: &Vec<u8>, endian: &Endian, hex_tag: u16, group: &ExifTagGroup) -> (r: Result<ExifTag, io::Error>)
    requires raw_tag.std_row() < 300, raw_tag.std_row() == row_of(hex_tag, *group), raw_tag.std_hex() == hex_tag, fits(format, raw_data@)
    ensures r matches Ok(t) ==> t.std_row() == raw_tag.std_row() && t.std_hex() == hex_tag && t.std_grp() == raw_tag.std_grp(),
        raw_tag.std_fmt() == format ==> r is Ok && r->Ok_0.val_says(raw_data@, *endian) { unimplemented!() }
}
//# include tag_facts.rs statements
