verus! {
// facts about the tag table that other units build on: proven in the unit `tags`, where the specification functions are defined
pub proof fn fact_size(t: ExifTag, e: Endian) ensures !(t matches ExifTag::StripOffsets(_, _)) && !(t matches ExifTag::ThumbnailOffset(_, _)) ==> t.val(e).len() <= size_of_fmt(t.std_fmt()) * t.std_count()
{ lemma_size(t, e); if t.std_empty() && t.std_fmt() != ExifTagFormat::STRING { lemma_empty(t, e); } else { match t { ExifTag::StripByteCounts(v) => { lemma_len_u32(v, e); } ExifTag::ThumbnailLength(v) => { lemma_len_u32(v, e); } _ => {} } } }
pub proof fn fact_struct(t: ExifTag) ensures match t {
    ExifTag::StripOffsets(_, d) => t.std_row() == 200 && t.std_hex() == 0x0111 && t.std_writable() && t.std_fmt() == ExifTagFormat::INT32U && t.std_count() == d@.len(),
    ExifTag::StripByteCounts(v) => t.std_row() == 201 && t.std_hex() == 0x0117 && t.std_writable() && t.std_fmt() == ExifTagFormat::INT32U && t.std_count() == v@.len(),
    ExifTag::ThumbnailOffset(_, _) => t.std_row() == 202 && t.std_hex() == 0x0201 && t.std_writable() && t.std_fmt() == ExifTagFormat::INT32U && t.std_count() == 1,
    ExifTag::ThumbnailLength(v) => t.std_row() == 203 && t.std_hex() == 0x0202 && t.std_writable() && t.std_fmt() == ExifTagFormat::INT32U && t.std_count() == v@.len(),
    ExifTag::ExifOffset(v) => 0 <= t.std_row() < 200 && t.std_hex() == 0x8769 && t.std_grp() == ExifTagGroup::GENERIC && t.std_fmt() == ExifTagFormat::INT32U && (v@.len() == 0 ==> t.std_count() == 1),
    ExifTag::GPSInfo(v) => 0 <= t.std_row() < 200 && t.std_hex() == 0x8825 && t.std_grp() == ExifTagGroup::GENERIC && t.std_fmt() == ExifTagFormat::INT32U && (v@.len() == 0 ==> t.std_count() == 1),
    ExifTag::InteropOffset(v) => 0 <= t.std_row() < 200 && t.std_hex() == 0xa005 && t.std_grp() == ExifTagGroup::EXIF && t.std_fmt() == ExifTagFormat::INT32U && (v@.len() == 0 ==> t.std_count() == 1),
    _ => !t.is_struct() && !(t.std_row() == 65 || t.std_row() == 68 || t.std_row() == 112) }
{}
pub proof fn fact_row(h: u16, g: ExifTagGroup, d: ExifTagFormat) ensures row_of(h, g) < 300, row_of(h, g) < 0 ==> row_of(h, g) == -1 && fmt_of(h, g, d) == d {}
}
