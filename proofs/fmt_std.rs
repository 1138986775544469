verus! {
pub open spec fn code_of(f: ExifTagFormat) -> u16 { match f { ExifTagFormat::INT8U => 1, ExifTagFormat::STRING => 2, ExifTagFormat::INT16U => 3, ExifTagFormat::INT32U => 4, ExifTagFormat::RATIONAL64U => 5, ExifTagFormat::INT8S => 6, ExifTagFormat::UNDEF => 7, ExifTagFormat::INT16S => 8, ExifTagFormat::INT32S => 9, ExifTagFormat::RATIONAL64S => 10, ExifTagFormat::FLOAT => 11, ExifTagFormat::DOUBLE => 12 } }
pub open spec fn unknown_row(f: ExifTagFormat) -> int { 299 + code_of(f) }
pub open spec fn size_of_fmt(f: ExifTagFormat) -> int { match f { ExifTagFormat::INT8U => 1, ExifTagFormat::STRING => 1, ExifTagFormat::INT16U => 2, ExifTagFormat::INT32U => 4, ExifTagFormat::RATIONAL64U => 8, ExifTagFormat::INT8S => 1, ExifTagFormat::UNDEF => 1, ExifTagFormat::INT16S => 2, ExifTagFormat::INT32S => 4, ExifTagFormat::RATIONAL64S => 8, ExifTagFormat::FLOAT => 4, ExifTagFormat::DOUBLE => 8 } }
pub open spec fn fits(f: ExifTagFormat, b: Seq<u8>) -> bool { b.len() % (size_of_fmt(f) as nat) == 0 }
}
