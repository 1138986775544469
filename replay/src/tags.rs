//! every tag of the library, written down once, and values for it
use crate::util::Rng;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat as Fm;
use little_exif::ifd::ExifTagGroup as G;
use little_exif::rational::{iR64, uR64};

pub const GROUPS: [G; 4] = [G::GENERIC, G::EXIF, G::GPS, G::INTEROP];
pub const FORMATS: [Fm; 12] = [Fm::INT8U, Fm::STRING, Fm::INT16U, Fm::INT32U, Fm::RATIONAL64U, Fm::INT8S, Fm::UNDEF, Fm::INT16S, Fm::INT32S, Fm::RATIONAL64S, Fm::FLOAT, Fm::DOUBLE];
pub const SIZES: [usize; 12] = [1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8];
pub fn gi(g: G) -> usize { GROUPS.iter().position(|x| *x == g).unwrap() }
/// values of n components, taken from the bytes
pub struct Src<'a>(pub &'a [u8], pub usize);
impl<'a> Src<'a> {
    pub fn b(&mut self) -> u8 { let x = self.0.get(self.1 % self.0.len().max(1)).copied().unwrap_or(0); self.1 += 1; x.wrapping_add((self.1 / self.0.len().max(1)) as u8) }
    pub fn u32(&mut self) -> u32 { u32::from_le_bytes([self.b(), self.b(), self.b(), self.b()]) }
    pub fn u64(&mut self) -> u64 { self.u32() as u64 | (self.u32() as u64) << 32 }
    #[allow(non_snake_case)] pub fn INT8U(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.b()).collect() }
    #[allow(non_snake_case)] pub fn UNDEF(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.b()).collect() }
    #[allow(non_snake_case)] pub fn INT8S(&mut self, n: usize) -> Vec<i8> { (0..n).map(|_| self.b() as i8).collect() }
    #[allow(non_snake_case)] pub fn INT16U(&mut self, n: usize) -> Vec<u16> { (0..n).map(|_| self.u32() as u16).collect() }
    #[allow(non_snake_case)] pub fn INT16S(&mut self, n: usize) -> Vec<i16> { (0..n).map(|_| self.u32() as i16).collect() }
    #[allow(non_snake_case)] pub fn INT32U(&mut self, n: usize) -> Vec<u32> { (0..n).map(|_| self.u32()).collect() }
    #[allow(non_snake_case)] pub fn INT32S(&mut self, n: usize) -> Vec<i32> { (0..n).map(|_| self.u32() as i32).collect() }
    #[allow(non_snake_case)] pub fn RATIONAL64U(&mut self, n: usize) -> Vec<uR64> { (0..n).map(|_| uR64 { nominator: self.u32(), denominator: self.u32() }).collect() }
    #[allow(non_snake_case)] pub fn RATIONAL64S(&mut self, n: usize) -> Vec<iR64> { (0..n).map(|_| iR64 { nominator: self.u32() as i32, denominator: self.u32() as i32 }).collect() }
    #[allow(non_snake_case)] pub fn FLOAT(&mut self, n: usize) -> Vec<f32> { (0..n).map(|_| { let f = f32::from_bits(self.u32()); if f.is_nan() { 1.5 } else { f } }).collect() }
    #[allow(non_snake_case)] pub fn DOUBLE(&mut self, n: usize) -> Vec<f64> { (0..n).map(|_| { let f = f64::from_bits(self.u64()); if f.is_nan() { 2.5 } else { f } }).collect() }
    /// no trailing NUL (it ends the string in the file)
    #[allow(non_snake_case)] pub fn STRING(&mut self, n: usize) -> String {
        (0..n).map(|i| { let b = self.b(); match b % 16 { 0 => 'ä', 1 => '€', 2 if i + 1 < n => '\0', 3 => '😀', _ => (b'!' + b % 90) as char } }).collect() }
}
pub struct Row { pub name: &'static str, pub hex: u16, pub format: Fm, pub count: Option<u32>, pub writable: bool, pub group: G, pub make: fn(&mut Src, usize) -> ExifTag }
macro_rules! rows { ($(($t:ident $h:literal $f:ident $c:expr, $w:literal $g:ident))*) => { vec![$(Row { name: stringify!($t), hex: $h, format: Fm::$f, count: $c, writable: $w, group: G::$g,
    make: |s, n| ExifTag::$t(s.$f(n)) }),*] } }
pub fn table() -> Vec<Row> { rows![
    (GPSVersionID 0x0000 INT8U Some(4), true GPS)
    (GPSLatitudeRef 0x0001 STRING Some(2), true GPS)
    (GPSLatitude 0x0002 RATIONAL64U Some(3), true GPS)
    (GPSLongitudeRef 0x0003 STRING Some(2), true GPS)
    (GPSLongitude 0x0004 RATIONAL64U Some(3), true GPS)
    (GPSAltitudeRef 0x0005 INT8U Some(1), true GPS)
    (GPSAltitude 0x0006 RATIONAL64U Some(1), true GPS)
    (GPSTimeStamp 0x0007 RATIONAL64U Some(3), true GPS)
    (GPSSatellites 0x0008 STRING None, true GPS)
    (GPSStatus 0x0009 STRING Some(2), true GPS)
    (GPSMeasureMode 0x000a STRING Some(2), true GPS)
    (GPSDOP 0x000b RATIONAL64U Some(1), true GPS)
    (GPSSpeedRef 0x000c STRING Some(2), true GPS)
    (GPSSpeed 0x000d RATIONAL64U Some(1), true GPS)
    (GPSTrackRef 0x000e STRING Some(2), true GPS)
    (GPSTrack 0x000f RATIONAL64U Some(1), true GPS)
    (GPSImgDirectionRef 0x0010 STRING Some(2), true GPS)
    (GPSImgDirection 0x0011 RATIONAL64U Some(1), true GPS)
    (GPSMapDatum 0x0012 STRING None, true GPS)
    (GPSDestLatitudeRef 0x0013 STRING Some(2), true GPS)
    (GPSDestLatitude 0x0014 RATIONAL64U Some(3), true GPS)
    (GPSDestLongitudeRef 0x0015 STRING Some(2), true GPS)
    (GPSDestLongitude 0x0016 RATIONAL64U Some(3), true GPS)
    (GPSDestBearingRef 0x0017 STRING Some(2), true GPS)
    (GPSDestBearing 0x0018 RATIONAL64U Some(1), true GPS)
    (GPSDestDistanceRef 0x0019 STRING Some(2), true GPS)
    (GPSDestDistance 0x001a RATIONAL64U Some(1), true GPS)
    (GPSProcessingMethod 0x001b UNDEF None, true GPS)
    (GPSAreaInformation 0x001c UNDEF None, true GPS)
    (GPSDateStamp 0x001d STRING Some(11), true GPS)
    (GPSDifferential 0x001e INT16U Some(1), true GPS)
    (GPSHPositioningError 0x001f RATIONAL64U Some(1), true GPS)
    (InteroperabilityIndex 0x0001 STRING Some(4), true INTEROP)
    (InteroperabilityVersion 0x0002 UNDEF None, true INTEROP)
    (ImageWidth 0x0100 INT32U Some(1), true GENERIC)
    (ImageHeight 0x0101 INT32U Some(1), true GENERIC)
    (BitsPerSample 0x0102 INT16U Some(3), true GENERIC)
    (Compression 0x0103 INT16U Some(1), true GENERIC)
    (PhotometricInterpretation 0x0106 INT16U Some(1), true GENERIC)
    (CellWidth 0x0108 INT16U Some(1), true GENERIC)
    (CellHeight 0x0109 INT16U Some(1), true GENERIC)
    (ImageDescription 0x010e STRING None, true GENERIC)
    (Make 0x010f STRING None, true GENERIC)
    (Model 0x0110 STRING None, true GENERIC)
    (Orientation 0x0112 INT16U Some(1), true GENERIC)
    (SamplesPerPixel 0x0115 INT16U Some(1), true GENERIC)
    (RowsPerStrip 0x0116 INT32U Some(1), true GENERIC)
    (XResolution 0x011a RATIONAL64U Some(1), true GENERIC)
    (YResolution 0x011b RATIONAL64U Some(1), true GENERIC)
    (PlanarConfiguration 0x011c INT16U Some(1), true GENERIC)
    (ResolutionUnit 0x0128 INT16U Some(1), true GENERIC)
    (TransferFunction 0x012d INT16U Some(3), true GENERIC)
    (Software 0x0131 STRING None, true GENERIC)
    (ModifyDate 0x0132 STRING Some(20), true GENERIC)
    (Artist 0x013b STRING None, true GENERIC)
    (WhitePoint 0x013e RATIONAL64U Some(2), true GENERIC)
    (PrimaryChromaticities 0x013f RATIONAL64U Some(6), true GENERIC)
    (ColorMap 0x0140 INT16U None, true GENERIC)
    (YCbCrCoefficients 0x0211 RATIONAL64U Some(3), true GENERIC)
    (YCbCrSubSampling 0x0212 INT16U Some(2), true GENERIC)
    (YCbCrPositioning 0x0213 INT16U Some(1), true GENERIC)
    (ReferenceBlackWhite 0x0214 RATIONAL64U Some(6), true GENERIC)
    (Copyright 0x8298 STRING None, true GENERIC)
    (ExposureTime 0x829a RATIONAL64U Some(1), true EXIF)
    (FNumber 0x829d RATIONAL64U Some(1), true EXIF)
    (ExifOffset 0x8769 INT32U Some(1), false GENERIC)
    (ExposureProgram 0x8822 INT16U Some(1), true EXIF)
    (SpectralSensitivity 0x8824 STRING None, true EXIF)
    (GPSInfo 0x8825 INT32U Some(1), true GENERIC)
    (ISO 0x8827 INT16U None, true EXIF)
    (OECF 0x8828 UNDEF None, false EXIF)
    (SensitivityType 0x8830 INT16U Some(1), true EXIF)
    (StandardOutputSensitivity 0x8831 INT32U Some(1), true EXIF)
    (RecommendedExposureIndex 0x8832 INT32U Some(1), true EXIF)
    (ISOSpeed 0x8833 INT32U Some(1), true EXIF)
    (ISOSpeedLatitudeyyy 0x8834 INT32U Some(1), true EXIF)
    (ISOSpeedLatitudezzz 0x8835 INT32U Some(1), true EXIF)
    (ExifVersion 0x9000 UNDEF Some(4), true EXIF)
    (DateTimeOriginal 0x9003 STRING Some(20), true EXIF)
    (CreateDate 0x9004 STRING Some(20), true EXIF)
    (OffsetTime 0x9010 STRING None, true EXIF)
    (OffsetTimeOriginal 0x9011 STRING None, true EXIF)
    (OffsetTimeDigitized 0x9012 STRING None, true EXIF)
    (ComponentsConfiguration 0x9101 UNDEF None, true EXIF)
    (CompressedBitsPerPixel 0x9102 RATIONAL64U Some(1), true EXIF)
    (ShutterSpeedValue 0x9201 RATIONAL64S Some(1), true EXIF)
    (ApertureValue 0x9202 RATIONAL64U Some(1), true EXIF)
    (BrightnessValue 0x9203 RATIONAL64S Some(1), true EXIF)
    (ExposureCompensation 0x9204 RATIONAL64S Some(1), true EXIF)
    (MaxApertureValue 0x9205 RATIONAL64U Some(1), true EXIF)
    (SubjectDistance 0x9206 RATIONAL64U Some(1), true EXIF)
    (MeteringMode 0x9207 INT16U Some(1), true EXIF)
    (LightSource 0x9208 INT16U Some(1), true EXIF)
    (Flash 0x9209 INT16U Some(1), true EXIF)
    (FocalLength 0x920a RATIONAL64U Some(1), true EXIF)
    (SubjectArea 0x9214 INT16U Some(4), true EXIF)
    (MakerNote 0x927c UNDEF None, true EXIF)
    (UserComment 0x9286 UNDEF None, true EXIF)
    (SubSecTime 0x9290 STRING None, true EXIF)
    (SubSecTimeOriginal 0x9291 STRING None, true EXIF)
    (SubSecTimeDigitized 0x9292 STRING None, true EXIF)
    (AmbientTemperature 0x9400 RATIONAL64S Some(1), true EXIF)
    (Humidity 0x9401 RATIONAL64U Some(1), true EXIF)
    (Pressure 0x9402 RATIONAL64U Some(1), true EXIF)
    (WaterDepth 0x9403 RATIONAL64S Some(1), true EXIF)
    (Acceleration 0x9404 RATIONAL64U Some(1), true EXIF)
    (CameraElevationAngle 0x9405 RATIONAL64S Some(1), true EXIF)
    (FlashpixVersion 0xa000 UNDEF Some(4), true EXIF)
    (ColorSpace 0xa001 INT16U Some(1), true EXIF)
    (ExifImageWidth 0xa002 INT32U Some(1), true EXIF)
    (ExifImageHeight 0xa003 INT32U Some(1), true EXIF)
    (RelatedSoundFile 0xa004 STRING None, true EXIF)
    (InteropOffset 0xa005 INT32U Some(1), true EXIF)
    (FlashEnergy 0xa20b RATIONAL64U Some(1), true EXIF)
    (SpatialFrequencyResponse 0xa20c INT16U Some(1), false EXIF)
    (FocalPlaneXResolution 0xa20e RATIONAL64U Some(1), true EXIF)
    (FocalPlaneYResolution 0xa20f RATIONAL64U Some(1), true EXIF)
    (FocalPlaneResolutionUnit 0xa210 INT16U Some(1), true EXIF)
    (SubjectLocation 0xa214 INT16U Some(1), true EXIF)
    (ExposureIndex 0xa215 RATIONAL64U Some(1), true EXIF)
    (SensingMethod 0xa217 INT16U Some(1), true EXIF)
    (FileSource 0xa300 UNDEF None, true EXIF)
    (SceneType 0xa301 UNDEF None, true EXIF)
    (CFAPattern 0xa302 UNDEF None, true EXIF)
    (CustomRendered 0xa401 INT16U Some(1), true EXIF)
    (ExposureMode 0xa402 INT16U Some(1), true EXIF)
    (WhiteBalance 0xa403 INT16U Some(1), true EXIF)
    (DigitalZoomRatio 0xa404 RATIONAL64U Some(1), true EXIF)
    (FocalLengthIn35mmFormat 0xa405 INT16U Some(1), true EXIF)
    (SceneCaptureType 0xa406 INT16U Some(1), true EXIF)
    (GainControl 0xa407 INT16U Some(1), true EXIF)
    (Contrast 0xa408 INT16U Some(1), true EXIF)
    (Saturation 0xa409 INT16U Some(1), true EXIF)
    (Sharpness 0xa40a INT16U Some(1), true EXIF)
    (DeviceSettingDescription 0xa40b UNDEF None, false EXIF)
    (SubjectDistanceRange 0xa40c INT16U Some(1), true EXIF)
    (ImageUniqueID 0xa420 STRING None, true EXIF)
    (OwnerName 0xa430 STRING None, true EXIF)
    (SerialNumber 0xa431 STRING None, true EXIF)
    (LensInfo 0xa432 RATIONAL64U Some(4), true EXIF)
    (LensMake 0xa433 STRING None, true EXIF)
    (LensModel 0xa434 STRING None, true EXIF)
    (LensSerialNumber 0xa435 STRING None, true EXIF)
    (CompositeImage 0xa460 INT16U Some(1), true EXIF)
    (CompositeImageCount 0xa461 INT16U Some(2), true EXIF)
    (CompositeImageExposureTimes 0xa462 UNDEF None, true EXIF)
    (Gamma 0xa500 RATIONAL64U Some(1), true EXIF)
] }
/// an Unknown tag of format number f
pub fn unknown(f: usize, s: &mut Src, n: usize, hex: u16, g: G) -> ExifTag {
    match f {
        0 => ExifTag::UnknownINT8U(s.INT8U(n), hex, g), 1 => ExifTag::UnknownSTRING(s.STRING(n), hex, g), 2 => ExifTag::UnknownINT16U(s.INT16U(n), hex, g),
        3 => ExifTag::UnknownINT32U(s.INT32U(n), hex, g), 4 => ExifTag::UnknownRATIONAL64U(s.RATIONAL64U(n), hex, g), 5 => ExifTag::UnknownINT8S(s.INT8S(n), hex, g),
        6 => ExifTag::UnknownUNDEF(s.UNDEF(n), hex, g), 7 => ExifTag::UnknownINT16S(s.INT16S(n), hex, g), 8 => ExifTag::UnknownINT32S(s.INT32S(n), hex, g),
        9 => ExifTag::UnknownRATIONAL64S(s.RATIONAL64S(n), hex, g), 10 => ExifTag::UnknownFLOAT(s.FLOAT(n), hex, g), _ => ExifTag::UnknownDOUBLE(s.DOUBLE(n), hex, g),
    }
}
pub fn is_known(hex: u16, g: G, t: &[Row]) -> bool { t.iter().any(|r| r.hex == hex && r.group == g) || [0x0111, 0x0117, 0x0201, 0x0202].contains(&hex) }
pub fn endian(b: bool) -> Endian { if b { Endian::Big } else { Endian::Little } }
/// a tag described by numbers: kind (row index; then structural; then Unknown), components, value bytes
pub fn build(kind: usize, n: usize, bytes: &[u8], t: &[Row]) -> ExifTag {
    let mut s = Src(bytes, 0);
    if kind < t.len() { return (t[kind].make)(&mut s, n); }
    match kind - t.len() {
        0 => ExifTag::StripOffsets(vec![], vec![s.INT8U(n)]),
        1 => ExifTag::StripByteCounts(vec![n as u32]),
        2 => ExifTag::ThumbnailOffset(vec![], s.INT8U(n)),
        3 => ExifTag::ThumbnailLength(vec![n as u32]),
        k => { let k = k - 4; let (f, g) = (k % 12, GROUPS[(k / 12) % 4]);
            let mut hex = [0xc000u16, 0xfffe, 0x0300, 0x00ff, 0x7000, 0xb001, 0x9fff, 0x0020][(k / 48) % 8].wrapping_add((k / 384) as u16);
            while is_known(hex, g, t) { hex = hex.wrapping_add(1); }
            unknown(f, &mut s, n, hex, g) }
    }
}
pub fn kinds(t: &[Row]) -> usize { t.len() + 4 + 48 * 8 }
pub fn arb_n(r: &mut Rng) -> usize { match r.below(8) { 0 => 0, 1 | 2 => 1, 3 => 2, 4 => 3, 5 => 4, 6 => 5 + r.below(4), _ => r.below(40) } }
