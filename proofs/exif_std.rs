verus! {
// the table of the standard, written down independently of the code: 147 tags, numbered in this order; 200..203 structural, 300.. unknown by format
impl ExifTag {
pub open spec fn std_row(&self) -> int { match *self {
    ExifTag::GPSVersionID(v) => 0,
    ExifTag::GPSLatitudeRef(v) => 1,
    ExifTag::GPSLatitude(v) => 2,
    ExifTag::GPSLongitudeRef(v) => 3,
    ExifTag::GPSLongitude(v) => 4,
    ExifTag::GPSAltitudeRef(v) => 5,
    ExifTag::GPSAltitude(v) => 6,
    ExifTag::GPSTimeStamp(v) => 7,
    ExifTag::GPSSatellites(v) => 8,
    ExifTag::GPSStatus(v) => 9,
    ExifTag::GPSMeasureMode(v) => 10,
    ExifTag::GPSDOP(v) => 11,
    ExifTag::GPSSpeedRef(v) => 12,
    ExifTag::GPSSpeed(v) => 13,
    ExifTag::GPSTrackRef(v) => 14,
    ExifTag::GPSTrack(v) => 15,
    ExifTag::GPSImgDirectionRef(v) => 16,
    ExifTag::GPSImgDirection(v) => 17,
    ExifTag::GPSMapDatum(v) => 18,
    ExifTag::GPSDestLatitudeRef(v) => 19,
    ExifTag::GPSDestLatitude(v) => 20,
    ExifTag::GPSDestLongitudeRef(v) => 21,
    ExifTag::GPSDestLongitude(v) => 22,
    ExifTag::GPSDestBearingRef(v) => 23,
    ExifTag::GPSDestBearing(v) => 24,
    ExifTag::GPSDestDistanceRef(v) => 25,
    ExifTag::GPSDestDistance(v) => 26,
    ExifTag::GPSProcessingMethod(v) => 27,
    ExifTag::GPSAreaInformation(v) => 28,
    ExifTag::GPSDateStamp(v) => 29,
    ExifTag::GPSDifferential(v) => 30,
    ExifTag::GPSHPositioningError(v) => 31,
    ExifTag::InteroperabilityIndex(v) => 32,
    ExifTag::InteroperabilityVersion(v) => 33,
    ExifTag::ImageWidth(v) => 34,
    ExifTag::ImageHeight(v) => 35,
    ExifTag::BitsPerSample(v) => 36,
    ExifTag::Compression(v) => 37,
    ExifTag::PhotometricInterpretation(v) => 38,
    ExifTag::CellWidth(v) => 39,
    ExifTag::CellHeight(v) => 40,
    ExifTag::ImageDescription(v) => 41,
    ExifTag::Make(v) => 42,
    ExifTag::Model(v) => 43,
    ExifTag::Orientation(v) => 44,
    ExifTag::SamplesPerPixel(v) => 45,
    ExifTag::RowsPerStrip(v) => 46,
    ExifTag::XResolution(v) => 47,
    ExifTag::YResolution(v) => 48,
    ExifTag::PlanarConfiguration(v) => 49,
    ExifTag::ResolutionUnit(v) => 50,
    ExifTag::TransferFunction(v) => 51,
    ExifTag::Software(v) => 52,
    ExifTag::ModifyDate(v) => 53,
    ExifTag::Artist(v) => 54,
    ExifTag::WhitePoint(v) => 55,
    ExifTag::PrimaryChromaticities(v) => 56,
    ExifTag::ColorMap(v) => 57,
    ExifTag::YCbCrCoefficients(v) => 58,
    ExifTag::YCbCrSubSampling(v) => 59,
    ExifTag::YCbCrPositioning(v) => 60,
    ExifTag::ReferenceBlackWhite(v) => 61,
    ExifTag::Copyright(v) => 62,
    ExifTag::ExposureTime(v) => 63,
    ExifTag::FNumber(v) => 64,
    ExifTag::ExifOffset(v) => 65,
    ExifTag::ExposureProgram(v) => 66,
    ExifTag::SpectralSensitivity(v) => 67,
    ExifTag::GPSInfo(v) => 68,
    ExifTag::ISO(v) => 69,
    ExifTag::OECF(v) => 70,
    ExifTag::SensitivityType(v) => 71,
    ExifTag::StandardOutputSensitivity(v) => 72,
    ExifTag::RecommendedExposureIndex(v) => 73,
    ExifTag::ISOSpeed(v) => 74,
    ExifTag::ISOSpeedLatitudeyyy(v) => 75,
    ExifTag::ISOSpeedLatitudezzz(v) => 76,
    ExifTag::ExifVersion(v) => 77,
    ExifTag::DateTimeOriginal(v) => 78,
    ExifTag::CreateDate(v) => 79,
    ExifTag::OffsetTime(v) => 80,
    ExifTag::OffsetTimeOriginal(v) => 81,
    ExifTag::OffsetTimeDigitized(v) => 82,
    ExifTag::ComponentsConfiguration(v) => 83,
    ExifTag::CompressedBitsPerPixel(v) => 84,
    ExifTag::ShutterSpeedValue(v) => 85,
    ExifTag::ApertureValue(v) => 86,
    ExifTag::BrightnessValue(v) => 87,
    ExifTag::ExposureCompensation(v) => 88,
    ExifTag::MaxApertureValue(v) => 89,
    ExifTag::SubjectDistance(v) => 90,
    ExifTag::MeteringMode(v) => 91,
    ExifTag::LightSource(v) => 92,
    ExifTag::Flash(v) => 93,
    ExifTag::FocalLength(v) => 94,
    ExifTag::SubjectArea(v) => 95,
    ExifTag::MakerNote(v) => 96,
    ExifTag::UserComment(v) => 97,
    ExifTag::SubSecTime(v) => 98,
    ExifTag::SubSecTimeOriginal(v) => 99,
    ExifTag::SubSecTimeDigitized(v) => 100,
    ExifTag::AmbientTemperature(v) => 101,
    ExifTag::Humidity(v) => 102,
    ExifTag::Pressure(v) => 103,
    ExifTag::WaterDepth(v) => 104,
    ExifTag::Acceleration(v) => 105,
    ExifTag::CameraElevationAngle(v) => 106,
    ExifTag::FlashpixVersion(v) => 107,
    ExifTag::ColorSpace(v) => 108,
    ExifTag::ExifImageWidth(v) => 109,
    ExifTag::ExifImageHeight(v) => 110,
    ExifTag::RelatedSoundFile(v) => 111,
    ExifTag::InteropOffset(v) => 112,
    ExifTag::FlashEnergy(v) => 113,
    ExifTag::SpatialFrequencyResponse(v) => 114,
    ExifTag::FocalPlaneXResolution(v) => 115,
    ExifTag::FocalPlaneYResolution(v) => 116,
    ExifTag::FocalPlaneResolutionUnit(v) => 117,
    ExifTag::SubjectLocation(v) => 118,
    ExifTag::ExposureIndex(v) => 119,
    ExifTag::SensingMethod(v) => 120,
    ExifTag::FileSource(v) => 121,
    ExifTag::SceneType(v) => 122,
    ExifTag::CFAPattern(v) => 123,
    ExifTag::CustomRendered(v) => 124,
    ExifTag::ExposureMode(v) => 125,
    ExifTag::WhiteBalance(v) => 126,
    ExifTag::DigitalZoomRatio(v) => 127,
    ExifTag::FocalLengthIn35mmFormat(v) => 128,
    ExifTag::SceneCaptureType(v) => 129,
    ExifTag::GainControl(v) => 130,
    ExifTag::Contrast(v) => 131,
    ExifTag::Saturation(v) => 132,
    ExifTag::Sharpness(v) => 133,
    ExifTag::DeviceSettingDescription(v) => 134,
    ExifTag::SubjectDistanceRange(v) => 135,
    ExifTag::ImageUniqueID(v) => 136,
    ExifTag::OwnerName(v) => 137,
    ExifTag::SerialNumber(v) => 138,
    ExifTag::LensInfo(v) => 139,
    ExifTag::LensMake(v) => 140,
    ExifTag::LensModel(v) => 141,
    ExifTag::LensSerialNumber(v) => 142,
    ExifTag::CompositeImage(v) => 143,
    ExifTag::CompositeImageCount(v) => 144,
    ExifTag::CompositeImageExposureTimes(v) => 145,
    ExifTag::Gamma(v) => 146,
    ExifTag::StripOffsets(_, _) => 200,
    ExifTag::StripByteCounts(_) => 201,
    ExifTag::ThumbnailOffset(_, _) => 202,
    ExifTag::ThumbnailLength(_) => 203,
    ExifTag::UnknownINT8U(v, h, g) => 300,
    ExifTag::UnknownSTRING(v, h, g) => 301,
    ExifTag::UnknownINT16U(v, h, g) => 302,
    ExifTag::UnknownINT32U(v, h, g) => 303,
    ExifTag::UnknownRATIONAL64U(v, h, g) => 304,
    ExifTag::UnknownINT8S(v, h, g) => 305,
    ExifTag::UnknownUNDEF(v, h, g) => 306,
    ExifTag::UnknownINT16S(v, h, g) => 307,
    ExifTag::UnknownINT32S(v, h, g) => 308,
    ExifTag::UnknownRATIONAL64S(v, h, g) => 309,
    ExifTag::UnknownFLOAT(v, h, g) => 310,
    ExifTag::UnknownDOUBLE(v, h, g) => 311,
} }
pub open spec fn std_hex(&self) -> u16 { match *self {
    ExifTag::GPSVersionID(v) => 0x0000,
    ExifTag::GPSLatitudeRef(v) => 0x0001,
    ExifTag::GPSLatitude(v) => 0x0002,
    ExifTag::GPSLongitudeRef(v) => 0x0003,
    ExifTag::GPSLongitude(v) => 0x0004,
    ExifTag::GPSAltitudeRef(v) => 0x0005,
    ExifTag::GPSAltitude(v) => 0x0006,
    ExifTag::GPSTimeStamp(v) => 0x0007,
    ExifTag::GPSSatellites(v) => 0x0008,
    ExifTag::GPSStatus(v) => 0x0009,
    ExifTag::GPSMeasureMode(v) => 0x000a,
    ExifTag::GPSDOP(v) => 0x000b,
    ExifTag::GPSSpeedRef(v) => 0x000c,
    ExifTag::GPSSpeed(v) => 0x000d,
    ExifTag::GPSTrackRef(v) => 0x000e,
    ExifTag::GPSTrack(v) => 0x000f,
    ExifTag::GPSImgDirectionRef(v) => 0x0010,
    ExifTag::GPSImgDirection(v) => 0x0011,
    ExifTag::GPSMapDatum(v) => 0x0012,
    ExifTag::GPSDestLatitudeRef(v) => 0x0013,
    ExifTag::GPSDestLatitude(v) => 0x0014,
    ExifTag::GPSDestLongitudeRef(v) => 0x0015,
    ExifTag::GPSDestLongitude(v) => 0x0016,
    ExifTag::GPSDestBearingRef(v) => 0x0017,
    ExifTag::GPSDestBearing(v) => 0x0018,
    ExifTag::GPSDestDistanceRef(v) => 0x0019,
    ExifTag::GPSDestDistance(v) => 0x001a,
    ExifTag::GPSProcessingMethod(v) => 0x001b,
    ExifTag::GPSAreaInformation(v) => 0x001c,
    ExifTag::GPSDateStamp(v) => 0x001d,
    ExifTag::GPSDifferential(v) => 0x001e,
    ExifTag::GPSHPositioningError(v) => 0x001f,
    ExifTag::InteroperabilityIndex(v) => 0x0001,
    ExifTag::InteroperabilityVersion(v) => 0x0002,
    ExifTag::ImageWidth(v) => 0x0100,
    ExifTag::ImageHeight(v) => 0x0101,
    ExifTag::BitsPerSample(v) => 0x0102,
    ExifTag::Compression(v) => 0x0103,
    ExifTag::PhotometricInterpretation(v) => 0x0106,
    ExifTag::CellWidth(v) => 0x0108,
    ExifTag::CellHeight(v) => 0x0109,
    ExifTag::ImageDescription(v) => 0x010e,
    ExifTag::Make(v) => 0x010f,
    ExifTag::Model(v) => 0x0110,
    ExifTag::Orientation(v) => 0x0112,
    ExifTag::SamplesPerPixel(v) => 0x0115,
    ExifTag::RowsPerStrip(v) => 0x0116,
    ExifTag::XResolution(v) => 0x011a,
    ExifTag::YResolution(v) => 0x011b,
    ExifTag::PlanarConfiguration(v) => 0x011c,
    ExifTag::ResolutionUnit(v) => 0x0128,
    ExifTag::TransferFunction(v) => 0x012d,
    ExifTag::Software(v) => 0x0131,
    ExifTag::ModifyDate(v) => 0x0132,
    ExifTag::Artist(v) => 0x013b,
    ExifTag::WhitePoint(v) => 0x013e,
    ExifTag::PrimaryChromaticities(v) => 0x013f,
    ExifTag::ColorMap(v) => 0x0140,
    ExifTag::YCbCrCoefficients(v) => 0x0211,
    ExifTag::YCbCrSubSampling(v) => 0x0212,
    ExifTag::YCbCrPositioning(v) => 0x0213,
    ExifTag::ReferenceBlackWhite(v) => 0x0214,
    ExifTag::Copyright(v) => 0x8298,
    ExifTag::ExposureTime(v) => 0x829a,
    ExifTag::FNumber(v) => 0x829d,
    ExifTag::ExifOffset(v) => 0x8769,
    ExifTag::ExposureProgram(v) => 0x8822,
    ExifTag::SpectralSensitivity(v) => 0x8824,
    ExifTag::GPSInfo(v) => 0x8825,
    ExifTag::ISO(v) => 0x8827,
    ExifTag::OECF(v) => 0x8828,
    ExifTag::SensitivityType(v) => 0x8830,
    ExifTag::StandardOutputSensitivity(v) => 0x8831,
    ExifTag::RecommendedExposureIndex(v) => 0x8832,
    ExifTag::ISOSpeed(v) => 0x8833,
    ExifTag::ISOSpeedLatitudeyyy(v) => 0x8834,
    ExifTag::ISOSpeedLatitudezzz(v) => 0x8835,
    ExifTag::ExifVersion(v) => 0x9000,
    ExifTag::DateTimeOriginal(v) => 0x9003,
    ExifTag::CreateDate(v) => 0x9004,
    ExifTag::OffsetTime(v) => 0x9010,
    ExifTag::OffsetTimeOriginal(v) => 0x9011,
    ExifTag::OffsetTimeDigitized(v) => 0x9012,
    ExifTag::ComponentsConfiguration(v) => 0x9101,
    ExifTag::CompressedBitsPerPixel(v) => 0x9102,
    ExifTag::ShutterSpeedValue(v) => 0x9201,
    ExifTag::ApertureValue(v) => 0x9202,
    ExifTag::BrightnessValue(v) => 0x9203,
    ExifTag::ExposureCompensation(v) => 0x9204,
    ExifTag::MaxApertureValue(v) => 0x9205,
    ExifTag::SubjectDistance(v) => 0x9206,
    ExifTag::MeteringMode(v) => 0x9207,
    ExifTag::LightSource(v) => 0x9208,
    ExifTag::Flash(v) => 0x9209,
    ExifTag::FocalLength(v) => 0x920a,
    ExifTag::SubjectArea(v) => 0x9214,
    ExifTag::MakerNote(v) => 0x927c,
    ExifTag::UserComment(v) => 0x9286,
    ExifTag::SubSecTime(v) => 0x9290,
    ExifTag::SubSecTimeOriginal(v) => 0x9291,
    ExifTag::SubSecTimeDigitized(v) => 0x9292,
    ExifTag::AmbientTemperature(v) => 0x9400,
    ExifTag::Humidity(v) => 0x9401,
    ExifTag::Pressure(v) => 0x9402,
    ExifTag::WaterDepth(v) => 0x9403,
    ExifTag::Acceleration(v) => 0x9404,
    ExifTag::CameraElevationAngle(v) => 0x9405,
    ExifTag::FlashpixVersion(v) => 0xa000,
    ExifTag::ColorSpace(v) => 0xa001,
    ExifTag::ExifImageWidth(v) => 0xa002,
    ExifTag::ExifImageHeight(v) => 0xa003,
    ExifTag::RelatedSoundFile(v) => 0xa004,
    ExifTag::InteropOffset(v) => 0xa005,
    ExifTag::FlashEnergy(v) => 0xa20b,
    ExifTag::SpatialFrequencyResponse(v) => 0xa20c,
    ExifTag::FocalPlaneXResolution(v) => 0xa20e,
    ExifTag::FocalPlaneYResolution(v) => 0xa20f,
    ExifTag::FocalPlaneResolutionUnit(v) => 0xa210,
    ExifTag::SubjectLocation(v) => 0xa214,
    ExifTag::ExposureIndex(v) => 0xa215,
    ExifTag::SensingMethod(v) => 0xa217,
    ExifTag::FileSource(v) => 0xa300,
    ExifTag::SceneType(v) => 0xa301,
    ExifTag::CFAPattern(v) => 0xa302,
    ExifTag::CustomRendered(v) => 0xa401,
    ExifTag::ExposureMode(v) => 0xa402,
    ExifTag::WhiteBalance(v) => 0xa403,
    ExifTag::DigitalZoomRatio(v) => 0xa404,
    ExifTag::FocalLengthIn35mmFormat(v) => 0xa405,
    ExifTag::SceneCaptureType(v) => 0xa406,
    ExifTag::GainControl(v) => 0xa407,
    ExifTag::Contrast(v) => 0xa408,
    ExifTag::Saturation(v) => 0xa409,
    ExifTag::Sharpness(v) => 0xa40a,
    ExifTag::DeviceSettingDescription(v) => 0xa40b,
    ExifTag::SubjectDistanceRange(v) => 0xa40c,
    ExifTag::ImageUniqueID(v) => 0xa420,
    ExifTag::OwnerName(v) => 0xa430,
    ExifTag::SerialNumber(v) => 0xa431,
    ExifTag::LensInfo(v) => 0xa432,
    ExifTag::LensMake(v) => 0xa433,
    ExifTag::LensModel(v) => 0xa434,
    ExifTag::LensSerialNumber(v) => 0xa435,
    ExifTag::CompositeImage(v) => 0xa460,
    ExifTag::CompositeImageCount(v) => 0xa461,
    ExifTag::CompositeImageExposureTimes(v) => 0xa462,
    ExifTag::Gamma(v) => 0xa500,
    ExifTag::StripOffsets(_, _) => 0x0111,
    ExifTag::StripByteCounts(_) => 0x0117,
    ExifTag::ThumbnailOffset(_, _) => 0x0201,
    ExifTag::ThumbnailLength(_) => 0x0202,
    ExifTag::UnknownINT8U(v, h, g) => h,
    ExifTag::UnknownSTRING(v, h, g) => h,
    ExifTag::UnknownINT16U(v, h, g) => h,
    ExifTag::UnknownINT32U(v, h, g) => h,
    ExifTag::UnknownRATIONAL64U(v, h, g) => h,
    ExifTag::UnknownINT8S(v, h, g) => h,
    ExifTag::UnknownUNDEF(v, h, g) => h,
    ExifTag::UnknownINT16S(v, h, g) => h,
    ExifTag::UnknownINT32S(v, h, g) => h,
    ExifTag::UnknownRATIONAL64S(v, h, g) => h,
    ExifTag::UnknownFLOAT(v, h, g) => h,
    ExifTag::UnknownDOUBLE(v, h, g) => h,
} }
pub open spec fn std_grp(&self) -> ExifTagGroup { match *self {
    ExifTag::GPSVersionID(v) => ExifTagGroup::GPS,
    ExifTag::GPSLatitudeRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSLatitude(v) => ExifTagGroup::GPS,
    ExifTag::GPSLongitudeRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSLongitude(v) => ExifTagGroup::GPS,
    ExifTag::GPSAltitudeRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSAltitude(v) => ExifTagGroup::GPS,
    ExifTag::GPSTimeStamp(v) => ExifTagGroup::GPS,
    ExifTag::GPSSatellites(v) => ExifTagGroup::GPS,
    ExifTag::GPSStatus(v) => ExifTagGroup::GPS,
    ExifTag::GPSMeasureMode(v) => ExifTagGroup::GPS,
    ExifTag::GPSDOP(v) => ExifTagGroup::GPS,
    ExifTag::GPSSpeedRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSSpeed(v) => ExifTagGroup::GPS,
    ExifTag::GPSTrackRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSTrack(v) => ExifTagGroup::GPS,
    ExifTag::GPSImgDirectionRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSImgDirection(v) => ExifTagGroup::GPS,
    ExifTag::GPSMapDatum(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestLatitudeRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestLatitude(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestLongitudeRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestLongitude(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestBearingRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestBearing(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestDistanceRef(v) => ExifTagGroup::GPS,
    ExifTag::GPSDestDistance(v) => ExifTagGroup::GPS,
    ExifTag::GPSProcessingMethod(v) => ExifTagGroup::GPS,
    ExifTag::GPSAreaInformation(v) => ExifTagGroup::GPS,
    ExifTag::GPSDateStamp(v) => ExifTagGroup::GPS,
    ExifTag::GPSDifferential(v) => ExifTagGroup::GPS,
    ExifTag::GPSHPositioningError(v) => ExifTagGroup::GPS,
    ExifTag::InteroperabilityIndex(v) => ExifTagGroup::INTEROP,
    ExifTag::InteroperabilityVersion(v) => ExifTagGroup::INTEROP,
    ExifTag::ImageWidth(v) => ExifTagGroup::GENERIC,
    ExifTag::ImageHeight(v) => ExifTagGroup::GENERIC,
    ExifTag::BitsPerSample(v) => ExifTagGroup::GENERIC,
    ExifTag::Compression(v) => ExifTagGroup::GENERIC,
    ExifTag::PhotometricInterpretation(v) => ExifTagGroup::GENERIC,
    ExifTag::CellWidth(v) => ExifTagGroup::GENERIC,
    ExifTag::CellHeight(v) => ExifTagGroup::GENERIC,
    ExifTag::ImageDescription(v) => ExifTagGroup::GENERIC,
    ExifTag::Make(v) => ExifTagGroup::GENERIC,
    ExifTag::Model(v) => ExifTagGroup::GENERIC,
    ExifTag::Orientation(v) => ExifTagGroup::GENERIC,
    ExifTag::SamplesPerPixel(v) => ExifTagGroup::GENERIC,
    ExifTag::RowsPerStrip(v) => ExifTagGroup::GENERIC,
    ExifTag::XResolution(v) => ExifTagGroup::GENERIC,
    ExifTag::YResolution(v) => ExifTagGroup::GENERIC,
    ExifTag::PlanarConfiguration(v) => ExifTagGroup::GENERIC,
    ExifTag::ResolutionUnit(v) => ExifTagGroup::GENERIC,
    ExifTag::TransferFunction(v) => ExifTagGroup::GENERIC,
    ExifTag::Software(v) => ExifTagGroup::GENERIC,
    ExifTag::ModifyDate(v) => ExifTagGroup::GENERIC,
    ExifTag::Artist(v) => ExifTagGroup::GENERIC,
    ExifTag::WhitePoint(v) => ExifTagGroup::GENERIC,
    ExifTag::PrimaryChromaticities(v) => ExifTagGroup::GENERIC,
    ExifTag::ColorMap(v) => ExifTagGroup::GENERIC,
    ExifTag::YCbCrCoefficients(v) => ExifTagGroup::GENERIC,
    ExifTag::YCbCrSubSampling(v) => ExifTagGroup::GENERIC,
    ExifTag::YCbCrPositioning(v) => ExifTagGroup::GENERIC,
    ExifTag::ReferenceBlackWhite(v) => ExifTagGroup::GENERIC,
    ExifTag::Copyright(v) => ExifTagGroup::GENERIC,
    ExifTag::ExposureTime(v) => ExifTagGroup::EXIF,
    ExifTag::FNumber(v) => ExifTagGroup::EXIF,
    ExifTag::ExifOffset(v) => ExifTagGroup::GENERIC,
    ExifTag::ExposureProgram(v) => ExifTagGroup::EXIF,
    ExifTag::SpectralSensitivity(v) => ExifTagGroup::EXIF,
    ExifTag::GPSInfo(v) => ExifTagGroup::GENERIC,
    ExifTag::ISO(v) => ExifTagGroup::EXIF,
    ExifTag::OECF(v) => ExifTagGroup::EXIF,
    ExifTag::SensitivityType(v) => ExifTagGroup::EXIF,
    ExifTag::StandardOutputSensitivity(v) => ExifTagGroup::EXIF,
    ExifTag::RecommendedExposureIndex(v) => ExifTagGroup::EXIF,
    ExifTag::ISOSpeed(v) => ExifTagGroup::EXIF,
    ExifTag::ISOSpeedLatitudeyyy(v) => ExifTagGroup::EXIF,
    ExifTag::ISOSpeedLatitudezzz(v) => ExifTagGroup::EXIF,
    ExifTag::ExifVersion(v) => ExifTagGroup::EXIF,
    ExifTag::DateTimeOriginal(v) => ExifTagGroup::EXIF,
    ExifTag::CreateDate(v) => ExifTagGroup::EXIF,
    ExifTag::OffsetTime(v) => ExifTagGroup::EXIF,
    ExifTag::OffsetTimeOriginal(v) => ExifTagGroup::EXIF,
    ExifTag::OffsetTimeDigitized(v) => ExifTagGroup::EXIF,
    ExifTag::ComponentsConfiguration(v) => ExifTagGroup::EXIF,
    ExifTag::CompressedBitsPerPixel(v) => ExifTagGroup::EXIF,
    ExifTag::ShutterSpeedValue(v) => ExifTagGroup::EXIF,
    ExifTag::ApertureValue(v) => ExifTagGroup::EXIF,
    ExifTag::BrightnessValue(v) => ExifTagGroup::EXIF,
    ExifTag::ExposureCompensation(v) => ExifTagGroup::EXIF,
    ExifTag::MaxApertureValue(v) => ExifTagGroup::EXIF,
    ExifTag::SubjectDistance(v) => ExifTagGroup::EXIF,
    ExifTag::MeteringMode(v) => ExifTagGroup::EXIF,
    ExifTag::LightSource(v) => ExifTagGroup::EXIF,
    ExifTag::Flash(v) => ExifTagGroup::EXIF,
    ExifTag::FocalLength(v) => ExifTagGroup::EXIF,
    ExifTag::SubjectArea(v) => ExifTagGroup::EXIF,
    ExifTag::MakerNote(v) => ExifTagGroup::EXIF,
    ExifTag::UserComment(v) => ExifTagGroup::EXIF,
    ExifTag::SubSecTime(v) => ExifTagGroup::EXIF,
    ExifTag::SubSecTimeOriginal(v) => ExifTagGroup::EXIF,
    ExifTag::SubSecTimeDigitized(v) => ExifTagGroup::EXIF,
    ExifTag::AmbientTemperature(v) => ExifTagGroup::EXIF,
    ExifTag::Humidity(v) => ExifTagGroup::EXIF,
    ExifTag::Pressure(v) => ExifTagGroup::EXIF,
    ExifTag::WaterDepth(v) => ExifTagGroup::EXIF,
    ExifTag::Acceleration(v) => ExifTagGroup::EXIF,
    ExifTag::CameraElevationAngle(v) => ExifTagGroup::EXIF,
    ExifTag::FlashpixVersion(v) => ExifTagGroup::EXIF,
    ExifTag::ColorSpace(v) => ExifTagGroup::EXIF,
    ExifTag::ExifImageWidth(v) => ExifTagGroup::EXIF,
    ExifTag::ExifImageHeight(v) => ExifTagGroup::EXIF,
    ExifTag::RelatedSoundFile(v) => ExifTagGroup::EXIF,
    ExifTag::InteropOffset(v) => ExifTagGroup::EXIF,
    ExifTag::FlashEnergy(v) => ExifTagGroup::EXIF,
    ExifTag::SpatialFrequencyResponse(v) => ExifTagGroup::EXIF,
    ExifTag::FocalPlaneXResolution(v) => ExifTagGroup::EXIF,
    ExifTag::FocalPlaneYResolution(v) => ExifTagGroup::EXIF,
    ExifTag::FocalPlaneResolutionUnit(v) => ExifTagGroup::EXIF,
    ExifTag::SubjectLocation(v) => ExifTagGroup::EXIF,
    ExifTag::ExposureIndex(v) => ExifTagGroup::EXIF,
    ExifTag::SensingMethod(v) => ExifTagGroup::EXIF,
    ExifTag::FileSource(v) => ExifTagGroup::EXIF,
    ExifTag::SceneType(v) => ExifTagGroup::EXIF,
    ExifTag::CFAPattern(v) => ExifTagGroup::EXIF,
    ExifTag::CustomRendered(v) => ExifTagGroup::EXIF,
    ExifTag::ExposureMode(v) => ExifTagGroup::EXIF,
    ExifTag::WhiteBalance(v) => ExifTagGroup::EXIF,
    ExifTag::DigitalZoomRatio(v) => ExifTagGroup::EXIF,
    ExifTag::FocalLengthIn35mmFormat(v) => ExifTagGroup::EXIF,
    ExifTag::SceneCaptureType(v) => ExifTagGroup::EXIF,
    ExifTag::GainControl(v) => ExifTagGroup::EXIF,
    ExifTag::Contrast(v) => ExifTagGroup::EXIF,
    ExifTag::Saturation(v) => ExifTagGroup::EXIF,
    ExifTag::Sharpness(v) => ExifTagGroup::EXIF,
    ExifTag::DeviceSettingDescription(v) => ExifTagGroup::EXIF,
    ExifTag::SubjectDistanceRange(v) => ExifTagGroup::EXIF,
    ExifTag::ImageUniqueID(v) => ExifTagGroup::EXIF,
    ExifTag::OwnerName(v) => ExifTagGroup::EXIF,
    ExifTag::SerialNumber(v) => ExifTagGroup::EXIF,
    ExifTag::LensInfo(v) => ExifTagGroup::EXIF,
    ExifTag::LensMake(v) => ExifTagGroup::EXIF,
    ExifTag::LensModel(v) => ExifTagGroup::EXIF,
    ExifTag::LensSerialNumber(v) => ExifTagGroup::EXIF,
    ExifTag::CompositeImage(v) => ExifTagGroup::EXIF,
    ExifTag::CompositeImageCount(v) => ExifTagGroup::EXIF,
    ExifTag::CompositeImageExposureTimes(v) => ExifTagGroup::EXIF,
    ExifTag::Gamma(v) => ExifTagGroup::EXIF,
    ExifTag::StripOffsets(_, _) => ExifTagGroup::GENERIC,
    ExifTag::StripByteCounts(_) => ExifTagGroup::GENERIC,
    ExifTag::ThumbnailOffset(_, _) => ExifTagGroup::GENERIC,
    ExifTag::ThumbnailLength(_) => ExifTagGroup::GENERIC,
    ExifTag::UnknownINT8U(v, h, g) => g,
    ExifTag::UnknownSTRING(v, h, g) => g,
    ExifTag::UnknownINT16U(v, h, g) => g,
    ExifTag::UnknownINT32U(v, h, g) => g,
    ExifTag::UnknownRATIONAL64U(v, h, g) => g,
    ExifTag::UnknownINT8S(v, h, g) => g,
    ExifTag::UnknownUNDEF(v, h, g) => g,
    ExifTag::UnknownINT16S(v, h, g) => g,
    ExifTag::UnknownINT32S(v, h, g) => g,
    ExifTag::UnknownRATIONAL64S(v, h, g) => g,
    ExifTag::UnknownFLOAT(v, h, g) => g,
    ExifTag::UnknownDOUBLE(v, h, g) => g,
} }
pub open spec fn std_fmt(&self) -> ExifTagFormat { match *self {
    ExifTag::GPSVersionID(v) => ExifTagFormat::INT8U,
    ExifTag::GPSLatitudeRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSLatitude(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSLongitudeRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSLongitude(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSAltitudeRef(v) => ExifTagFormat::INT8U,
    ExifTag::GPSAltitude(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSTimeStamp(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSSatellites(v) => ExifTagFormat::STRING,
    ExifTag::GPSStatus(v) => ExifTagFormat::STRING,
    ExifTag::GPSMeasureMode(v) => ExifTagFormat::STRING,
    ExifTag::GPSDOP(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSSpeedRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSSpeed(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSTrackRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSTrack(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSImgDirectionRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSImgDirection(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSMapDatum(v) => ExifTagFormat::STRING,
    ExifTag::GPSDestLatitudeRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSDestLatitude(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSDestLongitudeRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSDestLongitude(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSDestBearingRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSDestBearing(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSDestDistanceRef(v) => ExifTagFormat::STRING,
    ExifTag::GPSDestDistance(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::GPSProcessingMethod(v) => ExifTagFormat::UNDEF,
    ExifTag::GPSAreaInformation(v) => ExifTagFormat::UNDEF,
    ExifTag::GPSDateStamp(v) => ExifTagFormat::STRING,
    ExifTag::GPSDifferential(v) => ExifTagFormat::INT16U,
    ExifTag::GPSHPositioningError(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::InteroperabilityIndex(v) => ExifTagFormat::STRING,
    ExifTag::InteroperabilityVersion(v) => ExifTagFormat::UNDEF,
    ExifTag::ImageWidth(v) => ExifTagFormat::INT32U,
    ExifTag::ImageHeight(v) => ExifTagFormat::INT32U,
    ExifTag::BitsPerSample(v) => ExifTagFormat::INT16U,
    ExifTag::Compression(v) => ExifTagFormat::INT16U,
    ExifTag::PhotometricInterpretation(v) => ExifTagFormat::INT16U,
    ExifTag::CellWidth(v) => ExifTagFormat::INT16U,
    ExifTag::CellHeight(v) => ExifTagFormat::INT16U,
    ExifTag::ImageDescription(v) => ExifTagFormat::STRING,
    ExifTag::Make(v) => ExifTagFormat::STRING,
    ExifTag::Model(v) => ExifTagFormat::STRING,
    ExifTag::Orientation(v) => ExifTagFormat::INT16U,
    ExifTag::SamplesPerPixel(v) => ExifTagFormat::INT16U,
    ExifTag::RowsPerStrip(v) => ExifTagFormat::INT32U,
    ExifTag::XResolution(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::YResolution(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::PlanarConfiguration(v) => ExifTagFormat::INT16U,
    ExifTag::ResolutionUnit(v) => ExifTagFormat::INT16U,
    ExifTag::TransferFunction(v) => ExifTagFormat::INT16U,
    ExifTag::Software(v) => ExifTagFormat::STRING,
    ExifTag::ModifyDate(v) => ExifTagFormat::STRING,
    ExifTag::Artist(v) => ExifTagFormat::STRING,
    ExifTag::WhitePoint(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::PrimaryChromaticities(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::ColorMap(v) => ExifTagFormat::INT16U,
    ExifTag::YCbCrCoefficients(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::YCbCrSubSampling(v) => ExifTagFormat::INT16U,
    ExifTag::YCbCrPositioning(v) => ExifTagFormat::INT16U,
    ExifTag::ReferenceBlackWhite(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::Copyright(v) => ExifTagFormat::STRING,
    ExifTag::ExposureTime(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::FNumber(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::ExifOffset(v) => ExifTagFormat::INT32U,
    ExifTag::ExposureProgram(v) => ExifTagFormat::INT16U,
    ExifTag::SpectralSensitivity(v) => ExifTagFormat::STRING,
    ExifTag::GPSInfo(v) => ExifTagFormat::INT32U,
    ExifTag::ISO(v) => ExifTagFormat::INT16U,
    ExifTag::OECF(v) => ExifTagFormat::UNDEF,
    ExifTag::SensitivityType(v) => ExifTagFormat::INT16U,
    ExifTag::StandardOutputSensitivity(v) => ExifTagFormat::INT32U,
    ExifTag::RecommendedExposureIndex(v) => ExifTagFormat::INT32U,
    ExifTag::ISOSpeed(v) => ExifTagFormat::INT32U,
    ExifTag::ISOSpeedLatitudeyyy(v) => ExifTagFormat::INT32U,
    ExifTag::ISOSpeedLatitudezzz(v) => ExifTagFormat::INT32U,
    ExifTag::ExifVersion(v) => ExifTagFormat::UNDEF,
    ExifTag::DateTimeOriginal(v) => ExifTagFormat::STRING,
    ExifTag::CreateDate(v) => ExifTagFormat::STRING,
    ExifTag::OffsetTime(v) => ExifTagFormat::STRING,
    ExifTag::OffsetTimeOriginal(v) => ExifTagFormat::STRING,
    ExifTag::OffsetTimeDigitized(v) => ExifTagFormat::STRING,
    ExifTag::ComponentsConfiguration(v) => ExifTagFormat::UNDEF,
    ExifTag::CompressedBitsPerPixel(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::ShutterSpeedValue(v) => ExifTagFormat::RATIONAL64S,
    ExifTag::ApertureValue(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::BrightnessValue(v) => ExifTagFormat::RATIONAL64S,
    ExifTag::ExposureCompensation(v) => ExifTagFormat::RATIONAL64S,
    ExifTag::MaxApertureValue(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::SubjectDistance(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::MeteringMode(v) => ExifTagFormat::INT16U,
    ExifTag::LightSource(v) => ExifTagFormat::INT16U,
    ExifTag::Flash(v) => ExifTagFormat::INT16U,
    ExifTag::FocalLength(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::SubjectArea(v) => ExifTagFormat::INT16U,
    ExifTag::MakerNote(v) => ExifTagFormat::UNDEF,
    ExifTag::UserComment(v) => ExifTagFormat::UNDEF,
    ExifTag::SubSecTime(v) => ExifTagFormat::STRING,
    ExifTag::SubSecTimeOriginal(v) => ExifTagFormat::STRING,
    ExifTag::SubSecTimeDigitized(v) => ExifTagFormat::STRING,
    ExifTag::AmbientTemperature(v) => ExifTagFormat::RATIONAL64S,
    ExifTag::Humidity(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::Pressure(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::WaterDepth(v) => ExifTagFormat::RATIONAL64S,
    ExifTag::Acceleration(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::CameraElevationAngle(v) => ExifTagFormat::RATIONAL64S,
    ExifTag::FlashpixVersion(v) => ExifTagFormat::UNDEF,
    ExifTag::ColorSpace(v) => ExifTagFormat::INT16U,
    ExifTag::ExifImageWidth(v) => ExifTagFormat::INT32U,
    ExifTag::ExifImageHeight(v) => ExifTagFormat::INT32U,
    ExifTag::RelatedSoundFile(v) => ExifTagFormat::STRING,
    ExifTag::InteropOffset(v) => ExifTagFormat::INT32U,
    ExifTag::FlashEnergy(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::SpatialFrequencyResponse(v) => ExifTagFormat::INT16U,
    ExifTag::FocalPlaneXResolution(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::FocalPlaneYResolution(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::FocalPlaneResolutionUnit(v) => ExifTagFormat::INT16U,
    ExifTag::SubjectLocation(v) => ExifTagFormat::INT16U,
    ExifTag::ExposureIndex(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::SensingMethod(v) => ExifTagFormat::INT16U,
    ExifTag::FileSource(v) => ExifTagFormat::UNDEF,
    ExifTag::SceneType(v) => ExifTagFormat::UNDEF,
    ExifTag::CFAPattern(v) => ExifTagFormat::UNDEF,
    ExifTag::CustomRendered(v) => ExifTagFormat::INT16U,
    ExifTag::ExposureMode(v) => ExifTagFormat::INT16U,
    ExifTag::WhiteBalance(v) => ExifTagFormat::INT16U,
    ExifTag::DigitalZoomRatio(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::FocalLengthIn35mmFormat(v) => ExifTagFormat::INT16U,
    ExifTag::SceneCaptureType(v) => ExifTagFormat::INT16U,
    ExifTag::GainControl(v) => ExifTagFormat::INT16U,
    ExifTag::Contrast(v) => ExifTagFormat::INT16U,
    ExifTag::Saturation(v) => ExifTagFormat::INT16U,
    ExifTag::Sharpness(v) => ExifTagFormat::INT16U,
    ExifTag::DeviceSettingDescription(v) => ExifTagFormat::UNDEF,
    ExifTag::SubjectDistanceRange(v) => ExifTagFormat::INT16U,
    ExifTag::ImageUniqueID(v) => ExifTagFormat::STRING,
    ExifTag::OwnerName(v) => ExifTagFormat::STRING,
    ExifTag::SerialNumber(v) => ExifTagFormat::STRING,
    ExifTag::LensInfo(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::LensMake(v) => ExifTagFormat::STRING,
    ExifTag::LensModel(v) => ExifTagFormat::STRING,
    ExifTag::LensSerialNumber(v) => ExifTagFormat::STRING,
    ExifTag::CompositeImage(v) => ExifTagFormat::INT16U,
    ExifTag::CompositeImageCount(v) => ExifTagFormat::INT16U,
    ExifTag::CompositeImageExposureTimes(v) => ExifTagFormat::UNDEF,
    ExifTag::Gamma(v) => ExifTagFormat::RATIONAL64U,
    ExifTag::StripOffsets(_, _) => ExifTagFormat::INT32U,
    ExifTag::StripByteCounts(_) => ExifTagFormat::INT32U,
    ExifTag::ThumbnailOffset(_, _) => ExifTagFormat::INT32U,
    ExifTag::ThumbnailLength(_) => ExifTagFormat::INT32U,
    ExifTag::UnknownINT8U(v, h, g) => ExifTagFormat::INT8U,
    ExifTag::UnknownSTRING(v, h, g) => ExifTagFormat::STRING,
    ExifTag::UnknownINT16U(v, h, g) => ExifTagFormat::INT16U,
    ExifTag::UnknownINT32U(v, h, g) => ExifTagFormat::INT32U,
    ExifTag::UnknownRATIONAL64U(v, h, g) => ExifTagFormat::RATIONAL64U,
    ExifTag::UnknownINT8S(v, h, g) => ExifTagFormat::INT8S,
    ExifTag::UnknownUNDEF(v, h, g) => ExifTagFormat::UNDEF,
    ExifTag::UnknownINT16S(v, h, g) => ExifTagFormat::INT16S,
    ExifTag::UnknownINT32S(v, h, g) => ExifTagFormat::INT32S,
    ExifTag::UnknownRATIONAL64S(v, h, g) => ExifTagFormat::RATIONAL64S,
    ExifTag::UnknownFLOAT(v, h, g) => ExifTagFormat::FLOAT,
    ExifTag::UnknownDOUBLE(v, h, g) => ExifTagFormat::DOUBLE,
} }
pub open spec fn std_writable(&self) -> bool { match *self {
    ExifTag::GPSVersionID(v) => true,
    ExifTag::GPSLatitudeRef(v) => true,
    ExifTag::GPSLatitude(v) => true,
    ExifTag::GPSLongitudeRef(v) => true,
    ExifTag::GPSLongitude(v) => true,
    ExifTag::GPSAltitudeRef(v) => true,
    ExifTag::GPSAltitude(v) => true,
    ExifTag::GPSTimeStamp(v) => true,
    ExifTag::GPSSatellites(v) => true,
    ExifTag::GPSStatus(v) => true,
    ExifTag::GPSMeasureMode(v) => true,
    ExifTag::GPSDOP(v) => true,
    ExifTag::GPSSpeedRef(v) => true,
    ExifTag::GPSSpeed(v) => true,
    ExifTag::GPSTrackRef(v) => true,
    ExifTag::GPSTrack(v) => true,
    ExifTag::GPSImgDirectionRef(v) => true,
    ExifTag::GPSImgDirection(v) => true,
    ExifTag::GPSMapDatum(v) => true,
    ExifTag::GPSDestLatitudeRef(v) => true,
    ExifTag::GPSDestLatitude(v) => true,
    ExifTag::GPSDestLongitudeRef(v) => true,
    ExifTag::GPSDestLongitude(v) => true,
    ExifTag::GPSDestBearingRef(v) => true,
    ExifTag::GPSDestBearing(v) => true,
    ExifTag::GPSDestDistanceRef(v) => true,
    ExifTag::GPSDestDistance(v) => true,
    ExifTag::GPSProcessingMethod(v) => true,
    ExifTag::GPSAreaInformation(v) => true,
    ExifTag::GPSDateStamp(v) => true,
    ExifTag::GPSDifferential(v) => true,
    ExifTag::GPSHPositioningError(v) => true,
    ExifTag::InteroperabilityIndex(v) => true,
    ExifTag::InteroperabilityVersion(v) => true,
    ExifTag::ImageWidth(v) => true,
    ExifTag::ImageHeight(v) => true,
    ExifTag::BitsPerSample(v) => true,
    ExifTag::Compression(v) => true,
    ExifTag::PhotometricInterpretation(v) => true,
    ExifTag::CellWidth(v) => true,
    ExifTag::CellHeight(v) => true,
    ExifTag::ImageDescription(v) => true,
    ExifTag::Make(v) => true,
    ExifTag::Model(v) => true,
    ExifTag::Orientation(v) => true,
    ExifTag::SamplesPerPixel(v) => true,
    ExifTag::RowsPerStrip(v) => true,
    ExifTag::XResolution(v) => true,
    ExifTag::YResolution(v) => true,
    ExifTag::PlanarConfiguration(v) => true,
    ExifTag::ResolutionUnit(v) => true,
    ExifTag::TransferFunction(v) => true,
    ExifTag::Software(v) => true,
    ExifTag::ModifyDate(v) => true,
    ExifTag::Artist(v) => true,
    ExifTag::WhitePoint(v) => true,
    ExifTag::PrimaryChromaticities(v) => true,
    ExifTag::ColorMap(v) => true,
    ExifTag::YCbCrCoefficients(v) => true,
    ExifTag::YCbCrSubSampling(v) => true,
    ExifTag::YCbCrPositioning(v) => true,
    ExifTag::ReferenceBlackWhite(v) => true,
    ExifTag::Copyright(v) => true,
    ExifTag::ExposureTime(v) => true,
    ExifTag::FNumber(v) => true,
    ExifTag::ExifOffset(v) => false,
    ExifTag::ExposureProgram(v) => true,
    ExifTag::SpectralSensitivity(v) => true,
    ExifTag::GPSInfo(v) => true,
    ExifTag::ISO(v) => true,
    ExifTag::OECF(v) => false,
    ExifTag::SensitivityType(v) => true,
    ExifTag::StandardOutputSensitivity(v) => true,
    ExifTag::RecommendedExposureIndex(v) => true,
    ExifTag::ISOSpeed(v) => true,
    ExifTag::ISOSpeedLatitudeyyy(v) => true,
    ExifTag::ISOSpeedLatitudezzz(v) => true,
    ExifTag::ExifVersion(v) => true,
    ExifTag::DateTimeOriginal(v) => true,
    ExifTag::CreateDate(v) => true,
    ExifTag::OffsetTime(v) => true,
    ExifTag::OffsetTimeOriginal(v) => true,
    ExifTag::OffsetTimeDigitized(v) => true,
    ExifTag::ComponentsConfiguration(v) => true,
    ExifTag::CompressedBitsPerPixel(v) => true,
    ExifTag::ShutterSpeedValue(v) => true,
    ExifTag::ApertureValue(v) => true,
    ExifTag::BrightnessValue(v) => true,
    ExifTag::ExposureCompensation(v) => true,
    ExifTag::MaxApertureValue(v) => true,
    ExifTag::SubjectDistance(v) => true,
    ExifTag::MeteringMode(v) => true,
    ExifTag::LightSource(v) => true,
    ExifTag::Flash(v) => true,
    ExifTag::FocalLength(v) => true,
    ExifTag::SubjectArea(v) => true,
    ExifTag::MakerNote(v) => true,
    ExifTag::UserComment(v) => true,
    ExifTag::SubSecTime(v) => true,
    ExifTag::SubSecTimeOriginal(v) => true,
    ExifTag::SubSecTimeDigitized(v) => true,
    ExifTag::AmbientTemperature(v) => true,
    ExifTag::Humidity(v) => true,
    ExifTag::Pressure(v) => true,
    ExifTag::WaterDepth(v) => true,
    ExifTag::Acceleration(v) => true,
    ExifTag::CameraElevationAngle(v) => true,
    ExifTag::FlashpixVersion(v) => true,
    ExifTag::ColorSpace(v) => true,
    ExifTag::ExifImageWidth(v) => true,
    ExifTag::ExifImageHeight(v) => true,
    ExifTag::RelatedSoundFile(v) => true,
    ExifTag::InteropOffset(v) => true,
    ExifTag::FlashEnergy(v) => true,
    ExifTag::SpatialFrequencyResponse(v) => false,
    ExifTag::FocalPlaneXResolution(v) => true,
    ExifTag::FocalPlaneYResolution(v) => true,
    ExifTag::FocalPlaneResolutionUnit(v) => true,
    ExifTag::SubjectLocation(v) => true,
    ExifTag::ExposureIndex(v) => true,
    ExifTag::SensingMethod(v) => true,
    ExifTag::FileSource(v) => true,
    ExifTag::SceneType(v) => true,
    ExifTag::CFAPattern(v) => true,
    ExifTag::CustomRendered(v) => true,
    ExifTag::ExposureMode(v) => true,
    ExifTag::WhiteBalance(v) => true,
    ExifTag::DigitalZoomRatio(v) => true,
    ExifTag::FocalLengthIn35mmFormat(v) => true,
    ExifTag::SceneCaptureType(v) => true,
    ExifTag::GainControl(v) => true,
    ExifTag::Contrast(v) => true,
    ExifTag::Saturation(v) => true,
    ExifTag::Sharpness(v) => true,
    ExifTag::DeviceSettingDescription(v) => false,
    ExifTag::SubjectDistanceRange(v) => true,
    ExifTag::ImageUniqueID(v) => true,
    ExifTag::OwnerName(v) => true,
    ExifTag::SerialNumber(v) => true,
    ExifTag::LensInfo(v) => true,
    ExifTag::LensMake(v) => true,
    ExifTag::LensModel(v) => true,
    ExifTag::LensSerialNumber(v) => true,
    ExifTag::CompositeImage(v) => true,
    ExifTag::CompositeImageCount(v) => true,
    ExifTag::CompositeImageExposureTimes(v) => true,
    ExifTag::Gamma(v) => true,
    ExifTag::StripOffsets(_, _) => true,
    ExifTag::StripByteCounts(_) => true,
    ExifTag::ThumbnailOffset(_, _) => true,
    ExifTag::ThumbnailLength(_) => true,
    ExifTag::UnknownINT8U(v, h, g) => true,
    ExifTag::UnknownSTRING(v, h, g) => true,
    ExifTag::UnknownINT16U(v, h, g) => true,
    ExifTag::UnknownINT32U(v, h, g) => true,
    ExifTag::UnknownRATIONAL64U(v, h, g) => true,
    ExifTag::UnknownINT8S(v, h, g) => true,
    ExifTag::UnknownUNDEF(v, h, g) => true,
    ExifTag::UnknownINT16S(v, h, g) => true,
    ExifTag::UnknownINT32S(v, h, g) => true,
    ExifTag::UnknownRATIONAL64S(v, h, g) => true,
    ExifTag::UnknownFLOAT(v, h, g) => true,
    ExifTag::UnknownDOUBLE(v, h, g) => true,
} }
/// number of components: the length of the value, or the standard's fixed count for an empty one; text counts its NUL
pub open spec fn std_count(&self) -> nat { match *self {
    ExifTag::GPSVersionID(v) => if v@.len() > 0 { v@.len() } else { 4 },
    ExifTag::GPSLatitudeRef(v) => v.b@.len() + 1,
    ExifTag::GPSLatitude(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::GPSLongitudeRef(v) => v.b@.len() + 1,
    ExifTag::GPSLongitude(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::GPSAltitudeRef(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSAltitude(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSTimeStamp(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::GPSSatellites(v) => v.b@.len() + 1,
    ExifTag::GPSStatus(v) => v.b@.len() + 1,
    ExifTag::GPSMeasureMode(v) => v.b@.len() + 1,
    ExifTag::GPSDOP(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSSpeedRef(v) => v.b@.len() + 1,
    ExifTag::GPSSpeed(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSTrackRef(v) => v.b@.len() + 1,
    ExifTag::GPSTrack(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSImgDirectionRef(v) => v.b@.len() + 1,
    ExifTag::GPSImgDirection(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSMapDatum(v) => v.b@.len() + 1,
    ExifTag::GPSDestLatitudeRef(v) => v.b@.len() + 1,
    ExifTag::GPSDestLatitude(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::GPSDestLongitudeRef(v) => v.b@.len() + 1,
    ExifTag::GPSDestLongitude(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::GPSDestBearingRef(v) => v.b@.len() + 1,
    ExifTag::GPSDestBearing(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSDestDistanceRef(v) => v.b@.len() + 1,
    ExifTag::GPSDestDistance(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSProcessingMethod(v) => v@.len(),
    ExifTag::GPSAreaInformation(v) => v@.len(),
    ExifTag::GPSDateStamp(v) => v.b@.len() + 1,
    ExifTag::GPSDifferential(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GPSHPositioningError(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::InteroperabilityIndex(v) => v.b@.len() + 1,
    ExifTag::InteroperabilityVersion(v) => v@.len(),
    ExifTag::ImageWidth(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ImageHeight(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::BitsPerSample(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::Compression(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::PhotometricInterpretation(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::CellWidth(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::CellHeight(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ImageDescription(v) => v.b@.len() + 1,
    ExifTag::Make(v) => v.b@.len() + 1,
    ExifTag::Model(v) => v.b@.len() + 1,
    ExifTag::Orientation(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SamplesPerPixel(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::RowsPerStrip(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::XResolution(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::YResolution(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::PlanarConfiguration(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ResolutionUnit(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::TransferFunction(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::Software(v) => v.b@.len() + 1,
    ExifTag::ModifyDate(v) => v.b@.len() + 1,
    ExifTag::Artist(v) => v.b@.len() + 1,
    ExifTag::WhitePoint(v) => if v@.len() > 0 { v@.len() } else { 2 },
    ExifTag::PrimaryChromaticities(v) => if v@.len() > 0 { v@.len() } else { 6 },
    ExifTag::ColorMap(v) => v@.len(),
    ExifTag::YCbCrCoefficients(v) => if v@.len() > 0 { v@.len() } else { 3 },
    ExifTag::YCbCrSubSampling(v) => if v@.len() > 0 { v@.len() } else { 2 },
    ExifTag::YCbCrPositioning(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ReferenceBlackWhite(v) => if v@.len() > 0 { v@.len() } else { 6 },
    ExifTag::Copyright(v) => v.b@.len() + 1,
    ExifTag::ExposureTime(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FNumber(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExifOffset(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExposureProgram(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SpectralSensitivity(v) => v.b@.len() + 1,
    ExifTag::GPSInfo(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ISO(v) => v@.len(),
    ExifTag::OECF(v) => v@.len(),
    ExifTag::SensitivityType(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::StandardOutputSensitivity(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::RecommendedExposureIndex(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ISOSpeed(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ISOSpeedLatitudeyyy(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ISOSpeedLatitudezzz(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExifVersion(v) => if v@.len() > 0 { v@.len() } else { 4 },
    ExifTag::DateTimeOriginal(v) => v.b@.len() + 1,
    ExifTag::CreateDate(v) => v.b@.len() + 1,
    ExifTag::OffsetTime(v) => v.b@.len() + 1,
    ExifTag::OffsetTimeOriginal(v) => v.b@.len() + 1,
    ExifTag::OffsetTimeDigitized(v) => v.b@.len() + 1,
    ExifTag::ComponentsConfiguration(v) => v@.len(),
    ExifTag::CompressedBitsPerPixel(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ShutterSpeedValue(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ApertureValue(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::BrightnessValue(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExposureCompensation(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::MaxApertureValue(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SubjectDistance(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::MeteringMode(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::LightSource(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Flash(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FocalLength(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SubjectArea(v) => if v@.len() > 0 { v@.len() } else { 4 },
    ExifTag::MakerNote(v) => v@.len(),
    ExifTag::UserComment(v) => v@.len(),
    ExifTag::SubSecTime(v) => v.b@.len() + 1,
    ExifTag::SubSecTimeOriginal(v) => v.b@.len() + 1,
    ExifTag::SubSecTimeDigitized(v) => v.b@.len() + 1,
    ExifTag::AmbientTemperature(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Humidity(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Pressure(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::WaterDepth(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Acceleration(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::CameraElevationAngle(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FlashpixVersion(v) => if v@.len() > 0 { v@.len() } else { 4 },
    ExifTag::ColorSpace(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExifImageWidth(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExifImageHeight(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::RelatedSoundFile(v) => v.b@.len() + 1,
    ExifTag::InteropOffset(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FlashEnergy(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SpatialFrequencyResponse(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FocalPlaneXResolution(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FocalPlaneYResolution(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FocalPlaneResolutionUnit(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SubjectLocation(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExposureIndex(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SensingMethod(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FileSource(v) => v@.len(),
    ExifTag::SceneType(v) => v@.len(),
    ExifTag::CFAPattern(v) => v@.len(),
    ExifTag::CustomRendered(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ExposureMode(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::WhiteBalance(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::DigitalZoomRatio(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::FocalLengthIn35mmFormat(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::SceneCaptureType(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::GainControl(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Contrast(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Saturation(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::Sharpness(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::DeviceSettingDescription(v) => v@.len(),
    ExifTag::SubjectDistanceRange(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::ImageUniqueID(v) => v.b@.len() + 1,
    ExifTag::OwnerName(v) => v.b@.len() + 1,
    ExifTag::SerialNumber(v) => v.b@.len() + 1,
    ExifTag::LensInfo(v) => if v@.len() > 0 { v@.len() } else { 4 },
    ExifTag::LensMake(v) => v.b@.len() + 1,
    ExifTag::LensModel(v) => v.b@.len() + 1,
    ExifTag::LensSerialNumber(v) => v.b@.len() + 1,
    ExifTag::CompositeImage(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::CompositeImageCount(v) => if v@.len() > 0 { v@.len() } else { 2 },
    ExifTag::CompositeImageExposureTimes(v) => v@.len(),
    ExifTag::Gamma(v) => if v@.len() > 0 { v@.len() } else { 1 },
    ExifTag::StripOffsets(_, v) => v@.len(),
    ExifTag::StripByteCounts(v) => v@.len(),
    ExifTag::ThumbnailOffset(_, _) => 1,
    ExifTag::ThumbnailLength(v) => v@.len(),
    ExifTag::UnknownINT8U(v, _, _) => v@.len(),
    ExifTag::UnknownSTRING(v, _, _) => v.b@.len() + 1,
    ExifTag::UnknownINT16U(v, _, _) => v@.len(),
    ExifTag::UnknownINT32U(v, _, _) => v@.len(),
    ExifTag::UnknownRATIONAL64U(v, _, _) => v@.len(),
    ExifTag::UnknownINT8S(v, _, _) => v@.len(),
    ExifTag::UnknownUNDEF(v, _, _) => v@.len(),
    ExifTag::UnknownINT16S(v, _, _) => v@.len(),
    ExifTag::UnknownINT32S(v, _, _) => v@.len(),
    ExifTag::UnknownRATIONAL64S(v, _, _) => v@.len(),
    ExifTag::UnknownFLOAT(v, _, _) => v@.len(),
    ExifTag::UnknownDOUBLE(v, _, _) => v@.len(),
} }
/// the encoded value
pub open spec fn val(&self, e: Endian) -> Seq<u8> { match *self {
    ExifTag::GPSVersionID(v) => v.enc(e),
    ExifTag::GPSLatitudeRef(v) => v.enc(e),
    ExifTag::GPSLatitude(v) => v.enc(e),
    ExifTag::GPSLongitudeRef(v) => v.enc(e),
    ExifTag::GPSLongitude(v) => v.enc(e),
    ExifTag::GPSAltitudeRef(v) => v.enc(e),
    ExifTag::GPSAltitude(v) => v.enc(e),
    ExifTag::GPSTimeStamp(v) => v.enc(e),
    ExifTag::GPSSatellites(v) => v.enc(e),
    ExifTag::GPSStatus(v) => v.enc(e),
    ExifTag::GPSMeasureMode(v) => v.enc(e),
    ExifTag::GPSDOP(v) => v.enc(e),
    ExifTag::GPSSpeedRef(v) => v.enc(e),
    ExifTag::GPSSpeed(v) => v.enc(e),
    ExifTag::GPSTrackRef(v) => v.enc(e),
    ExifTag::GPSTrack(v) => v.enc(e),
    ExifTag::GPSImgDirectionRef(v) => v.enc(e),
    ExifTag::GPSImgDirection(v) => v.enc(e),
    ExifTag::GPSMapDatum(v) => v.enc(e),
    ExifTag::GPSDestLatitudeRef(v) => v.enc(e),
    ExifTag::GPSDestLatitude(v) => v.enc(e),
    ExifTag::GPSDestLongitudeRef(v) => v.enc(e),
    ExifTag::GPSDestLongitude(v) => v.enc(e),
    ExifTag::GPSDestBearingRef(v) => v.enc(e),
    ExifTag::GPSDestBearing(v) => v.enc(e),
    ExifTag::GPSDestDistanceRef(v) => v.enc(e),
    ExifTag::GPSDestDistance(v) => v.enc(e),
    ExifTag::GPSProcessingMethod(v) => v.enc(e),
    ExifTag::GPSAreaInformation(v) => v.enc(e),
    ExifTag::GPSDateStamp(v) => v.enc(e),
    ExifTag::GPSDifferential(v) => v.enc(e),
    ExifTag::GPSHPositioningError(v) => v.enc(e),
    ExifTag::InteroperabilityIndex(v) => v.enc(e),
    ExifTag::InteroperabilityVersion(v) => v.enc(e),
    ExifTag::ImageWidth(v) => v.enc(e),
    ExifTag::ImageHeight(v) => v.enc(e),
    ExifTag::BitsPerSample(v) => v.enc(e),
    ExifTag::Compression(v) => v.enc(e),
    ExifTag::PhotometricInterpretation(v) => v.enc(e),
    ExifTag::CellWidth(v) => v.enc(e),
    ExifTag::CellHeight(v) => v.enc(e),
    ExifTag::ImageDescription(v) => v.enc(e),
    ExifTag::Make(v) => v.enc(e),
    ExifTag::Model(v) => v.enc(e),
    ExifTag::Orientation(v) => v.enc(e),
    ExifTag::SamplesPerPixel(v) => v.enc(e),
    ExifTag::RowsPerStrip(v) => v.enc(e),
    ExifTag::XResolution(v) => v.enc(e),
    ExifTag::YResolution(v) => v.enc(e),
    ExifTag::PlanarConfiguration(v) => v.enc(e),
    ExifTag::ResolutionUnit(v) => v.enc(e),
    ExifTag::TransferFunction(v) => v.enc(e),
    ExifTag::Software(v) => v.enc(e),
    ExifTag::ModifyDate(v) => v.enc(e),
    ExifTag::Artist(v) => v.enc(e),
    ExifTag::WhitePoint(v) => v.enc(e),
    ExifTag::PrimaryChromaticities(v) => v.enc(e),
    ExifTag::ColorMap(v) => v.enc(e),
    ExifTag::YCbCrCoefficients(v) => v.enc(e),
    ExifTag::YCbCrSubSampling(v) => v.enc(e),
    ExifTag::YCbCrPositioning(v) => v.enc(e),
    ExifTag::ReferenceBlackWhite(v) => v.enc(e),
    ExifTag::Copyright(v) => v.enc(e),
    ExifTag::ExposureTime(v) => v.enc(e),
    ExifTag::FNumber(v) => v.enc(e),
    ExifTag::ExifOffset(v) => v.enc(e),
    ExifTag::ExposureProgram(v) => v.enc(e),
    ExifTag::SpectralSensitivity(v) => v.enc(e),
    ExifTag::GPSInfo(v) => v.enc(e),
    ExifTag::ISO(v) => v.enc(e),
    ExifTag::OECF(v) => v.enc(e),
    ExifTag::SensitivityType(v) => v.enc(e),
    ExifTag::StandardOutputSensitivity(v) => v.enc(e),
    ExifTag::RecommendedExposureIndex(v) => v.enc(e),
    ExifTag::ISOSpeed(v) => v.enc(e),
    ExifTag::ISOSpeedLatitudeyyy(v) => v.enc(e),
    ExifTag::ISOSpeedLatitudezzz(v) => v.enc(e),
    ExifTag::ExifVersion(v) => v.enc(e),
    ExifTag::DateTimeOriginal(v) => v.enc(e),
    ExifTag::CreateDate(v) => v.enc(e),
    ExifTag::OffsetTime(v) => v.enc(e),
    ExifTag::OffsetTimeOriginal(v) => v.enc(e),
    ExifTag::OffsetTimeDigitized(v) => v.enc(e),
    ExifTag::ComponentsConfiguration(v) => v.enc(e),
    ExifTag::CompressedBitsPerPixel(v) => v.enc(e),
    ExifTag::ShutterSpeedValue(v) => v.enc(e),
    ExifTag::ApertureValue(v) => v.enc(e),
    ExifTag::BrightnessValue(v) => v.enc(e),
    ExifTag::ExposureCompensation(v) => v.enc(e),
    ExifTag::MaxApertureValue(v) => v.enc(e),
    ExifTag::SubjectDistance(v) => v.enc(e),
    ExifTag::MeteringMode(v) => v.enc(e),
    ExifTag::LightSource(v) => v.enc(e),
    ExifTag::Flash(v) => v.enc(e),
    ExifTag::FocalLength(v) => v.enc(e),
    ExifTag::SubjectArea(v) => v.enc(e),
    ExifTag::MakerNote(v) => v.enc(e),
    ExifTag::UserComment(v) => v.enc(e),
    ExifTag::SubSecTime(v) => v.enc(e),
    ExifTag::SubSecTimeOriginal(v) => v.enc(e),
    ExifTag::SubSecTimeDigitized(v) => v.enc(e),
    ExifTag::AmbientTemperature(v) => v.enc(e),
    ExifTag::Humidity(v) => v.enc(e),
    ExifTag::Pressure(v) => v.enc(e),
    ExifTag::WaterDepth(v) => v.enc(e),
    ExifTag::Acceleration(v) => v.enc(e),
    ExifTag::CameraElevationAngle(v) => v.enc(e),
    ExifTag::FlashpixVersion(v) => v.enc(e),
    ExifTag::ColorSpace(v) => v.enc(e),
    ExifTag::ExifImageWidth(v) => v.enc(e),
    ExifTag::ExifImageHeight(v) => v.enc(e),
    ExifTag::RelatedSoundFile(v) => v.enc(e),
    ExifTag::InteropOffset(v) => v.enc(e),
    ExifTag::FlashEnergy(v) => v.enc(e),
    ExifTag::SpatialFrequencyResponse(v) => v.enc(e),
    ExifTag::FocalPlaneXResolution(v) => v.enc(e),
    ExifTag::FocalPlaneYResolution(v) => v.enc(e),
    ExifTag::FocalPlaneResolutionUnit(v) => v.enc(e),
    ExifTag::SubjectLocation(v) => v.enc(e),
    ExifTag::ExposureIndex(v) => v.enc(e),
    ExifTag::SensingMethod(v) => v.enc(e),
    ExifTag::FileSource(v) => v.enc(e),
    ExifTag::SceneType(v) => v.enc(e),
    ExifTag::CFAPattern(v) => v.enc(e),
    ExifTag::CustomRendered(v) => v.enc(e),
    ExifTag::ExposureMode(v) => v.enc(e),
    ExifTag::WhiteBalance(v) => v.enc(e),
    ExifTag::DigitalZoomRatio(v) => v.enc(e),
    ExifTag::FocalLengthIn35mmFormat(v) => v.enc(e),
    ExifTag::SceneCaptureType(v) => v.enc(e),
    ExifTag::GainControl(v) => v.enc(e),
    ExifTag::Contrast(v) => v.enc(e),
    ExifTag::Saturation(v) => v.enc(e),
    ExifTag::Sharpness(v) => v.enc(e),
    ExifTag::DeviceSettingDescription(v) => v.enc(e),
    ExifTag::SubjectDistanceRange(v) => v.enc(e),
    ExifTag::ImageUniqueID(v) => v.enc(e),
    ExifTag::OwnerName(v) => v.enc(e),
    ExifTag::SerialNumber(v) => v.enc(e),
    ExifTag::LensInfo(v) => v.enc(e),
    ExifTag::LensMake(v) => v.enc(e),
    ExifTag::LensModel(v) => v.enc(e),
    ExifTag::LensSerialNumber(v) => v.enc(e),
    ExifTag::CompositeImage(v) => v.enc(e),
    ExifTag::CompositeImageCount(v) => v.enc(e),
    ExifTag::CompositeImageExposureTimes(v) => v.enc(e),
    ExifTag::Gamma(v) => v.enc(e),
    ExifTag::StripOffsets(_, _) => Seq::empty(),
    ExifTag::StripByteCounts(v) => v.enc(e),
    ExifTag::ThumbnailOffset(_, _) => Seq::empty(),
    ExifTag::ThumbnailLength(v) => v.enc(e),
    ExifTag::UnknownINT8U(v, _, _) => v.enc(e),
    ExifTag::UnknownSTRING(v, _, _) => v.enc(e),
    ExifTag::UnknownINT16U(v, _, _) => v.enc(e),
    ExifTag::UnknownINT32U(v, _, _) => v.enc(e),
    ExifTag::UnknownRATIONAL64U(v, _, _) => v.enc(e),
    ExifTag::UnknownINT8S(v, _, _) => v.enc(e),
    ExifTag::UnknownUNDEF(v, _, _) => v.enc(e),
    ExifTag::UnknownINT16S(v, _, _) => v.enc(e),
    ExifTag::UnknownINT32S(v, _, _) => v.enc(e),
    ExifTag::UnknownRATIONAL64S(v, _, _) => v.enc(e),
    ExifTag::UnknownFLOAT(v, _, _) => v.enc(e),
    ExifTag::UnknownDOUBLE(v, _, _) => v.enc(e),
} }
/// the value is what these bytes say (offset tags hold no data yet)
pub open spec fn val_says(&self, b: Seq<u8>, e: Endian) -> bool { match *self {
    ExifTag::GPSVersionID(v) => Vec::<u8>::says(b, e, v),
    ExifTag::GPSLatitudeRef(v) => VxString::says(b, e, v),
    ExifTag::GPSLatitude(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSLongitudeRef(v) => VxString::says(b, e, v),
    ExifTag::GPSLongitude(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSAltitudeRef(v) => Vec::<u8>::says(b, e, v),
    ExifTag::GPSAltitude(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSTimeStamp(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSSatellites(v) => VxString::says(b, e, v),
    ExifTag::GPSStatus(v) => VxString::says(b, e, v),
    ExifTag::GPSMeasureMode(v) => VxString::says(b, e, v),
    ExifTag::GPSDOP(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSSpeedRef(v) => VxString::says(b, e, v),
    ExifTag::GPSSpeed(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSTrackRef(v) => VxString::says(b, e, v),
    ExifTag::GPSTrack(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSImgDirectionRef(v) => VxString::says(b, e, v),
    ExifTag::GPSImgDirection(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSMapDatum(v) => VxString::says(b, e, v),
    ExifTag::GPSDestLatitudeRef(v) => VxString::says(b, e, v),
    ExifTag::GPSDestLatitude(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSDestLongitudeRef(v) => VxString::says(b, e, v),
    ExifTag::GPSDestLongitude(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSDestBearingRef(v) => VxString::says(b, e, v),
    ExifTag::GPSDestBearing(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSDestDistanceRef(v) => VxString::says(b, e, v),
    ExifTag::GPSDestDistance(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::GPSProcessingMethod(v) => Vec::<u8>::says(b, e, v),
    ExifTag::GPSAreaInformation(v) => Vec::<u8>::says(b, e, v),
    ExifTag::GPSDateStamp(v) => VxString::says(b, e, v),
    ExifTag::GPSDifferential(v) => Vec::<u16>::says(b, e, v),
    ExifTag::GPSHPositioningError(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::InteroperabilityIndex(v) => VxString::says(b, e, v),
    ExifTag::InteroperabilityVersion(v) => Vec::<u8>::says(b, e, v),
    ExifTag::ImageWidth(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ImageHeight(v) => Vec::<u32>::says(b, e, v),
    ExifTag::BitsPerSample(v) => Vec::<u16>::says(b, e, v),
    ExifTag::Compression(v) => Vec::<u16>::says(b, e, v),
    ExifTag::PhotometricInterpretation(v) => Vec::<u16>::says(b, e, v),
    ExifTag::CellWidth(v) => Vec::<u16>::says(b, e, v),
    ExifTag::CellHeight(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ImageDescription(v) => VxString::says(b, e, v),
    ExifTag::Make(v) => VxString::says(b, e, v),
    ExifTag::Model(v) => VxString::says(b, e, v),
    ExifTag::Orientation(v) => Vec::<u16>::says(b, e, v),
    ExifTag::SamplesPerPixel(v) => Vec::<u16>::says(b, e, v),
    ExifTag::RowsPerStrip(v) => Vec::<u32>::says(b, e, v),
    ExifTag::XResolution(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::YResolution(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::PlanarConfiguration(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ResolutionUnit(v) => Vec::<u16>::says(b, e, v),
    ExifTag::TransferFunction(v) => Vec::<u16>::says(b, e, v),
    ExifTag::Software(v) => VxString::says(b, e, v),
    ExifTag::ModifyDate(v) => VxString::says(b, e, v),
    ExifTag::Artist(v) => VxString::says(b, e, v),
    ExifTag::WhitePoint(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::PrimaryChromaticities(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::ColorMap(v) => Vec::<u16>::says(b, e, v),
    ExifTag::YCbCrCoefficients(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::YCbCrSubSampling(v) => Vec::<u16>::says(b, e, v),
    ExifTag::YCbCrPositioning(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ReferenceBlackWhite(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::Copyright(v) => VxString::says(b, e, v),
    ExifTag::ExposureTime(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::FNumber(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::ExifOffset(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ExposureProgram(v) => Vec::<u16>::says(b, e, v),
    ExifTag::SpectralSensitivity(v) => VxString::says(b, e, v),
    ExifTag::GPSInfo(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ISO(v) => Vec::<u16>::says(b, e, v),
    ExifTag::OECF(v) => Vec::<u8>::says(b, e, v),
    ExifTag::SensitivityType(v) => Vec::<u16>::says(b, e, v),
    ExifTag::StandardOutputSensitivity(v) => Vec::<u32>::says(b, e, v),
    ExifTag::RecommendedExposureIndex(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ISOSpeed(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ISOSpeedLatitudeyyy(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ISOSpeedLatitudezzz(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ExifVersion(v) => Vec::<u8>::says(b, e, v),
    ExifTag::DateTimeOriginal(v) => VxString::says(b, e, v),
    ExifTag::CreateDate(v) => VxString::says(b, e, v),
    ExifTag::OffsetTime(v) => VxString::says(b, e, v),
    ExifTag::OffsetTimeOriginal(v) => VxString::says(b, e, v),
    ExifTag::OffsetTimeDigitized(v) => VxString::says(b, e, v),
    ExifTag::ComponentsConfiguration(v) => Vec::<u8>::says(b, e, v),
    ExifTag::CompressedBitsPerPixel(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::ShutterSpeedValue(v) => Vec::<iR64>::says(b, e, v),
    ExifTag::ApertureValue(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::BrightnessValue(v) => Vec::<iR64>::says(b, e, v),
    ExifTag::ExposureCompensation(v) => Vec::<iR64>::says(b, e, v),
    ExifTag::MaxApertureValue(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::SubjectDistance(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::MeteringMode(v) => Vec::<u16>::says(b, e, v),
    ExifTag::LightSource(v) => Vec::<u16>::says(b, e, v),
    ExifTag::Flash(v) => Vec::<u16>::says(b, e, v),
    ExifTag::FocalLength(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::SubjectArea(v) => Vec::<u16>::says(b, e, v),
    ExifTag::MakerNote(v) => Vec::<u8>::says(b, e, v),
    ExifTag::UserComment(v) => Vec::<u8>::says(b, e, v),
    ExifTag::SubSecTime(v) => VxString::says(b, e, v),
    ExifTag::SubSecTimeOriginal(v) => VxString::says(b, e, v),
    ExifTag::SubSecTimeDigitized(v) => VxString::says(b, e, v),
    ExifTag::AmbientTemperature(v) => Vec::<iR64>::says(b, e, v),
    ExifTag::Humidity(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::Pressure(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::WaterDepth(v) => Vec::<iR64>::says(b, e, v),
    ExifTag::Acceleration(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::CameraElevationAngle(v) => Vec::<iR64>::says(b, e, v),
    ExifTag::FlashpixVersion(v) => Vec::<u8>::says(b, e, v),
    ExifTag::ColorSpace(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ExifImageWidth(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ExifImageHeight(v) => Vec::<u32>::says(b, e, v),
    ExifTag::RelatedSoundFile(v) => VxString::says(b, e, v),
    ExifTag::InteropOffset(v) => Vec::<u32>::says(b, e, v),
    ExifTag::FlashEnergy(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::SpatialFrequencyResponse(v) => Vec::<u16>::says(b, e, v),
    ExifTag::FocalPlaneXResolution(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::FocalPlaneYResolution(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::FocalPlaneResolutionUnit(v) => Vec::<u16>::says(b, e, v),
    ExifTag::SubjectLocation(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ExposureIndex(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::SensingMethod(v) => Vec::<u16>::says(b, e, v),
    ExifTag::FileSource(v) => Vec::<u8>::says(b, e, v),
    ExifTag::SceneType(v) => Vec::<u8>::says(b, e, v),
    ExifTag::CFAPattern(v) => Vec::<u8>::says(b, e, v),
    ExifTag::CustomRendered(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ExposureMode(v) => Vec::<u16>::says(b, e, v),
    ExifTag::WhiteBalance(v) => Vec::<u16>::says(b, e, v),
    ExifTag::DigitalZoomRatio(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::FocalLengthIn35mmFormat(v) => Vec::<u16>::says(b, e, v),
    ExifTag::SceneCaptureType(v) => Vec::<u16>::says(b, e, v),
    ExifTag::GainControl(v) => Vec::<u16>::says(b, e, v),
    ExifTag::Contrast(v) => Vec::<u16>::says(b, e, v),
    ExifTag::Saturation(v) => Vec::<u16>::says(b, e, v),
    ExifTag::Sharpness(v) => Vec::<u16>::says(b, e, v),
    ExifTag::DeviceSettingDescription(v) => Vec::<u8>::says(b, e, v),
    ExifTag::SubjectDistanceRange(v) => Vec::<u16>::says(b, e, v),
    ExifTag::ImageUniqueID(v) => VxString::says(b, e, v),
    ExifTag::OwnerName(v) => VxString::says(b, e, v),
    ExifTag::SerialNumber(v) => VxString::says(b, e, v),
    ExifTag::LensInfo(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::LensMake(v) => VxString::says(b, e, v),
    ExifTag::LensModel(v) => VxString::says(b, e, v),
    ExifTag::LensSerialNumber(v) => VxString::says(b, e, v),
    ExifTag::CompositeImage(v) => Vec::<u16>::says(b, e, v),
    ExifTag::CompositeImageCount(v) => Vec::<u16>::says(b, e, v),
    ExifTag::CompositeImageExposureTimes(v) => Vec::<u8>::says(b, e, v),
    ExifTag::Gamma(v) => Vec::<uR64>::says(b, e, v),
    ExifTag::StripOffsets(v, d) => Vec::<u32>::says(b, e, v) && d@.len() == 0,
    ExifTag::StripByteCounts(v) => Vec::<u32>::says(b, e, v),
    ExifTag::ThumbnailOffset(v, d) => Vec::<u32>::says(b, e, v) && d@.len() == 0,
    ExifTag::ThumbnailLength(v) => Vec::<u32>::says(b, e, v),
    ExifTag::UnknownINT8U(v, _, _) => Vec::<u8>::says(b, e, v),
    ExifTag::UnknownSTRING(v, _, _) => VxString::says(b, e, v),
    ExifTag::UnknownINT16U(v, _, _) => Vec::<u16>::says(b, e, v),
    ExifTag::UnknownINT32U(v, _, _) => Vec::<u32>::says(b, e, v),
    ExifTag::UnknownRATIONAL64U(v, _, _) => Vec::<uR64>::says(b, e, v),
    ExifTag::UnknownINT8S(v, _, _) => Vec::<i8>::says(b, e, v),
    ExifTag::UnknownUNDEF(v, _, _) => Vec::<u8>::says(b, e, v),
    ExifTag::UnknownINT16S(v, _, _) => Vec::<i16>::says(b, e, v),
    ExifTag::UnknownINT32S(v, _, _) => Vec::<i32>::says(b, e, v),
    ExifTag::UnknownRATIONAL64S(v, _, _) => Vec::<iR64>::says(b, e, v),
    ExifTag::UnknownFLOAT(v, _, _) => Vec::<f32>::says(b, e, v),
    ExifTag::UnknownDOUBLE(v, _, _) => Vec::<f64>::says(b, e, v),
} }
pub open spec fn std_empty(&self) -> bool { match *self {
    ExifTag::GPSVersionID(v) => v@.len() == 0,
    ExifTag::GPSLatitudeRef(v) => v.b@.len() == 0,
    ExifTag::GPSLatitude(v) => v@.len() == 0,
    ExifTag::GPSLongitudeRef(v) => v.b@.len() == 0,
    ExifTag::GPSLongitude(v) => v@.len() == 0,
    ExifTag::GPSAltitudeRef(v) => v@.len() == 0,
    ExifTag::GPSAltitude(v) => v@.len() == 0,
    ExifTag::GPSTimeStamp(v) => v@.len() == 0,
    ExifTag::GPSSatellites(v) => v.b@.len() == 0,
    ExifTag::GPSStatus(v) => v.b@.len() == 0,
    ExifTag::GPSMeasureMode(v) => v.b@.len() == 0,
    ExifTag::GPSDOP(v) => v@.len() == 0,
    ExifTag::GPSSpeedRef(v) => v.b@.len() == 0,
    ExifTag::GPSSpeed(v) => v@.len() == 0,
    ExifTag::GPSTrackRef(v) => v.b@.len() == 0,
    ExifTag::GPSTrack(v) => v@.len() == 0,
    ExifTag::GPSImgDirectionRef(v) => v.b@.len() == 0,
    ExifTag::GPSImgDirection(v) => v@.len() == 0,
    ExifTag::GPSMapDatum(v) => v.b@.len() == 0,
    ExifTag::GPSDestLatitudeRef(v) => v.b@.len() == 0,
    ExifTag::GPSDestLatitude(v) => v@.len() == 0,
    ExifTag::GPSDestLongitudeRef(v) => v.b@.len() == 0,
    ExifTag::GPSDestLongitude(v) => v@.len() == 0,
    ExifTag::GPSDestBearingRef(v) => v.b@.len() == 0,
    ExifTag::GPSDestBearing(v) => v@.len() == 0,
    ExifTag::GPSDestDistanceRef(v) => v.b@.len() == 0,
    ExifTag::GPSDestDistance(v) => v@.len() == 0,
    ExifTag::GPSProcessingMethod(v) => v@.len() == 0,
    ExifTag::GPSAreaInformation(v) => v@.len() == 0,
    ExifTag::GPSDateStamp(v) => v.b@.len() == 0,
    ExifTag::GPSDifferential(v) => v@.len() == 0,
    ExifTag::GPSHPositioningError(v) => v@.len() == 0,
    ExifTag::InteroperabilityIndex(v) => v.b@.len() == 0,
    ExifTag::InteroperabilityVersion(v) => v@.len() == 0,
    ExifTag::ImageWidth(v) => v@.len() == 0,
    ExifTag::ImageHeight(v) => v@.len() == 0,
    ExifTag::BitsPerSample(v) => v@.len() == 0,
    ExifTag::Compression(v) => v@.len() == 0,
    ExifTag::PhotometricInterpretation(v) => v@.len() == 0,
    ExifTag::CellWidth(v) => v@.len() == 0,
    ExifTag::CellHeight(v) => v@.len() == 0,
    ExifTag::ImageDescription(v) => v.b@.len() == 0,
    ExifTag::Make(v) => v.b@.len() == 0,
    ExifTag::Model(v) => v.b@.len() == 0,
    ExifTag::Orientation(v) => v@.len() == 0,
    ExifTag::SamplesPerPixel(v) => v@.len() == 0,
    ExifTag::RowsPerStrip(v) => v@.len() == 0,
    ExifTag::XResolution(v) => v@.len() == 0,
    ExifTag::YResolution(v) => v@.len() == 0,
    ExifTag::PlanarConfiguration(v) => v@.len() == 0,
    ExifTag::ResolutionUnit(v) => v@.len() == 0,
    ExifTag::TransferFunction(v) => v@.len() == 0,
    ExifTag::Software(v) => v.b@.len() == 0,
    ExifTag::ModifyDate(v) => v.b@.len() == 0,
    ExifTag::Artist(v) => v.b@.len() == 0,
    ExifTag::WhitePoint(v) => v@.len() == 0,
    ExifTag::PrimaryChromaticities(v) => v@.len() == 0,
    ExifTag::ColorMap(v) => v@.len() == 0,
    ExifTag::YCbCrCoefficients(v) => v@.len() == 0,
    ExifTag::YCbCrSubSampling(v) => v@.len() == 0,
    ExifTag::YCbCrPositioning(v) => v@.len() == 0,
    ExifTag::ReferenceBlackWhite(v) => v@.len() == 0,
    ExifTag::Copyright(v) => v.b@.len() == 0,
    ExifTag::ExposureTime(v) => v@.len() == 0,
    ExifTag::FNumber(v) => v@.len() == 0,
    ExifTag::ExifOffset(v) => v@.len() == 0,
    ExifTag::ExposureProgram(v) => v@.len() == 0,
    ExifTag::SpectralSensitivity(v) => v.b@.len() == 0,
    ExifTag::GPSInfo(v) => v@.len() == 0,
    ExifTag::ISO(v) => v@.len() == 0,
    ExifTag::OECF(v) => v@.len() == 0,
    ExifTag::SensitivityType(v) => v@.len() == 0,
    ExifTag::StandardOutputSensitivity(v) => v@.len() == 0,
    ExifTag::RecommendedExposureIndex(v) => v@.len() == 0,
    ExifTag::ISOSpeed(v) => v@.len() == 0,
    ExifTag::ISOSpeedLatitudeyyy(v) => v@.len() == 0,
    ExifTag::ISOSpeedLatitudezzz(v) => v@.len() == 0,
    ExifTag::ExifVersion(v) => v@.len() == 0,
    ExifTag::DateTimeOriginal(v) => v.b@.len() == 0,
    ExifTag::CreateDate(v) => v.b@.len() == 0,
    ExifTag::OffsetTime(v) => v.b@.len() == 0,
    ExifTag::OffsetTimeOriginal(v) => v.b@.len() == 0,
    ExifTag::OffsetTimeDigitized(v) => v.b@.len() == 0,
    ExifTag::ComponentsConfiguration(v) => v@.len() == 0,
    ExifTag::CompressedBitsPerPixel(v) => v@.len() == 0,
    ExifTag::ShutterSpeedValue(v) => v@.len() == 0,
    ExifTag::ApertureValue(v) => v@.len() == 0,
    ExifTag::BrightnessValue(v) => v@.len() == 0,
    ExifTag::ExposureCompensation(v) => v@.len() == 0,
    ExifTag::MaxApertureValue(v) => v@.len() == 0,
    ExifTag::SubjectDistance(v) => v@.len() == 0,
    ExifTag::MeteringMode(v) => v@.len() == 0,
    ExifTag::LightSource(v) => v@.len() == 0,
    ExifTag::Flash(v) => v@.len() == 0,
    ExifTag::FocalLength(v) => v@.len() == 0,
    ExifTag::SubjectArea(v) => v@.len() == 0,
    ExifTag::MakerNote(v) => v@.len() == 0,
    ExifTag::UserComment(v) => v@.len() == 0,
    ExifTag::SubSecTime(v) => v.b@.len() == 0,
    ExifTag::SubSecTimeOriginal(v) => v.b@.len() == 0,
    ExifTag::SubSecTimeDigitized(v) => v.b@.len() == 0,
    ExifTag::AmbientTemperature(v) => v@.len() == 0,
    ExifTag::Humidity(v) => v@.len() == 0,
    ExifTag::Pressure(v) => v@.len() == 0,
    ExifTag::WaterDepth(v) => v@.len() == 0,
    ExifTag::Acceleration(v) => v@.len() == 0,
    ExifTag::CameraElevationAngle(v) => v@.len() == 0,
    ExifTag::FlashpixVersion(v) => v@.len() == 0,
    ExifTag::ColorSpace(v) => v@.len() == 0,
    ExifTag::ExifImageWidth(v) => v@.len() == 0,
    ExifTag::ExifImageHeight(v) => v@.len() == 0,
    ExifTag::RelatedSoundFile(v) => v.b@.len() == 0,
    ExifTag::InteropOffset(v) => v@.len() == 0,
    ExifTag::FlashEnergy(v) => v@.len() == 0,
    ExifTag::SpatialFrequencyResponse(v) => v@.len() == 0,
    ExifTag::FocalPlaneXResolution(v) => v@.len() == 0,
    ExifTag::FocalPlaneYResolution(v) => v@.len() == 0,
    ExifTag::FocalPlaneResolutionUnit(v) => v@.len() == 0,
    ExifTag::SubjectLocation(v) => v@.len() == 0,
    ExifTag::ExposureIndex(v) => v@.len() == 0,
    ExifTag::SensingMethod(v) => v@.len() == 0,
    ExifTag::FileSource(v) => v@.len() == 0,
    ExifTag::SceneType(v) => v@.len() == 0,
    ExifTag::CFAPattern(v) => v@.len() == 0,
    ExifTag::CustomRendered(v) => v@.len() == 0,
    ExifTag::ExposureMode(v) => v@.len() == 0,
    ExifTag::WhiteBalance(v) => v@.len() == 0,
    ExifTag::DigitalZoomRatio(v) => v@.len() == 0,
    ExifTag::FocalLengthIn35mmFormat(v) => v@.len() == 0,
    ExifTag::SceneCaptureType(v) => v@.len() == 0,
    ExifTag::GainControl(v) => v@.len() == 0,
    ExifTag::Contrast(v) => v@.len() == 0,
    ExifTag::Saturation(v) => v@.len() == 0,
    ExifTag::Sharpness(v) => v@.len() == 0,
    ExifTag::DeviceSettingDescription(v) => v@.len() == 0,
    ExifTag::SubjectDistanceRange(v) => v@.len() == 0,
    ExifTag::ImageUniqueID(v) => v.b@.len() == 0,
    ExifTag::OwnerName(v) => v.b@.len() == 0,
    ExifTag::SerialNumber(v) => v.b@.len() == 0,
    ExifTag::LensInfo(v) => v@.len() == 0,
    ExifTag::LensMake(v) => v.b@.len() == 0,
    ExifTag::LensModel(v) => v.b@.len() == 0,
    ExifTag::LensSerialNumber(v) => v.b@.len() == 0,
    ExifTag::CompositeImage(v) => v@.len() == 0,
    ExifTag::CompositeImageCount(v) => v@.len() == 0,
    ExifTag::CompositeImageExposureTimes(v) => v@.len() == 0,
    ExifTag::Gamma(v) => v@.len() == 0,
    ExifTag::StripOffsets(v, d) => v@.len() == 0 && d@.len() == 0,
    ExifTag::StripByteCounts(v) => v@.len() == 0,
    ExifTag::ThumbnailOffset(v, d) => v@.len() == 0 && d@.len() == 0,
    ExifTag::ThumbnailLength(v) => v@.len() == 0,
    ExifTag::UnknownINT8U(v, _, _) => v@.len() == 0,
    ExifTag::UnknownSTRING(v, _, _) => v.b@.len() == 0,
    ExifTag::UnknownINT16U(v, _, _) => v@.len() == 0,
    ExifTag::UnknownINT32U(v, _, _) => v@.len() == 0,
    ExifTag::UnknownRATIONAL64U(v, _, _) => v@.len() == 0,
    ExifTag::UnknownINT8S(v, _, _) => v@.len() == 0,
    ExifTag::UnknownUNDEF(v, _, _) => v@.len() == 0,
    ExifTag::UnknownINT16S(v, _, _) => v@.len() == 0,
    ExifTag::UnknownINT32S(v, _, _) => v@.len() == 0,
    ExifTag::UnknownRATIONAL64S(v, _, _) => v@.len() == 0,
    ExifTag::UnknownFLOAT(v, _, _) => v@.len() == 0,
    ExifTag::UnknownDOUBLE(v, _, _) => v@.len() == 0,
} }
pub open spec fn is_struct(&self) -> bool { 200 <= self.std_row() < 204 }
pub open spec fn unknown(&self) -> bool { self.std_row() >= 300 }
/// text is text, and does not end in the NUL that ends it in the file
pub open spec fn plain(&self) -> bool { match *self {
    ExifTag::GPSLatitudeRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSLongitudeRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSSatellites(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSStatus(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSMeasureMode(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSSpeedRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSTrackRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSImgDirectionRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSMapDatum(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSDestLatitudeRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSDestLongitudeRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSDestBearingRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSDestDistanceRef(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::GPSDateStamp(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::InteroperabilityIndex(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::ImageDescription(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::Make(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::Model(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::Software(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::ModifyDate(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::Artist(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::Copyright(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::SpectralSensitivity(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::DateTimeOriginal(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::CreateDate(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::OffsetTime(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::OffsetTimeOriginal(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::OffsetTimeDigitized(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::SubSecTime(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::SubSecTimeOriginal(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::SubSecTimeDigitized(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::RelatedSoundFile(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::ImageUniqueID(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::OwnerName(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::SerialNumber(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::LensMake(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::LensModel(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::LensSerialNumber(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    ExifTag::UnknownSTRING(v, _, _) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),
    _ => true,
} }
}
/// the row for a number and group, -1 if there is none
pub open spec fn row_of(h: u16, g: ExifTagGroup) -> int {
    if h == 0x0000 && g == ExifTagGroup::GPS { 0 }
    else if h == 0x0001 && g == ExifTagGroup::GPS { 1 }
    else if h == 0x0002 && g == ExifTagGroup::GPS { 2 }
    else if h == 0x0003 && g == ExifTagGroup::GPS { 3 }
    else if h == 0x0004 && g == ExifTagGroup::GPS { 4 }
    else if h == 0x0005 && g == ExifTagGroup::GPS { 5 }
    else if h == 0x0006 && g == ExifTagGroup::GPS { 6 }
    else if h == 0x0007 && g == ExifTagGroup::GPS { 7 }
    else if h == 0x0008 && g == ExifTagGroup::GPS { 8 }
    else if h == 0x0009 && g == ExifTagGroup::GPS { 9 }
    else if h == 0x000a && g == ExifTagGroup::GPS { 10 }
    else if h == 0x000b && g == ExifTagGroup::GPS { 11 }
    else if h == 0x000c && g == ExifTagGroup::GPS { 12 }
    else if h == 0x000d && g == ExifTagGroup::GPS { 13 }
    else if h == 0x000e && g == ExifTagGroup::GPS { 14 }
    else if h == 0x000f && g == ExifTagGroup::GPS { 15 }
    else if h == 0x0010 && g == ExifTagGroup::GPS { 16 }
    else if h == 0x0011 && g == ExifTagGroup::GPS { 17 }
    else if h == 0x0012 && g == ExifTagGroup::GPS { 18 }
    else if h == 0x0013 && g == ExifTagGroup::GPS { 19 }
    else if h == 0x0014 && g == ExifTagGroup::GPS { 20 }
    else if h == 0x0015 && g == ExifTagGroup::GPS { 21 }
    else if h == 0x0016 && g == ExifTagGroup::GPS { 22 }
    else if h == 0x0017 && g == ExifTagGroup::GPS { 23 }
    else if h == 0x0018 && g == ExifTagGroup::GPS { 24 }
    else if h == 0x0019 && g == ExifTagGroup::GPS { 25 }
    else if h == 0x001a && g == ExifTagGroup::GPS { 26 }
    else if h == 0x001b && g == ExifTagGroup::GPS { 27 }
    else if h == 0x001c && g == ExifTagGroup::GPS { 28 }
    else if h == 0x001d && g == ExifTagGroup::GPS { 29 }
    else if h == 0x001e && g == ExifTagGroup::GPS { 30 }
    else if h == 0x001f && g == ExifTagGroup::GPS { 31 }
    else if h == 0x0001 && g == ExifTagGroup::INTEROP { 32 }
    else if h == 0x0002 && g == ExifTagGroup::INTEROP { 33 }
    else if h == 0x0100 && g == ExifTagGroup::GENERIC { 34 }
    else if h == 0x0101 && g == ExifTagGroup::GENERIC { 35 }
    else if h == 0x0102 && g == ExifTagGroup::GENERIC { 36 }
    else if h == 0x0103 && g == ExifTagGroup::GENERIC { 37 }
    else if h == 0x0106 && g == ExifTagGroup::GENERIC { 38 }
    else if h == 0x0108 && g == ExifTagGroup::GENERIC { 39 }
    else if h == 0x0109 && g == ExifTagGroup::GENERIC { 40 }
    else if h == 0x010e && g == ExifTagGroup::GENERIC { 41 }
    else if h == 0x010f && g == ExifTagGroup::GENERIC { 42 }
    else if h == 0x0110 && g == ExifTagGroup::GENERIC { 43 }
    else if h == 0x0112 && g == ExifTagGroup::GENERIC { 44 }
    else if h == 0x0115 && g == ExifTagGroup::GENERIC { 45 }
    else if h == 0x0116 && g == ExifTagGroup::GENERIC { 46 }
    else if h == 0x011a && g == ExifTagGroup::GENERIC { 47 }
    else if h == 0x011b && g == ExifTagGroup::GENERIC { 48 }
    else if h == 0x011c && g == ExifTagGroup::GENERIC { 49 }
    else if h == 0x0128 && g == ExifTagGroup::GENERIC { 50 }
    else if h == 0x012d && g == ExifTagGroup::GENERIC { 51 }
    else if h == 0x0131 && g == ExifTagGroup::GENERIC { 52 }
    else if h == 0x0132 && g == ExifTagGroup::GENERIC { 53 }
    else if h == 0x013b && g == ExifTagGroup::GENERIC { 54 }
    else if h == 0x013e && g == ExifTagGroup::GENERIC { 55 }
    else if h == 0x013f && g == ExifTagGroup::GENERIC { 56 }
    else if h == 0x0140 && g == ExifTagGroup::GENERIC { 57 }
    else if h == 0x0211 && g == ExifTagGroup::GENERIC { 58 }
    else if h == 0x0212 && g == ExifTagGroup::GENERIC { 59 }
    else if h == 0x0213 && g == ExifTagGroup::GENERIC { 60 }
    else if h == 0x0214 && g == ExifTagGroup::GENERIC { 61 }
    else if h == 0x8298 && g == ExifTagGroup::GENERIC { 62 }
    else if h == 0x829a && g == ExifTagGroup::EXIF { 63 }
    else if h == 0x829d && g == ExifTagGroup::EXIF { 64 }
    else if h == 0x8769 && g == ExifTagGroup::GENERIC { 65 }
    else if h == 0x8822 && g == ExifTagGroup::EXIF { 66 }
    else if h == 0x8824 && g == ExifTagGroup::EXIF { 67 }
    else if h == 0x8825 && g == ExifTagGroup::GENERIC { 68 }
    else if h == 0x8827 && g == ExifTagGroup::EXIF { 69 }
    else if h == 0x8828 && g == ExifTagGroup::EXIF { 70 }
    else if h == 0x8830 && g == ExifTagGroup::EXIF { 71 }
    else if h == 0x8831 && g == ExifTagGroup::EXIF { 72 }
    else if h == 0x8832 && g == ExifTagGroup::EXIF { 73 }
    else if h == 0x8833 && g == ExifTagGroup::EXIF { 74 }
    else if h == 0x8834 && g == ExifTagGroup::EXIF { 75 }
    else if h == 0x8835 && g == ExifTagGroup::EXIF { 76 }
    else if h == 0x9000 && g == ExifTagGroup::EXIF { 77 }
    else if h == 0x9003 && g == ExifTagGroup::EXIF { 78 }
    else if h == 0x9004 && g == ExifTagGroup::EXIF { 79 }
    else if h == 0x9010 && g == ExifTagGroup::EXIF { 80 }
    else if h == 0x9011 && g == ExifTagGroup::EXIF { 81 }
    else if h == 0x9012 && g == ExifTagGroup::EXIF { 82 }
    else if h == 0x9101 && g == ExifTagGroup::EXIF { 83 }
    else if h == 0x9102 && g == ExifTagGroup::EXIF { 84 }
    else if h == 0x9201 && g == ExifTagGroup::EXIF { 85 }
    else if h == 0x9202 && g == ExifTagGroup::EXIF { 86 }
    else if h == 0x9203 && g == ExifTagGroup::EXIF { 87 }
    else if h == 0x9204 && g == ExifTagGroup::EXIF { 88 }
    else if h == 0x9205 && g == ExifTagGroup::EXIF { 89 }
    else if h == 0x9206 && g == ExifTagGroup::EXIF { 90 }
    else if h == 0x9207 && g == ExifTagGroup::EXIF { 91 }
    else if h == 0x9208 && g == ExifTagGroup::EXIF { 92 }
    else if h == 0x9209 && g == ExifTagGroup::EXIF { 93 }
    else if h == 0x920a && g == ExifTagGroup::EXIF { 94 }
    else if h == 0x9214 && g == ExifTagGroup::EXIF { 95 }
    else if h == 0x927c && g == ExifTagGroup::EXIF { 96 }
    else if h == 0x9286 && g == ExifTagGroup::EXIF { 97 }
    else if h == 0x9290 && g == ExifTagGroup::EXIF { 98 }
    else if h == 0x9291 && g == ExifTagGroup::EXIF { 99 }
    else if h == 0x9292 && g == ExifTagGroup::EXIF { 100 }
    else if h == 0x9400 && g == ExifTagGroup::EXIF { 101 }
    else if h == 0x9401 && g == ExifTagGroup::EXIF { 102 }
    else if h == 0x9402 && g == ExifTagGroup::EXIF { 103 }
    else if h == 0x9403 && g == ExifTagGroup::EXIF { 104 }
    else if h == 0x9404 && g == ExifTagGroup::EXIF { 105 }
    else if h == 0x9405 && g == ExifTagGroup::EXIF { 106 }
    else if h == 0xa000 && g == ExifTagGroup::EXIF { 107 }
    else if h == 0xa001 && g == ExifTagGroup::EXIF { 108 }
    else if h == 0xa002 && g == ExifTagGroup::EXIF { 109 }
    else if h == 0xa003 && g == ExifTagGroup::EXIF { 110 }
    else if h == 0xa004 && g == ExifTagGroup::EXIF { 111 }
    else if h == 0xa005 && g == ExifTagGroup::EXIF { 112 }
    else if h == 0xa20b && g == ExifTagGroup::EXIF { 113 }
    else if h == 0xa20c && g == ExifTagGroup::EXIF { 114 }
    else if h == 0xa20e && g == ExifTagGroup::EXIF { 115 }
    else if h == 0xa20f && g == ExifTagGroup::EXIF { 116 }
    else if h == 0xa210 && g == ExifTagGroup::EXIF { 117 }
    else if h == 0xa214 && g == ExifTagGroup::EXIF { 118 }
    else if h == 0xa215 && g == ExifTagGroup::EXIF { 119 }
    else if h == 0xa217 && g == ExifTagGroup::EXIF { 120 }
    else if h == 0xa300 && g == ExifTagGroup::EXIF { 121 }
    else if h == 0xa301 && g == ExifTagGroup::EXIF { 122 }
    else if h == 0xa302 && g == ExifTagGroup::EXIF { 123 }
    else if h == 0xa401 && g == ExifTagGroup::EXIF { 124 }
    else if h == 0xa402 && g == ExifTagGroup::EXIF { 125 }
    else if h == 0xa403 && g == ExifTagGroup::EXIF { 126 }
    else if h == 0xa404 && g == ExifTagGroup::EXIF { 127 }
    else if h == 0xa405 && g == ExifTagGroup::EXIF { 128 }
    else if h == 0xa406 && g == ExifTagGroup::EXIF { 129 }
    else if h == 0xa407 && g == ExifTagGroup::EXIF { 130 }
    else if h == 0xa408 && g == ExifTagGroup::EXIF { 131 }
    else if h == 0xa409 && g == ExifTagGroup::EXIF { 132 }
    else if h == 0xa40a && g == ExifTagGroup::EXIF { 133 }
    else if h == 0xa40b && g == ExifTagGroup::EXIF { 134 }
    else if h == 0xa40c && g == ExifTagGroup::EXIF { 135 }
    else if h == 0xa420 && g == ExifTagGroup::EXIF { 136 }
    else if h == 0xa430 && g == ExifTagGroup::EXIF { 137 }
    else if h == 0xa431 && g == ExifTagGroup::EXIF { 138 }
    else if h == 0xa432 && g == ExifTagGroup::EXIF { 139 }
    else if h == 0xa433 && g == ExifTagGroup::EXIF { 140 }
    else if h == 0xa434 && g == ExifTagGroup::EXIF { 141 }
    else if h == 0xa435 && g == ExifTagGroup::EXIF { 142 }
    else if h == 0xa460 && g == ExifTagGroup::EXIF { 143 }
    else if h == 0xa461 && g == ExifTagGroup::EXIF { 144 }
    else if h == 0xa462 && g == ExifTagGroup::EXIF { 145 }
    else if h == 0xa500 && g == ExifTagGroup::EXIF { 146 }
    else if h == 0x0111 { 200 }
    else if h == 0x0117 { 201 }
    else if h == 0x0201 { 202 }
    else if h == 0x0202 { 203 }
    else { -1 }
}
/// the row's format
pub open spec fn row_fmt(i: int) -> ExifTagFormat {
    if i == 0 { ExifTagFormat::INT8U }
    else if i == 1 { ExifTagFormat::STRING }
    else if i == 2 { ExifTagFormat::RATIONAL64U }
    else if i == 3 { ExifTagFormat::STRING }
    else if i == 4 { ExifTagFormat::RATIONAL64U }
    else if i == 5 { ExifTagFormat::INT8U }
    else if i == 6 { ExifTagFormat::RATIONAL64U }
    else if i == 7 { ExifTagFormat::RATIONAL64U }
    else if i == 8 { ExifTagFormat::STRING }
    else if i == 9 { ExifTagFormat::STRING }
    else if i == 10 { ExifTagFormat::STRING }
    else if i == 11 { ExifTagFormat::RATIONAL64U }
    else if i == 12 { ExifTagFormat::STRING }
    else if i == 13 { ExifTagFormat::RATIONAL64U }
    else if i == 14 { ExifTagFormat::STRING }
    else if i == 15 { ExifTagFormat::RATIONAL64U }
    else if i == 16 { ExifTagFormat::STRING }
    else if i == 17 { ExifTagFormat::RATIONAL64U }
    else if i == 18 { ExifTagFormat::STRING }
    else if i == 19 { ExifTagFormat::STRING }
    else if i == 20 { ExifTagFormat::RATIONAL64U }
    else if i == 21 { ExifTagFormat::STRING }
    else if i == 22 { ExifTagFormat::RATIONAL64U }
    else if i == 23 { ExifTagFormat::STRING }
    else if i == 24 { ExifTagFormat::RATIONAL64U }
    else if i == 25 { ExifTagFormat::STRING }
    else if i == 26 { ExifTagFormat::RATIONAL64U }
    else if i == 27 { ExifTagFormat::UNDEF }
    else if i == 28 { ExifTagFormat::UNDEF }
    else if i == 29 { ExifTagFormat::STRING }
    else if i == 30 { ExifTagFormat::INT16U }
    else if i == 31 { ExifTagFormat::RATIONAL64U }
    else if i == 32 { ExifTagFormat::STRING }
    else if i == 33 { ExifTagFormat::UNDEF }
    else if i == 34 { ExifTagFormat::INT32U }
    else if i == 35 { ExifTagFormat::INT32U }
    else if i == 36 { ExifTagFormat::INT16U }
    else if i == 37 { ExifTagFormat::INT16U }
    else if i == 38 { ExifTagFormat::INT16U }
    else if i == 39 { ExifTagFormat::INT16U }
    else if i == 40 { ExifTagFormat::INT16U }
    else if i == 41 { ExifTagFormat::STRING }
    else if i == 42 { ExifTagFormat::STRING }
    else if i == 43 { ExifTagFormat::STRING }
    else if i == 44 { ExifTagFormat::INT16U }
    else if i == 45 { ExifTagFormat::INT16U }
    else if i == 46 { ExifTagFormat::INT32U }
    else if i == 47 { ExifTagFormat::RATIONAL64U }
    else if i == 48 { ExifTagFormat::RATIONAL64U }
    else if i == 49 { ExifTagFormat::INT16U }
    else if i == 50 { ExifTagFormat::INT16U }
    else if i == 51 { ExifTagFormat::INT16U }
    else if i == 52 { ExifTagFormat::STRING }
    else if i == 53 { ExifTagFormat::STRING }
    else if i == 54 { ExifTagFormat::STRING }
    else if i == 55 { ExifTagFormat::RATIONAL64U }
    else if i == 56 { ExifTagFormat::RATIONAL64U }
    else if i == 57 { ExifTagFormat::INT16U }
    else if i == 58 { ExifTagFormat::RATIONAL64U }
    else if i == 59 { ExifTagFormat::INT16U }
    else if i == 60 { ExifTagFormat::INT16U }
    else if i == 61 { ExifTagFormat::RATIONAL64U }
    else if i == 62 { ExifTagFormat::STRING }
    else if i == 63 { ExifTagFormat::RATIONAL64U }
    else if i == 64 { ExifTagFormat::RATIONAL64U }
    else if i == 65 { ExifTagFormat::INT32U }
    else if i == 66 { ExifTagFormat::INT16U }
    else if i == 67 { ExifTagFormat::STRING }
    else if i == 68 { ExifTagFormat::INT32U }
    else if i == 69 { ExifTagFormat::INT16U }
    else if i == 70 { ExifTagFormat::UNDEF }
    else if i == 71 { ExifTagFormat::INT16U }
    else if i == 72 { ExifTagFormat::INT32U }
    else if i == 73 { ExifTagFormat::INT32U }
    else if i == 74 { ExifTagFormat::INT32U }
    else if i == 75 { ExifTagFormat::INT32U }
    else if i == 76 { ExifTagFormat::INT32U }
    else if i == 77 { ExifTagFormat::UNDEF }
    else if i == 78 { ExifTagFormat::STRING }
    else if i == 79 { ExifTagFormat::STRING }
    else if i == 80 { ExifTagFormat::STRING }
    else if i == 81 { ExifTagFormat::STRING }
    else if i == 82 { ExifTagFormat::STRING }
    else if i == 83 { ExifTagFormat::UNDEF }
    else if i == 84 { ExifTagFormat::RATIONAL64U }
    else if i == 85 { ExifTagFormat::RATIONAL64S }
    else if i == 86 { ExifTagFormat::RATIONAL64U }
    else if i == 87 { ExifTagFormat::RATIONAL64S }
    else if i == 88 { ExifTagFormat::RATIONAL64S }
    else if i == 89 { ExifTagFormat::RATIONAL64U }
    else if i == 90 { ExifTagFormat::RATIONAL64U }
    else if i == 91 { ExifTagFormat::INT16U }
    else if i == 92 { ExifTagFormat::INT16U }
    else if i == 93 { ExifTagFormat::INT16U }
    else if i == 94 { ExifTagFormat::RATIONAL64U }
    else if i == 95 { ExifTagFormat::INT16U }
    else if i == 96 { ExifTagFormat::UNDEF }
    else if i == 97 { ExifTagFormat::UNDEF }
    else if i == 98 { ExifTagFormat::STRING }
    else if i == 99 { ExifTagFormat::STRING }
    else if i == 100 { ExifTagFormat::STRING }
    else if i == 101 { ExifTagFormat::RATIONAL64S }
    else if i == 102 { ExifTagFormat::RATIONAL64U }
    else if i == 103 { ExifTagFormat::RATIONAL64U }
    else if i == 104 { ExifTagFormat::RATIONAL64S }
    else if i == 105 { ExifTagFormat::RATIONAL64U }
    else if i == 106 { ExifTagFormat::RATIONAL64S }
    else if i == 107 { ExifTagFormat::UNDEF }
    else if i == 108 { ExifTagFormat::INT16U }
    else if i == 109 { ExifTagFormat::INT32U }
    else if i == 110 { ExifTagFormat::INT32U }
    else if i == 111 { ExifTagFormat::STRING }
    else if i == 112 { ExifTagFormat::INT32U }
    else if i == 113 { ExifTagFormat::RATIONAL64U }
    else if i == 114 { ExifTagFormat::INT16U }
    else if i == 115 { ExifTagFormat::RATIONAL64U }
    else if i == 116 { ExifTagFormat::RATIONAL64U }
    else if i == 117 { ExifTagFormat::INT16U }
    else if i == 118 { ExifTagFormat::INT16U }
    else if i == 119 { ExifTagFormat::RATIONAL64U }
    else if i == 120 { ExifTagFormat::INT16U }
    else if i == 121 { ExifTagFormat::UNDEF }
    else if i == 122 { ExifTagFormat::UNDEF }
    else if i == 123 { ExifTagFormat::UNDEF }
    else if i == 124 { ExifTagFormat::INT16U }
    else if i == 125 { ExifTagFormat::INT16U }
    else if i == 126 { ExifTagFormat::INT16U }
    else if i == 127 { ExifTagFormat::RATIONAL64U }
    else if i == 128 { ExifTagFormat::INT16U }
    else if i == 129 { ExifTagFormat::INT16U }
    else if i == 130 { ExifTagFormat::INT16U }
    else if i == 131 { ExifTagFormat::INT16U }
    else if i == 132 { ExifTagFormat::INT16U }
    else if i == 133 { ExifTagFormat::INT16U }
    else if i == 134 { ExifTagFormat::UNDEF }
    else if i == 135 { ExifTagFormat::INT16U }
    else if i == 136 { ExifTagFormat::STRING }
    else if i == 137 { ExifTagFormat::STRING }
    else if i == 138 { ExifTagFormat::STRING }
    else if i == 139 { ExifTagFormat::RATIONAL64U }
    else if i == 140 { ExifTagFormat::STRING }
    else if i == 141 { ExifTagFormat::STRING }
    else if i == 142 { ExifTagFormat::STRING }
    else if i == 143 { ExifTagFormat::INT16U }
    else if i == 144 { ExifTagFormat::INT16U }
    else if i == 145 { ExifTagFormat::UNDEF }
    else if i == 146 { ExifTagFormat::RATIONAL64U }
    else if 200 <= i < 204 { ExifTagFormat::INT32U }
    else if i == 300 { ExifTagFormat::INT8U }
    else if i == 301 { ExifTagFormat::STRING }
    else if i == 302 { ExifTagFormat::INT16U }
    else if i == 303 { ExifTagFormat::INT32U }
    else if i == 304 { ExifTagFormat::RATIONAL64U }
    else if i == 305 { ExifTagFormat::INT8S }
    else if i == 306 { ExifTagFormat::UNDEF }
    else if i == 307 { ExifTagFormat::INT16S }
    else if i == 308 { ExifTagFormat::INT32S }
    else if i == 309 { ExifTagFormat::RATIONAL64S }
    else if i == 310 { ExifTagFormat::FLOAT }
    else if i == 311 { ExifTagFormat::DOUBLE }
    else { ExifTagFormat::UNDEF }
}
/// the row's group
pub open spec fn row_grp(i: int) -> ExifTagGroup {
    if i == 0 { ExifTagGroup::GPS }
    else if i == 1 { ExifTagGroup::GPS }
    else if i == 2 { ExifTagGroup::GPS }
    else if i == 3 { ExifTagGroup::GPS }
    else if i == 4 { ExifTagGroup::GPS }
    else if i == 5 { ExifTagGroup::GPS }
    else if i == 6 { ExifTagGroup::GPS }
    else if i == 7 { ExifTagGroup::GPS }
    else if i == 8 { ExifTagGroup::GPS }
    else if i == 9 { ExifTagGroup::GPS }
    else if i == 10 { ExifTagGroup::GPS }
    else if i == 11 { ExifTagGroup::GPS }
    else if i == 12 { ExifTagGroup::GPS }
    else if i == 13 { ExifTagGroup::GPS }
    else if i == 14 { ExifTagGroup::GPS }
    else if i == 15 { ExifTagGroup::GPS }
    else if i == 16 { ExifTagGroup::GPS }
    else if i == 17 { ExifTagGroup::GPS }
    else if i == 18 { ExifTagGroup::GPS }
    else if i == 19 { ExifTagGroup::GPS }
    else if i == 20 { ExifTagGroup::GPS }
    else if i == 21 { ExifTagGroup::GPS }
    else if i == 22 { ExifTagGroup::GPS }
    else if i == 23 { ExifTagGroup::GPS }
    else if i == 24 { ExifTagGroup::GPS }
    else if i == 25 { ExifTagGroup::GPS }
    else if i == 26 { ExifTagGroup::GPS }
    else if i == 27 { ExifTagGroup::GPS }
    else if i == 28 { ExifTagGroup::GPS }
    else if i == 29 { ExifTagGroup::GPS }
    else if i == 30 { ExifTagGroup::GPS }
    else if i == 31 { ExifTagGroup::GPS }
    else if i == 32 { ExifTagGroup::INTEROP }
    else if i == 33 { ExifTagGroup::INTEROP }
    else if i == 34 { ExifTagGroup::GENERIC }
    else if i == 35 { ExifTagGroup::GENERIC }
    else if i == 36 { ExifTagGroup::GENERIC }
    else if i == 37 { ExifTagGroup::GENERIC }
    else if i == 38 { ExifTagGroup::GENERIC }
    else if i == 39 { ExifTagGroup::GENERIC }
    else if i == 40 { ExifTagGroup::GENERIC }
    else if i == 41 { ExifTagGroup::GENERIC }
    else if i == 42 { ExifTagGroup::GENERIC }
    else if i == 43 { ExifTagGroup::GENERIC }
    else if i == 44 { ExifTagGroup::GENERIC }
    else if i == 45 { ExifTagGroup::GENERIC }
    else if i == 46 { ExifTagGroup::GENERIC }
    else if i == 47 { ExifTagGroup::GENERIC }
    else if i == 48 { ExifTagGroup::GENERIC }
    else if i == 49 { ExifTagGroup::GENERIC }
    else if i == 50 { ExifTagGroup::GENERIC }
    else if i == 51 { ExifTagGroup::GENERIC }
    else if i == 52 { ExifTagGroup::GENERIC }
    else if i == 53 { ExifTagGroup::GENERIC }
    else if i == 54 { ExifTagGroup::GENERIC }
    else if i == 55 { ExifTagGroup::GENERIC }
    else if i == 56 { ExifTagGroup::GENERIC }
    else if i == 57 { ExifTagGroup::GENERIC }
    else if i == 58 { ExifTagGroup::GENERIC }
    else if i == 59 { ExifTagGroup::GENERIC }
    else if i == 60 { ExifTagGroup::GENERIC }
    else if i == 61 { ExifTagGroup::GENERIC }
    else if i == 62 { ExifTagGroup::GENERIC }
    else if i == 63 { ExifTagGroup::EXIF }
    else if i == 64 { ExifTagGroup::EXIF }
    else if i == 65 { ExifTagGroup::GENERIC }
    else if i == 66 { ExifTagGroup::EXIF }
    else if i == 67 { ExifTagGroup::EXIF }
    else if i == 68 { ExifTagGroup::GENERIC }
    else if i == 69 { ExifTagGroup::EXIF }
    else if i == 70 { ExifTagGroup::EXIF }
    else if i == 71 { ExifTagGroup::EXIF }
    else if i == 72 { ExifTagGroup::EXIF }
    else if i == 73 { ExifTagGroup::EXIF }
    else if i == 74 { ExifTagGroup::EXIF }
    else if i == 75 { ExifTagGroup::EXIF }
    else if i == 76 { ExifTagGroup::EXIF }
    else if i == 77 { ExifTagGroup::EXIF }
    else if i == 78 { ExifTagGroup::EXIF }
    else if i == 79 { ExifTagGroup::EXIF }
    else if i == 80 { ExifTagGroup::EXIF }
    else if i == 81 { ExifTagGroup::EXIF }
    else if i == 82 { ExifTagGroup::EXIF }
    else if i == 83 { ExifTagGroup::EXIF }
    else if i == 84 { ExifTagGroup::EXIF }
    else if i == 85 { ExifTagGroup::EXIF }
    else if i == 86 { ExifTagGroup::EXIF }
    else if i == 87 { ExifTagGroup::EXIF }
    else if i == 88 { ExifTagGroup::EXIF }
    else if i == 89 { ExifTagGroup::EXIF }
    else if i == 90 { ExifTagGroup::EXIF }
    else if i == 91 { ExifTagGroup::EXIF }
    else if i == 92 { ExifTagGroup::EXIF }
    else if i == 93 { ExifTagGroup::EXIF }
    else if i == 94 { ExifTagGroup::EXIF }
    else if i == 95 { ExifTagGroup::EXIF }
    else if i == 96 { ExifTagGroup::EXIF }
    else if i == 97 { ExifTagGroup::EXIF }
    else if i == 98 { ExifTagGroup::EXIF }
    else if i == 99 { ExifTagGroup::EXIF }
    else if i == 100 { ExifTagGroup::EXIF }
    else if i == 101 { ExifTagGroup::EXIF }
    else if i == 102 { ExifTagGroup::EXIF }
    else if i == 103 { ExifTagGroup::EXIF }
    else if i == 104 { ExifTagGroup::EXIF }
    else if i == 105 { ExifTagGroup::EXIF }
    else if i == 106 { ExifTagGroup::EXIF }
    else if i == 107 { ExifTagGroup::EXIF }
    else if i == 108 { ExifTagGroup::EXIF }
    else if i == 109 { ExifTagGroup::EXIF }
    else if i == 110 { ExifTagGroup::EXIF }
    else if i == 111 { ExifTagGroup::EXIF }
    else if i == 112 { ExifTagGroup::EXIF }
    else if i == 113 { ExifTagGroup::EXIF }
    else if i == 114 { ExifTagGroup::EXIF }
    else if i == 115 { ExifTagGroup::EXIF }
    else if i == 116 { ExifTagGroup::EXIF }
    else if i == 117 { ExifTagGroup::EXIF }
    else if i == 118 { ExifTagGroup::EXIF }
    else if i == 119 { ExifTagGroup::EXIF }
    else if i == 120 { ExifTagGroup::EXIF }
    else if i == 121 { ExifTagGroup::EXIF }
    else if i == 122 { ExifTagGroup::EXIF }
    else if i == 123 { ExifTagGroup::EXIF }
    else if i == 124 { ExifTagGroup::EXIF }
    else if i == 125 { ExifTagGroup::EXIF }
    else if i == 126 { ExifTagGroup::EXIF }
    else if i == 127 { ExifTagGroup::EXIF }
    else if i == 128 { ExifTagGroup::EXIF }
    else if i == 129 { ExifTagGroup::EXIF }
    else if i == 130 { ExifTagGroup::EXIF }
    else if i == 131 { ExifTagGroup::EXIF }
    else if i == 132 { ExifTagGroup::EXIF }
    else if i == 133 { ExifTagGroup::EXIF }
    else if i == 134 { ExifTagGroup::EXIF }
    else if i == 135 { ExifTagGroup::EXIF }
    else if i == 136 { ExifTagGroup::EXIF }
    else if i == 137 { ExifTagGroup::EXIF }
    else if i == 138 { ExifTagGroup::EXIF }
    else if i == 139 { ExifTagGroup::EXIF }
    else if i == 140 { ExifTagGroup::EXIF }
    else if i == 141 { ExifTagGroup::EXIF }
    else if i == 142 { ExifTagGroup::EXIF }
    else if i == 143 { ExifTagGroup::EXIF }
    else if i == 144 { ExifTagGroup::EXIF }
    else if i == 145 { ExifTagGroup::EXIF }
    else if i == 146 { ExifTagGroup::EXIF }
    else { ExifTagGroup::GENERIC }
}
pub proof fn lemma_row_grp(t: ExifTag) requires t.std_row() < 300 ensures t.std_grp() == row_grp(t.std_row()) {}
/// the format that the table gives for a number and group, the given one if there is no row
pub open spec fn fmt_of(h: u16, g: ExifTagGroup, d: ExifTagFormat) -> ExifTagFormat {
    if h == 0x0000 && g == ExifTagGroup::GPS { ExifTagFormat::INT8U }
    else if h == 0x0001 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0002 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0003 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0004 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0005 && g == ExifTagGroup::GPS { ExifTagFormat::INT8U }
    else if h == 0x0006 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0007 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0008 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0009 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x000a && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x000b && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x000c && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x000d && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x000e && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x000f && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0010 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0011 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0012 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0013 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0014 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0015 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0016 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0017 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x0018 && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0019 && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x001a && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x001b && g == ExifTagGroup::GPS { ExifTagFormat::UNDEF }
    else if h == 0x001c && g == ExifTagGroup::GPS { ExifTagFormat::UNDEF }
    else if h == 0x001d && g == ExifTagGroup::GPS { ExifTagFormat::STRING }
    else if h == 0x001e && g == ExifTagGroup::GPS { ExifTagFormat::INT16U }
    else if h == 0x001f && g == ExifTagGroup::GPS { ExifTagFormat::RATIONAL64U }
    else if h == 0x0001 && g == ExifTagGroup::INTEROP { ExifTagFormat::STRING }
    else if h == 0x0002 && g == ExifTagGroup::INTEROP { ExifTagFormat::UNDEF }
    else if h == 0x0100 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT32U }
    else if h == 0x0101 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT32U }
    else if h == 0x0102 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0103 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0106 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0108 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0109 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x010e && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x010f && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x0110 && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x0112 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0115 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0116 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT32U }
    else if h == 0x011a && g == ExifTagGroup::GENERIC { ExifTagFormat::RATIONAL64U }
    else if h == 0x011b && g == ExifTagGroup::GENERIC { ExifTagFormat::RATIONAL64U }
    else if h == 0x011c && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0128 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x012d && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0131 && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x0132 && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x013b && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x013e && g == ExifTagGroup::GENERIC { ExifTagFormat::RATIONAL64U }
    else if h == 0x013f && g == ExifTagGroup::GENERIC { ExifTagFormat::RATIONAL64U }
    else if h == 0x0140 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0211 && g == ExifTagGroup::GENERIC { ExifTagFormat::RATIONAL64U }
    else if h == 0x0212 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0213 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT16U }
    else if h == 0x0214 && g == ExifTagGroup::GENERIC { ExifTagFormat::RATIONAL64U }
    else if h == 0x8298 && g == ExifTagGroup::GENERIC { ExifTagFormat::STRING }
    else if h == 0x829a && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x829d && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x8769 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT32U }
    else if h == 0x8822 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x8824 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x8825 && g == ExifTagGroup::GENERIC { ExifTagFormat::INT32U }
    else if h == 0x8827 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x8828 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0x8830 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x8831 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0x8832 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0x8833 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0x8834 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0x8835 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0x9000 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0x9003 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9004 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9010 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9011 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9012 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9101 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0x9102 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9201 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64S }
    else if h == 0x9202 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9203 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64S }
    else if h == 0x9204 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64S }
    else if h == 0x9205 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9206 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9207 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x9208 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x9209 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x920a && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9214 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0x927c && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0x9286 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0x9290 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9291 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9292 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0x9400 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64S }
    else if h == 0x9401 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9402 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9403 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64S }
    else if h == 0x9404 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x9405 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64S }
    else if h == 0xa000 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0xa001 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa002 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0xa003 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0xa004 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa005 && g == ExifTagGroup::EXIF { ExifTagFormat::INT32U }
    else if h == 0xa20b && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0xa20c && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa20e && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0xa20f && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0xa210 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa214 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa215 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0xa217 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa300 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0xa301 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0xa302 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0xa401 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa402 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa403 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa404 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0xa405 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa406 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa407 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa408 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa409 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa40a && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa40b && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0xa40c && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa420 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa430 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa431 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa432 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0xa433 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa434 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa435 && g == ExifTagGroup::EXIF { ExifTagFormat::STRING }
    else if h == 0xa460 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa461 && g == ExifTagGroup::EXIF { ExifTagFormat::INT16U }
    else if h == 0xa462 && g == ExifTagGroup::EXIF { ExifTagFormat::UNDEF }
    else if h == 0xa500 && g == ExifTagGroup::EXIF { ExifTagFormat::RATIONAL64U }
    else if h == 0x0111 { ExifTagFormat::INT32U }
    else if h == 0x0117 { ExifTagFormat::INT32U }
    else if h == 0x0201 { ExifTagFormat::INT32U }
    else if h == 0x0202 { ExifTagFormat::INT32U }
    else { d }
}
// number and group determine the row
pub proof fn lemma_row(t: ExifTag) requires t.std_row() < 300 ensures t.is_struct() ==> row_of(t.std_hex(), t.std_grp()) == t.std_row(), !t.is_struct() ==> row_of(t.std_hex(), t.std_grp()) == t.std_row(), row_fmt(t.std_row()) == t.std_fmt(), fmt_of(t.std_hex(), t.std_grp(), t.std_fmt()) == t.std_fmt() {}
/// the same tag with the same value (floats bit for bit)
pub open spec fn same(t: ExifTag, r: ExifTag) -> bool { match t {
    ExifTag::GPSVersionID(v) => r matches ExifTag::GPSVersionID(w) && (v@ == w@),
    ExifTag::GPSLatitudeRef(v) => r matches ExifTag::GPSLatitudeRef(w) && (v.b@ == w.b@),
    ExifTag::GPSLatitude(v) => r matches ExifTag::GPSLatitude(w) && (v@ == w@),
    ExifTag::GPSLongitudeRef(v) => r matches ExifTag::GPSLongitudeRef(w) && (v.b@ == w.b@),
    ExifTag::GPSLongitude(v) => r matches ExifTag::GPSLongitude(w) && (v@ == w@),
    ExifTag::GPSAltitudeRef(v) => r matches ExifTag::GPSAltitudeRef(w) && (v@ == w@),
    ExifTag::GPSAltitude(v) => r matches ExifTag::GPSAltitude(w) && (v@ == w@),
    ExifTag::GPSTimeStamp(v) => r matches ExifTag::GPSTimeStamp(w) && (v@ == w@),
    ExifTag::GPSSatellites(v) => r matches ExifTag::GPSSatellites(w) && (v.b@ == w.b@),
    ExifTag::GPSStatus(v) => r matches ExifTag::GPSStatus(w) && (v.b@ == w.b@),
    ExifTag::GPSMeasureMode(v) => r matches ExifTag::GPSMeasureMode(w) && (v.b@ == w.b@),
    ExifTag::GPSDOP(v) => r matches ExifTag::GPSDOP(w) && (v@ == w@),
    ExifTag::GPSSpeedRef(v) => r matches ExifTag::GPSSpeedRef(w) && (v.b@ == w.b@),
    ExifTag::GPSSpeed(v) => r matches ExifTag::GPSSpeed(w) && (v@ == w@),
    ExifTag::GPSTrackRef(v) => r matches ExifTag::GPSTrackRef(w) && (v.b@ == w.b@),
    ExifTag::GPSTrack(v) => r matches ExifTag::GPSTrack(w) && (v@ == w@),
    ExifTag::GPSImgDirectionRef(v) => r matches ExifTag::GPSImgDirectionRef(w) && (v.b@ == w.b@),
    ExifTag::GPSImgDirection(v) => r matches ExifTag::GPSImgDirection(w) && (v@ == w@),
    ExifTag::GPSMapDatum(v) => r matches ExifTag::GPSMapDatum(w) && (v.b@ == w.b@),
    ExifTag::GPSDestLatitudeRef(v) => r matches ExifTag::GPSDestLatitudeRef(w) && (v.b@ == w.b@),
    ExifTag::GPSDestLatitude(v) => r matches ExifTag::GPSDestLatitude(w) && (v@ == w@),
    ExifTag::GPSDestLongitudeRef(v) => r matches ExifTag::GPSDestLongitudeRef(w) && (v.b@ == w.b@),
    ExifTag::GPSDestLongitude(v) => r matches ExifTag::GPSDestLongitude(w) && (v@ == w@),
    ExifTag::GPSDestBearingRef(v) => r matches ExifTag::GPSDestBearingRef(w) && (v.b@ == w.b@),
    ExifTag::GPSDestBearing(v) => r matches ExifTag::GPSDestBearing(w) && (v@ == w@),
    ExifTag::GPSDestDistanceRef(v) => r matches ExifTag::GPSDestDistanceRef(w) && (v.b@ == w.b@),
    ExifTag::GPSDestDistance(v) => r matches ExifTag::GPSDestDistance(w) && (v@ == w@),
    ExifTag::GPSProcessingMethod(v) => r matches ExifTag::GPSProcessingMethod(w) && (v@ == w@),
    ExifTag::GPSAreaInformation(v) => r matches ExifTag::GPSAreaInformation(w) && (v@ == w@),
    ExifTag::GPSDateStamp(v) => r matches ExifTag::GPSDateStamp(w) && (v.b@ == w.b@),
    ExifTag::GPSDifferential(v) => r matches ExifTag::GPSDifferential(w) && (v@ == w@),
    ExifTag::GPSHPositioningError(v) => r matches ExifTag::GPSHPositioningError(w) && (v@ == w@),
    ExifTag::InteroperabilityIndex(v) => r matches ExifTag::InteroperabilityIndex(w) && (v.b@ == w.b@),
    ExifTag::InteroperabilityVersion(v) => r matches ExifTag::InteroperabilityVersion(w) && (v@ == w@),
    ExifTag::ImageWidth(v) => r matches ExifTag::ImageWidth(w) && (v@ == w@),
    ExifTag::ImageHeight(v) => r matches ExifTag::ImageHeight(w) && (v@ == w@),
    ExifTag::BitsPerSample(v) => r matches ExifTag::BitsPerSample(w) && (v@ == w@),
    ExifTag::Compression(v) => r matches ExifTag::Compression(w) && (v@ == w@),
    ExifTag::PhotometricInterpretation(v) => r matches ExifTag::PhotometricInterpretation(w) && (v@ == w@),
    ExifTag::CellWidth(v) => r matches ExifTag::CellWidth(w) && (v@ == w@),
    ExifTag::CellHeight(v) => r matches ExifTag::CellHeight(w) && (v@ == w@),
    ExifTag::ImageDescription(v) => r matches ExifTag::ImageDescription(w) && (v.b@ == w.b@),
    ExifTag::Make(v) => r matches ExifTag::Make(w) && (v.b@ == w.b@),
    ExifTag::Model(v) => r matches ExifTag::Model(w) && (v.b@ == w.b@),
    ExifTag::Orientation(v) => r matches ExifTag::Orientation(w) && (v@ == w@),
    ExifTag::SamplesPerPixel(v) => r matches ExifTag::SamplesPerPixel(w) && (v@ == w@),
    ExifTag::RowsPerStrip(v) => r matches ExifTag::RowsPerStrip(w) && (v@ == w@),
    ExifTag::XResolution(v) => r matches ExifTag::XResolution(w) && (v@ == w@),
    ExifTag::YResolution(v) => r matches ExifTag::YResolution(w) && (v@ == w@),
    ExifTag::PlanarConfiguration(v) => r matches ExifTag::PlanarConfiguration(w) && (v@ == w@),
    ExifTag::ResolutionUnit(v) => r matches ExifTag::ResolutionUnit(w) && (v@ == w@),
    ExifTag::TransferFunction(v) => r matches ExifTag::TransferFunction(w) && (v@ == w@),
    ExifTag::Software(v) => r matches ExifTag::Software(w) && (v.b@ == w.b@),
    ExifTag::ModifyDate(v) => r matches ExifTag::ModifyDate(w) && (v.b@ == w.b@),
    ExifTag::Artist(v) => r matches ExifTag::Artist(w) && (v.b@ == w.b@),
    ExifTag::WhitePoint(v) => r matches ExifTag::WhitePoint(w) && (v@ == w@),
    ExifTag::PrimaryChromaticities(v) => r matches ExifTag::PrimaryChromaticities(w) && (v@ == w@),
    ExifTag::ColorMap(v) => r matches ExifTag::ColorMap(w) && (v@ == w@),
    ExifTag::YCbCrCoefficients(v) => r matches ExifTag::YCbCrCoefficients(w) && (v@ == w@),
    ExifTag::YCbCrSubSampling(v) => r matches ExifTag::YCbCrSubSampling(w) && (v@ == w@),
    ExifTag::YCbCrPositioning(v) => r matches ExifTag::YCbCrPositioning(w) && (v@ == w@),
    ExifTag::ReferenceBlackWhite(v) => r matches ExifTag::ReferenceBlackWhite(w) && (v@ == w@),
    ExifTag::Copyright(v) => r matches ExifTag::Copyright(w) && (v.b@ == w.b@),
    ExifTag::ExposureTime(v) => r matches ExifTag::ExposureTime(w) && (v@ == w@),
    ExifTag::FNumber(v) => r matches ExifTag::FNumber(w) && (v@ == w@),
    ExifTag::ExifOffset(v) => r matches ExifTag::ExifOffset(w) && (v@ == w@),
    ExifTag::ExposureProgram(v) => r matches ExifTag::ExposureProgram(w) && (v@ == w@),
    ExifTag::SpectralSensitivity(v) => r matches ExifTag::SpectralSensitivity(w) && (v.b@ == w.b@),
    ExifTag::GPSInfo(v) => r matches ExifTag::GPSInfo(w) && (v@ == w@),
    ExifTag::ISO(v) => r matches ExifTag::ISO(w) && (v@ == w@),
    ExifTag::OECF(v) => r matches ExifTag::OECF(w) && (v@ == w@),
    ExifTag::SensitivityType(v) => r matches ExifTag::SensitivityType(w) && (v@ == w@),
    ExifTag::StandardOutputSensitivity(v) => r matches ExifTag::StandardOutputSensitivity(w) && (v@ == w@),
    ExifTag::RecommendedExposureIndex(v) => r matches ExifTag::RecommendedExposureIndex(w) && (v@ == w@),
    ExifTag::ISOSpeed(v) => r matches ExifTag::ISOSpeed(w) && (v@ == w@),
    ExifTag::ISOSpeedLatitudeyyy(v) => r matches ExifTag::ISOSpeedLatitudeyyy(w) && (v@ == w@),
    ExifTag::ISOSpeedLatitudezzz(v) => r matches ExifTag::ISOSpeedLatitudezzz(w) && (v@ == w@),
    ExifTag::ExifVersion(v) => r matches ExifTag::ExifVersion(w) && (v@ == w@),
    ExifTag::DateTimeOriginal(v) => r matches ExifTag::DateTimeOriginal(w) && (v.b@ == w.b@),
    ExifTag::CreateDate(v) => r matches ExifTag::CreateDate(w) && (v.b@ == w.b@),
    ExifTag::OffsetTime(v) => r matches ExifTag::OffsetTime(w) && (v.b@ == w.b@),
    ExifTag::OffsetTimeOriginal(v) => r matches ExifTag::OffsetTimeOriginal(w) && (v.b@ == w.b@),
    ExifTag::OffsetTimeDigitized(v) => r matches ExifTag::OffsetTimeDigitized(w) && (v.b@ == w.b@),
    ExifTag::ComponentsConfiguration(v) => r matches ExifTag::ComponentsConfiguration(w) && (v@ == w@),
    ExifTag::CompressedBitsPerPixel(v) => r matches ExifTag::CompressedBitsPerPixel(w) && (v@ == w@),
    ExifTag::ShutterSpeedValue(v) => r matches ExifTag::ShutterSpeedValue(w) && (v@ == w@),
    ExifTag::ApertureValue(v) => r matches ExifTag::ApertureValue(w) && (v@ == w@),
    ExifTag::BrightnessValue(v) => r matches ExifTag::BrightnessValue(w) && (v@ == w@),
    ExifTag::ExposureCompensation(v) => r matches ExifTag::ExposureCompensation(w) && (v@ == w@),
    ExifTag::MaxApertureValue(v) => r matches ExifTag::MaxApertureValue(w) && (v@ == w@),
    ExifTag::SubjectDistance(v) => r matches ExifTag::SubjectDistance(w) && (v@ == w@),
    ExifTag::MeteringMode(v) => r matches ExifTag::MeteringMode(w) && (v@ == w@),
    ExifTag::LightSource(v) => r matches ExifTag::LightSource(w) && (v@ == w@),
    ExifTag::Flash(v) => r matches ExifTag::Flash(w) && (v@ == w@),
    ExifTag::FocalLength(v) => r matches ExifTag::FocalLength(w) && (v@ == w@),
    ExifTag::SubjectArea(v) => r matches ExifTag::SubjectArea(w) && (v@ == w@),
    ExifTag::MakerNote(v) => r matches ExifTag::MakerNote(w) && (v@ == w@),
    ExifTag::UserComment(v) => r matches ExifTag::UserComment(w) && (v@ == w@),
    ExifTag::SubSecTime(v) => r matches ExifTag::SubSecTime(w) && (v.b@ == w.b@),
    ExifTag::SubSecTimeOriginal(v) => r matches ExifTag::SubSecTimeOriginal(w) && (v.b@ == w.b@),
    ExifTag::SubSecTimeDigitized(v) => r matches ExifTag::SubSecTimeDigitized(w) && (v.b@ == w.b@),
    ExifTag::AmbientTemperature(v) => r matches ExifTag::AmbientTemperature(w) && (v@ == w@),
    ExifTag::Humidity(v) => r matches ExifTag::Humidity(w) && (v@ == w@),
    ExifTag::Pressure(v) => r matches ExifTag::Pressure(w) && (v@ == w@),
    ExifTag::WaterDepth(v) => r matches ExifTag::WaterDepth(w) && (v@ == w@),
    ExifTag::Acceleration(v) => r matches ExifTag::Acceleration(w) && (v@ == w@),
    ExifTag::CameraElevationAngle(v) => r matches ExifTag::CameraElevationAngle(w) && (v@ == w@),
    ExifTag::FlashpixVersion(v) => r matches ExifTag::FlashpixVersion(w) && (v@ == w@),
    ExifTag::ColorSpace(v) => r matches ExifTag::ColorSpace(w) && (v@ == w@),
    ExifTag::ExifImageWidth(v) => r matches ExifTag::ExifImageWidth(w) && (v@ == w@),
    ExifTag::ExifImageHeight(v) => r matches ExifTag::ExifImageHeight(w) && (v@ == w@),
    ExifTag::RelatedSoundFile(v) => r matches ExifTag::RelatedSoundFile(w) && (v.b@ == w.b@),
    ExifTag::InteropOffset(v) => r matches ExifTag::InteropOffset(w) && (v@ == w@),
    ExifTag::FlashEnergy(v) => r matches ExifTag::FlashEnergy(w) && (v@ == w@),
    ExifTag::SpatialFrequencyResponse(v) => r matches ExifTag::SpatialFrequencyResponse(w) && (v@ == w@),
    ExifTag::FocalPlaneXResolution(v) => r matches ExifTag::FocalPlaneXResolution(w) && (v@ == w@),
    ExifTag::FocalPlaneYResolution(v) => r matches ExifTag::FocalPlaneYResolution(w) && (v@ == w@),
    ExifTag::FocalPlaneResolutionUnit(v) => r matches ExifTag::FocalPlaneResolutionUnit(w) && (v@ == w@),
    ExifTag::SubjectLocation(v) => r matches ExifTag::SubjectLocation(w) && (v@ == w@),
    ExifTag::ExposureIndex(v) => r matches ExifTag::ExposureIndex(w) && (v@ == w@),
    ExifTag::SensingMethod(v) => r matches ExifTag::SensingMethod(w) && (v@ == w@),
    ExifTag::FileSource(v) => r matches ExifTag::FileSource(w) && (v@ == w@),
    ExifTag::SceneType(v) => r matches ExifTag::SceneType(w) && (v@ == w@),
    ExifTag::CFAPattern(v) => r matches ExifTag::CFAPattern(w) && (v@ == w@),
    ExifTag::CustomRendered(v) => r matches ExifTag::CustomRendered(w) && (v@ == w@),
    ExifTag::ExposureMode(v) => r matches ExifTag::ExposureMode(w) && (v@ == w@),
    ExifTag::WhiteBalance(v) => r matches ExifTag::WhiteBalance(w) && (v@ == w@),
    ExifTag::DigitalZoomRatio(v) => r matches ExifTag::DigitalZoomRatio(w) && (v@ == w@),
    ExifTag::FocalLengthIn35mmFormat(v) => r matches ExifTag::FocalLengthIn35mmFormat(w) && (v@ == w@),
    ExifTag::SceneCaptureType(v) => r matches ExifTag::SceneCaptureType(w) && (v@ == w@),
    ExifTag::GainControl(v) => r matches ExifTag::GainControl(w) && (v@ == w@),
    ExifTag::Contrast(v) => r matches ExifTag::Contrast(w) && (v@ == w@),
    ExifTag::Saturation(v) => r matches ExifTag::Saturation(w) && (v@ == w@),
    ExifTag::Sharpness(v) => r matches ExifTag::Sharpness(w) && (v@ == w@),
    ExifTag::DeviceSettingDescription(v) => r matches ExifTag::DeviceSettingDescription(w) && (v@ == w@),
    ExifTag::SubjectDistanceRange(v) => r matches ExifTag::SubjectDistanceRange(w) && (v@ == w@),
    ExifTag::ImageUniqueID(v) => r matches ExifTag::ImageUniqueID(w) && (v.b@ == w.b@),
    ExifTag::OwnerName(v) => r matches ExifTag::OwnerName(w) && (v.b@ == w.b@),
    ExifTag::SerialNumber(v) => r matches ExifTag::SerialNumber(w) && (v.b@ == w.b@),
    ExifTag::LensInfo(v) => r matches ExifTag::LensInfo(w) && (v@ == w@),
    ExifTag::LensMake(v) => r matches ExifTag::LensMake(w) && (v.b@ == w.b@),
    ExifTag::LensModel(v) => r matches ExifTag::LensModel(w) && (v.b@ == w.b@),
    ExifTag::LensSerialNumber(v) => r matches ExifTag::LensSerialNumber(w) && (v.b@ == w.b@),
    ExifTag::CompositeImage(v) => r matches ExifTag::CompositeImage(w) && (v@ == w@),
    ExifTag::CompositeImageCount(v) => r matches ExifTag::CompositeImageCount(w) && (v@ == w@),
    ExifTag::CompositeImageExposureTimes(v) => r matches ExifTag::CompositeImageExposureTimes(w) && (v@ == w@),
    ExifTag::Gamma(v) => r matches ExifTag::Gamma(w) && (v@ == w@),
    ExifTag::StripOffsets(v, d) => r matches ExifTag::StripOffsets(w, x) && v@ == w@ && d@ == x@,
    ExifTag::StripByteCounts(v) => r matches ExifTag::StripByteCounts(w) && v@ == w@,
    ExifTag::ThumbnailOffset(v, d) => r matches ExifTag::ThumbnailOffset(w, x) && v@ == w@ && d@ == x@,
    ExifTag::ThumbnailLength(v) => r matches ExifTag::ThumbnailLength(w) && v@ == w@,
    ExifTag::UnknownINT8U(v, h, g) => r matches ExifTag::UnknownINT8U(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownSTRING(v, h, g) => r matches ExifTag::UnknownSTRING(w, h2, g2) && h == h2 && g == g2 && (v.b@ == w.b@),
    ExifTag::UnknownINT16U(v, h, g) => r matches ExifTag::UnknownINT16U(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownINT32U(v, h, g) => r matches ExifTag::UnknownINT32U(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownRATIONAL64U(v, h, g) => r matches ExifTag::UnknownRATIONAL64U(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownINT8S(v, h, g) => r matches ExifTag::UnknownINT8S(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownUNDEF(v, h, g) => r matches ExifTag::UnknownUNDEF(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownINT16S(v, h, g) => r matches ExifTag::UnknownINT16S(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownINT32S(v, h, g) => r matches ExifTag::UnknownINT32S(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownRATIONAL64S(v, h, g) => r matches ExifTag::UnknownRATIONAL64S(w, h2, g2) && h == h2 && g == g2 && (v@ == w@),
    ExifTag::UnknownFLOAT(v, h, g) => r matches ExifTag::UnknownFLOAT(w, h2, g2) && h == h2 && g == g2 && (v@.len() == w@.len() && forall|i: int| 0 <= i < v@.len() ==> f32_bits(#[trigger] w@[i]) == f32_bits(v@[i])),
    ExifTag::UnknownDOUBLE(v, h, g) => r matches ExifTag::UnknownDOUBLE(w, h2, g2) && h == h2 && g == g2 && (v@.len() == w@.len() && forall|i: int| 0 <= i < v@.len() ==> f64_bits(#[trigger] w@[i]) == f64_bits(v@[i])),
} }
/// P11: rebuilding from number, group, format and encoded data gives the same tag with the same value
#[verifier::spinoff_prover]
pub proof fn lemma_rebuild(t: ExifTag, r: ExifTag, e: Endian)
    requires !t.is_struct(), t.plain(), r.std_row() == t.std_row(), r.std_hex() == t.std_hex(), r.std_grp() == t.std_grp(), r.val_says(t.val(e), e)
    ensures same(t, r)
{ match t {
    ExifTag::GPSVersionID(v) => { if let ExifTag::GPSVersionID(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::GPSLatitudeRef(v) => { if let ExifTag::GPSLatitudeRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSLatitude(v) => { if let ExifTag::GPSLatitude(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSLongitudeRef(v) => { if let ExifTag::GPSLongitudeRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSLongitude(v) => { if let ExifTag::GPSLongitude(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSAltitudeRef(v) => { if let ExifTag::GPSAltitudeRef(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::GPSAltitude(v) => { if let ExifTag::GPSAltitude(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSTimeStamp(v) => { if let ExifTag::GPSTimeStamp(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSSatellites(v) => { if let ExifTag::GPSSatellites(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSStatus(v) => { if let ExifTag::GPSStatus(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSMeasureMode(v) => { if let ExifTag::GPSMeasureMode(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDOP(v) => { if let ExifTag::GPSDOP(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSSpeedRef(v) => { if let ExifTag::GPSSpeedRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSSpeed(v) => { if let ExifTag::GPSSpeed(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSTrackRef(v) => { if let ExifTag::GPSTrackRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSTrack(v) => { if let ExifTag::GPSTrack(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSImgDirectionRef(v) => { if let ExifTag::GPSImgDirectionRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSImgDirection(v) => { if let ExifTag::GPSImgDirection(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSMapDatum(v) => { if let ExifTag::GPSMapDatum(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDestLatitudeRef(v) => { if let ExifTag::GPSDestLatitudeRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDestLatitude(v) => { if let ExifTag::GPSDestLatitude(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSDestLongitudeRef(v) => { if let ExifTag::GPSDestLongitudeRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDestLongitude(v) => { if let ExifTag::GPSDestLongitude(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSDestBearingRef(v) => { if let ExifTag::GPSDestBearingRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDestBearing(v) => { if let ExifTag::GPSDestBearing(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSDestDistanceRef(v) => { if let ExifTag::GPSDestDistanceRef(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDestDistance(v) => { if let ExifTag::GPSDestDistance(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::GPSProcessingMethod(v) => { if let ExifTag::GPSProcessingMethod(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::GPSAreaInformation(v) => { if let ExifTag::GPSAreaInformation(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::GPSDateStamp(v) => { if let ExifTag::GPSDateStamp(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSDifferential(v) => { if let ExifTag::GPSDifferential(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::GPSHPositioningError(v) => { if let ExifTag::GPSHPositioningError(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::InteroperabilityIndex(v) => { if let ExifTag::InteroperabilityIndex(w) = r { lemma_string(v, w, e); } }
    ExifTag::InteroperabilityVersion(v) => { if let ExifTag::InteroperabilityVersion(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::ImageWidth(v) => { if let ExifTag::ImageWidth(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ImageHeight(v) => { if let ExifTag::ImageHeight(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::BitsPerSample(v) => { if let ExifTag::BitsPerSample(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::Compression(v) => { if let ExifTag::Compression(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::PhotometricInterpretation(v) => { if let ExifTag::PhotometricInterpretation(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::CellWidth(v) => { if let ExifTag::CellWidth(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::CellHeight(v) => { if let ExifTag::CellHeight(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ImageDescription(v) => { if let ExifTag::ImageDescription(w) = r { lemma_string(v, w, e); } }
    ExifTag::Make(v) => { if let ExifTag::Make(w) = r { lemma_string(v, w, e); } }
    ExifTag::Model(v) => { if let ExifTag::Model(w) = r { lemma_string(v, w, e); } }
    ExifTag::Orientation(v) => { if let ExifTag::Orientation(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::SamplesPerPixel(v) => { if let ExifTag::SamplesPerPixel(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::RowsPerStrip(v) => { if let ExifTag::RowsPerStrip(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::XResolution(v) => { if let ExifTag::XResolution(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::YResolution(v) => { if let ExifTag::YResolution(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::PlanarConfiguration(v) => { if let ExifTag::PlanarConfiguration(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ResolutionUnit(v) => { if let ExifTag::ResolutionUnit(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::TransferFunction(v) => { if let ExifTag::TransferFunction(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::Software(v) => { if let ExifTag::Software(w) = r { lemma_string(v, w, e); } }
    ExifTag::ModifyDate(v) => { if let ExifTag::ModifyDate(w) = r { lemma_string(v, w, e); } }
    ExifTag::Artist(v) => { if let ExifTag::Artist(w) = r { lemma_string(v, w, e); } }
    ExifTag::WhitePoint(v) => { if let ExifTag::WhitePoint(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::PrimaryChromaticities(v) => { if let ExifTag::PrimaryChromaticities(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::ColorMap(v) => { if let ExifTag::ColorMap(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::YCbCrCoefficients(v) => { if let ExifTag::YCbCrCoefficients(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::YCbCrSubSampling(v) => { if let ExifTag::YCbCrSubSampling(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::YCbCrPositioning(v) => { if let ExifTag::YCbCrPositioning(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ReferenceBlackWhite(v) => { if let ExifTag::ReferenceBlackWhite(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::Copyright(v) => { if let ExifTag::Copyright(w) = r { lemma_string(v, w, e); } }
    ExifTag::ExposureTime(v) => { if let ExifTag::ExposureTime(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::FNumber(v) => { if let ExifTag::FNumber(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::ExifOffset(v) => { if let ExifTag::ExifOffset(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ExposureProgram(v) => { if let ExifTag::ExposureProgram(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::SpectralSensitivity(v) => { if let ExifTag::SpectralSensitivity(w) = r { lemma_string(v, w, e); } }
    ExifTag::GPSInfo(v) => { if let ExifTag::GPSInfo(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ISO(v) => { if let ExifTag::ISO(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::OECF(v) => { if let ExifTag::OECF(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::SensitivityType(v) => { if let ExifTag::SensitivityType(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::StandardOutputSensitivity(v) => { if let ExifTag::StandardOutputSensitivity(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::RecommendedExposureIndex(v) => { if let ExifTag::RecommendedExposureIndex(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ISOSpeed(v) => { if let ExifTag::ISOSpeed(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ISOSpeedLatitudeyyy(v) => { if let ExifTag::ISOSpeedLatitudeyyy(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ISOSpeedLatitudezzz(v) => { if let ExifTag::ISOSpeedLatitudezzz(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ExifVersion(v) => { if let ExifTag::ExifVersion(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::DateTimeOriginal(v) => { if let ExifTag::DateTimeOriginal(w) = r { lemma_string(v, w, e); } }
    ExifTag::CreateDate(v) => { if let ExifTag::CreateDate(w) = r { lemma_string(v, w, e); } }
    ExifTag::OffsetTime(v) => { if let ExifTag::OffsetTime(w) = r { lemma_string(v, w, e); } }
    ExifTag::OffsetTimeOriginal(v) => { if let ExifTag::OffsetTimeOriginal(w) = r { lemma_string(v, w, e); } }
    ExifTag::OffsetTimeDigitized(v) => { if let ExifTag::OffsetTimeDigitized(w) = r { lemma_string(v, w, e); } }
    ExifTag::ComponentsConfiguration(v) => { if let ExifTag::ComponentsConfiguration(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::CompressedBitsPerPixel(v) => { if let ExifTag::CompressedBitsPerPixel(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::ShutterSpeedValue(v) => { if let ExifTag::ShutterSpeedValue(w) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::ApertureValue(v) => { if let ExifTag::ApertureValue(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::BrightnessValue(v) => { if let ExifTag::BrightnessValue(w) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::ExposureCompensation(v) => { if let ExifTag::ExposureCompensation(w) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::MaxApertureValue(v) => { if let ExifTag::MaxApertureValue(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::SubjectDistance(v) => { if let ExifTag::SubjectDistance(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::MeteringMode(v) => { if let ExifTag::MeteringMode(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::LightSource(v) => { if let ExifTag::LightSource(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::Flash(v) => { if let ExifTag::Flash(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::FocalLength(v) => { if let ExifTag::FocalLength(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::SubjectArea(v) => { if let ExifTag::SubjectArea(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::MakerNote(v) => { if let ExifTag::MakerNote(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::UserComment(v) => { if let ExifTag::UserComment(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::SubSecTime(v) => { if let ExifTag::SubSecTime(w) = r { lemma_string(v, w, e); } }
    ExifTag::SubSecTimeOriginal(v) => { if let ExifTag::SubSecTimeOriginal(w) = r { lemma_string(v, w, e); } }
    ExifTag::SubSecTimeDigitized(v) => { if let ExifTag::SubSecTimeDigitized(w) = r { lemma_string(v, w, e); } }
    ExifTag::AmbientTemperature(v) => { if let ExifTag::AmbientTemperature(w) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::Humidity(v) => { if let ExifTag::Humidity(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::Pressure(v) => { if let ExifTag::Pressure(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::WaterDepth(v) => { if let ExifTag::WaterDepth(w) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::Acceleration(v) => { if let ExifTag::Acceleration(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::CameraElevationAngle(v) => { if let ExifTag::CameraElevationAngle(w) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::FlashpixVersion(v) => { if let ExifTag::FlashpixVersion(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::ColorSpace(v) => { if let ExifTag::ColorSpace(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ExifImageWidth(v) => { if let ExifTag::ExifImageWidth(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::ExifImageHeight(v) => { if let ExifTag::ExifImageHeight(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::RelatedSoundFile(v) => { if let ExifTag::RelatedSoundFile(w) = r { lemma_string(v, w, e); } }
    ExifTag::InteropOffset(v) => { if let ExifTag::InteropOffset(w) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::FlashEnergy(v) => { if let ExifTag::FlashEnergy(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::SpatialFrequencyResponse(v) => { if let ExifTag::SpatialFrequencyResponse(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::FocalPlaneXResolution(v) => { if let ExifTag::FocalPlaneXResolution(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::FocalPlaneYResolution(v) => { if let ExifTag::FocalPlaneYResolution(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::FocalPlaneResolutionUnit(v) => { if let ExifTag::FocalPlaneResolutionUnit(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::SubjectLocation(v) => { if let ExifTag::SubjectLocation(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ExposureIndex(v) => { if let ExifTag::ExposureIndex(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::SensingMethod(v) => { if let ExifTag::SensingMethod(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::FileSource(v) => { if let ExifTag::FileSource(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::SceneType(v) => { if let ExifTag::SceneType(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::CFAPattern(v) => { if let ExifTag::CFAPattern(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::CustomRendered(v) => { if let ExifTag::CustomRendered(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ExposureMode(v) => { if let ExifTag::ExposureMode(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::WhiteBalance(v) => { if let ExifTag::WhiteBalance(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::DigitalZoomRatio(v) => { if let ExifTag::DigitalZoomRatio(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::FocalLengthIn35mmFormat(v) => { if let ExifTag::FocalLengthIn35mmFormat(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::SceneCaptureType(v) => { if let ExifTag::SceneCaptureType(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::GainControl(v) => { if let ExifTag::GainControl(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::Contrast(v) => { if let ExifTag::Contrast(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::Saturation(v) => { if let ExifTag::Saturation(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::Sharpness(v) => { if let ExifTag::Sharpness(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::DeviceSettingDescription(v) => { if let ExifTag::DeviceSettingDescription(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::SubjectDistanceRange(v) => { if let ExifTag::SubjectDistanceRange(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::ImageUniqueID(v) => { if let ExifTag::ImageUniqueID(w) = r { lemma_string(v, w, e); } }
    ExifTag::OwnerName(v) => { if let ExifTag::OwnerName(w) = r { lemma_string(v, w, e); } }
    ExifTag::SerialNumber(v) => { if let ExifTag::SerialNumber(w) = r { lemma_string(v, w, e); } }
    ExifTag::LensInfo(v) => { if let ExifTag::LensInfo(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::LensMake(v) => { if let ExifTag::LensMake(w) = r { lemma_string(v, w, e); } }
    ExifTag::LensModel(v) => { if let ExifTag::LensModel(w) = r { lemma_string(v, w, e); } }
    ExifTag::LensSerialNumber(v) => { if let ExifTag::LensSerialNumber(w) = r { lemma_string(v, w, e); } }
    ExifTag::CompositeImage(v) => { if let ExifTag::CompositeImage(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::CompositeImageCount(v) => { if let ExifTag::CompositeImageCount(w) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::CompositeImageExposureTimes(v) => { if let ExifTag::CompositeImageExposureTimes(w) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::Gamma(v) => { if let ExifTag::Gamma(w) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::StripOffsets(_, _) => {}
    ExifTag::StripByteCounts(_) => {}
    ExifTag::ThumbnailOffset(_, _) => {}
    ExifTag::ThumbnailLength(_) => {}
    ExifTag::UnknownINT8U(v, _, _) => { if let ExifTag::UnknownINT8U(w, _, _) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::UnknownSTRING(v, _, _) => { if let ExifTag::UnknownSTRING(w, _, _) = r { lemma_string(v, w, e); } }
    ExifTag::UnknownINT16U(v, _, _) => { if let ExifTag::UnknownINT16U(w, _, _) = r { lemma_vec_u16(v, w, e); } }
    ExifTag::UnknownINT32U(v, _, _) => { if let ExifTag::UnknownINT32U(w, _, _) = r { lemma_vec_u32(v, w, e); } }
    ExifTag::UnknownRATIONAL64U(v, _, _) => { if let ExifTag::UnknownRATIONAL64U(w, _, _) = r { lemma_vec_uR64(v, w, e); } }
    ExifTag::UnknownINT8S(v, _, _) => { if let ExifTag::UnknownINT8S(w, _, _) = r { lemma_vec_i8(v, w, e); } }
    ExifTag::UnknownUNDEF(v, _, _) => { if let ExifTag::UnknownUNDEF(w, _, _) = r { lemma_vec_u8(v, w, e); } }
    ExifTag::UnknownINT16S(v, _, _) => { if let ExifTag::UnknownINT16S(w, _, _) = r { lemma_vec_i16(v, w, e); } }
    ExifTag::UnknownINT32S(v, _, _) => { if let ExifTag::UnknownINT32S(w, _, _) = r { lemma_vec_i32(v, w, e); } }
    ExifTag::UnknownRATIONAL64S(v, _, _) => { if let ExifTag::UnknownRATIONAL64S(w, _, _) = r { lemma_vec_iR64(v, w, e); } }
    ExifTag::UnknownFLOAT(v, _, _) => { if let ExifTag::UnknownFLOAT(w, _, _) = r { lemma_vec_f32(v, w, e); } }
    ExifTag::UnknownDOUBLE(v, _, _) => { if let ExifTag::UnknownDOUBLE(w, _, _) = r { lemma_vec_f64(v, w, e); } }
} }
/// the encoded value has the format's size per component
#[verifier::spinoff_prover]
pub proof fn lemma_size(t: ExifTag, e: Endian)
    ensures fits(t.std_fmt(), t.val(e)), !t.is_struct() && !(t.std_empty() && t.std_fmt() != ExifTagFormat::STRING) ==> t.val(e).len() == size_of_fmt(t.std_fmt()) * t.std_count()
{ match t {
    ExifTag::GPSVersionID(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSLatitudeRef(v) => {  }
    ExifTag::GPSLatitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSLongitudeRef(v) => {  }
    ExifTag::GPSLongitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSAltitudeRef(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSAltitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSTimeStamp(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSSatellites(v) => {  }
    ExifTag::GPSStatus(v) => {  }
    ExifTag::GPSMeasureMode(v) => {  }
    ExifTag::GPSDOP(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSSpeedRef(v) => {  }
    ExifTag::GPSSpeed(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSTrackRef(v) => {  }
    ExifTag::GPSTrack(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSImgDirectionRef(v) => {  }
    ExifTag::GPSImgDirection(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSMapDatum(v) => {  }
    ExifTag::GPSDestLatitudeRef(v) => {  }
    ExifTag::GPSDestLatitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSDestLongitudeRef(v) => {  }
    ExifTag::GPSDestLongitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSDestBearingRef(v) => {  }
    ExifTag::GPSDestBearing(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSDestDistanceRef(v) => {  }
    ExifTag::GPSDestDistance(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSProcessingMethod(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSAreaInformation(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSDateStamp(v) => {  }
    ExifTag::GPSDifferential(v) => { lemma_len_u16(v, e); }
    ExifTag::GPSHPositioningError(v) => { lemma_len_uR64(v, e); }
    ExifTag::InteroperabilityIndex(v) => {  }
    ExifTag::InteroperabilityVersion(v) => { lemma_len_u8(v, e); }
    ExifTag::ImageWidth(v) => { lemma_len_u32(v, e); }
    ExifTag::ImageHeight(v) => { lemma_len_u32(v, e); }
    ExifTag::BitsPerSample(v) => { lemma_len_u16(v, e); }
    ExifTag::Compression(v) => { lemma_len_u16(v, e); }
    ExifTag::PhotometricInterpretation(v) => { lemma_len_u16(v, e); }
    ExifTag::CellWidth(v) => { lemma_len_u16(v, e); }
    ExifTag::CellHeight(v) => { lemma_len_u16(v, e); }
    ExifTag::ImageDescription(v) => {  }
    ExifTag::Make(v) => {  }
    ExifTag::Model(v) => {  }
    ExifTag::Orientation(v) => { lemma_len_u16(v, e); }
    ExifTag::SamplesPerPixel(v) => { lemma_len_u16(v, e); }
    ExifTag::RowsPerStrip(v) => { lemma_len_u32(v, e); }
    ExifTag::XResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::YResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::PlanarConfiguration(v) => { lemma_len_u16(v, e); }
    ExifTag::ResolutionUnit(v) => { lemma_len_u16(v, e); }
    ExifTag::TransferFunction(v) => { lemma_len_u16(v, e); }
    ExifTag::Software(v) => {  }
    ExifTag::ModifyDate(v) => {  }
    ExifTag::Artist(v) => {  }
    ExifTag::WhitePoint(v) => { lemma_len_uR64(v, e); }
    ExifTag::PrimaryChromaticities(v) => { lemma_len_uR64(v, e); }
    ExifTag::ColorMap(v) => { lemma_len_u16(v, e); }
    ExifTag::YCbCrCoefficients(v) => { lemma_len_uR64(v, e); }
    ExifTag::YCbCrSubSampling(v) => { lemma_len_u16(v, e); }
    ExifTag::YCbCrPositioning(v) => { lemma_len_u16(v, e); }
    ExifTag::ReferenceBlackWhite(v) => { lemma_len_uR64(v, e); }
    ExifTag::Copyright(v) => {  }
    ExifTag::ExposureTime(v) => { lemma_len_uR64(v, e); }
    ExifTag::FNumber(v) => { lemma_len_uR64(v, e); }
    ExifTag::ExifOffset(v) => { lemma_len_u32(v, e); }
    ExifTag::ExposureProgram(v) => { lemma_len_u16(v, e); }
    ExifTag::SpectralSensitivity(v) => {  }
    ExifTag::GPSInfo(v) => { lemma_len_u32(v, e); }
    ExifTag::ISO(v) => { lemma_len_u16(v, e); }
    ExifTag::OECF(v) => { lemma_len_u8(v, e); }
    ExifTag::SensitivityType(v) => { lemma_len_u16(v, e); }
    ExifTag::StandardOutputSensitivity(v) => { lemma_len_u32(v, e); }
    ExifTag::RecommendedExposureIndex(v) => { lemma_len_u32(v, e); }
    ExifTag::ISOSpeed(v) => { lemma_len_u32(v, e); }
    ExifTag::ISOSpeedLatitudeyyy(v) => { lemma_len_u32(v, e); }
    ExifTag::ISOSpeedLatitudezzz(v) => { lemma_len_u32(v, e); }
    ExifTag::ExifVersion(v) => { lemma_len_u8(v, e); }
    ExifTag::DateTimeOriginal(v) => {  }
    ExifTag::CreateDate(v) => {  }
    ExifTag::OffsetTime(v) => {  }
    ExifTag::OffsetTimeOriginal(v) => {  }
    ExifTag::OffsetTimeDigitized(v) => {  }
    ExifTag::ComponentsConfiguration(v) => { lemma_len_u8(v, e); }
    ExifTag::CompressedBitsPerPixel(v) => { lemma_len_uR64(v, e); }
    ExifTag::ShutterSpeedValue(v) => { lemma_len_iR64(v, e); }
    ExifTag::ApertureValue(v) => { lemma_len_uR64(v, e); }
    ExifTag::BrightnessValue(v) => { lemma_len_iR64(v, e); }
    ExifTag::ExposureCompensation(v) => { lemma_len_iR64(v, e); }
    ExifTag::MaxApertureValue(v) => { lemma_len_uR64(v, e); }
    ExifTag::SubjectDistance(v) => { lemma_len_uR64(v, e); }
    ExifTag::MeteringMode(v) => { lemma_len_u16(v, e); }
    ExifTag::LightSource(v) => { lemma_len_u16(v, e); }
    ExifTag::Flash(v) => { lemma_len_u16(v, e); }
    ExifTag::FocalLength(v) => { lemma_len_uR64(v, e); }
    ExifTag::SubjectArea(v) => { lemma_len_u16(v, e); }
    ExifTag::MakerNote(v) => { lemma_len_u8(v, e); }
    ExifTag::UserComment(v) => { lemma_len_u8(v, e); }
    ExifTag::SubSecTime(v) => {  }
    ExifTag::SubSecTimeOriginal(v) => {  }
    ExifTag::SubSecTimeDigitized(v) => {  }
    ExifTag::AmbientTemperature(v) => { lemma_len_iR64(v, e); }
    ExifTag::Humidity(v) => { lemma_len_uR64(v, e); }
    ExifTag::Pressure(v) => { lemma_len_uR64(v, e); }
    ExifTag::WaterDepth(v) => { lemma_len_iR64(v, e); }
    ExifTag::Acceleration(v) => { lemma_len_uR64(v, e); }
    ExifTag::CameraElevationAngle(v) => { lemma_len_iR64(v, e); }
    ExifTag::FlashpixVersion(v) => { lemma_len_u8(v, e); }
    ExifTag::ColorSpace(v) => { lemma_len_u16(v, e); }
    ExifTag::ExifImageWidth(v) => { lemma_len_u32(v, e); }
    ExifTag::ExifImageHeight(v) => { lemma_len_u32(v, e); }
    ExifTag::RelatedSoundFile(v) => {  }
    ExifTag::InteropOffset(v) => { lemma_len_u32(v, e); }
    ExifTag::FlashEnergy(v) => { lemma_len_uR64(v, e); }
    ExifTag::SpatialFrequencyResponse(v) => { lemma_len_u16(v, e); }
    ExifTag::FocalPlaneXResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::FocalPlaneYResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::FocalPlaneResolutionUnit(v) => { lemma_len_u16(v, e); }
    ExifTag::SubjectLocation(v) => { lemma_len_u16(v, e); }
    ExifTag::ExposureIndex(v) => { lemma_len_uR64(v, e); }
    ExifTag::SensingMethod(v) => { lemma_len_u16(v, e); }
    ExifTag::FileSource(v) => { lemma_len_u8(v, e); }
    ExifTag::SceneType(v) => { lemma_len_u8(v, e); }
    ExifTag::CFAPattern(v) => { lemma_len_u8(v, e); }
    ExifTag::CustomRendered(v) => { lemma_len_u16(v, e); }
    ExifTag::ExposureMode(v) => { lemma_len_u16(v, e); }
    ExifTag::WhiteBalance(v) => { lemma_len_u16(v, e); }
    ExifTag::DigitalZoomRatio(v) => { lemma_len_uR64(v, e); }
    ExifTag::FocalLengthIn35mmFormat(v) => { lemma_len_u16(v, e); }
    ExifTag::SceneCaptureType(v) => { lemma_len_u16(v, e); }
    ExifTag::GainControl(v) => { lemma_len_u16(v, e); }
    ExifTag::Contrast(v) => { lemma_len_u16(v, e); }
    ExifTag::Saturation(v) => { lemma_len_u16(v, e); }
    ExifTag::Sharpness(v) => { lemma_len_u16(v, e); }
    ExifTag::DeviceSettingDescription(v) => { lemma_len_u8(v, e); }
    ExifTag::SubjectDistanceRange(v) => { lemma_len_u16(v, e); }
    ExifTag::ImageUniqueID(v) => {  }
    ExifTag::OwnerName(v) => {  }
    ExifTag::SerialNumber(v) => {  }
    ExifTag::LensInfo(v) => { lemma_len_uR64(v, e); }
    ExifTag::LensMake(v) => {  }
    ExifTag::LensModel(v) => {  }
    ExifTag::LensSerialNumber(v) => {  }
    ExifTag::CompositeImage(v) => { lemma_len_u16(v, e); }
    ExifTag::CompositeImageCount(v) => { lemma_len_u16(v, e); }
    ExifTag::CompositeImageExposureTimes(v) => { lemma_len_u8(v, e); }
    ExifTag::Gamma(v) => { lemma_len_uR64(v, e); }
    ExifTag::StripOffsets(_, _) => {}
    ExifTag::StripByteCounts(v) => { lemma_len_u32(v, e); }
    ExifTag::ThumbnailOffset(_, _) => {}
    ExifTag::ThumbnailLength(v) => { lemma_len_u32(v, e); }
    ExifTag::UnknownINT8U(v, _, _) => { lemma_len_u8(v, e); }
    ExifTag::UnknownSTRING(v, _, _) => {  }
    ExifTag::UnknownINT16U(v, _, _) => { lemma_len_u16(v, e); }
    ExifTag::UnknownINT32U(v, _, _) => { lemma_len_u32(v, e); }
    ExifTag::UnknownRATIONAL64U(v, _, _) => { lemma_len_uR64(v, e); }
    ExifTag::UnknownINT8S(v, _, _) => { lemma_len_i8(v, e); }
    ExifTag::UnknownUNDEF(v, _, _) => { lemma_len_u8(v, e); }
    ExifTag::UnknownINT16S(v, _, _) => { lemma_len_i16(v, e); }
    ExifTag::UnknownINT32S(v, _, _) => { lemma_len_i32(v, e); }
    ExifTag::UnknownRATIONAL64S(v, _, _) => { lemma_len_iR64(v, e); }
    ExifTag::UnknownFLOAT(v, _, _) => { lemma_len_f32(v, e); }
    ExifTag::UnknownDOUBLE(v, _, _) => { lemma_len_f64(v, e); }
} }
/// a value without components has no bytes
#[verifier::spinoff_prover]
pub proof fn lemma_empty(t: ExifTag, e: Endian)
    requires t.std_empty(), t.std_fmt() != ExifTagFormat::STRING
    ensures t.val(e).len() == 0
{ match t {
    ExifTag::GPSVersionID(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSLatitudeRef(v) => {  }
    ExifTag::GPSLatitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSLongitudeRef(v) => {  }
    ExifTag::GPSLongitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSAltitudeRef(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSAltitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSTimeStamp(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSSatellites(v) => {  }
    ExifTag::GPSStatus(v) => {  }
    ExifTag::GPSMeasureMode(v) => {  }
    ExifTag::GPSDOP(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSSpeedRef(v) => {  }
    ExifTag::GPSSpeed(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSTrackRef(v) => {  }
    ExifTag::GPSTrack(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSImgDirectionRef(v) => {  }
    ExifTag::GPSImgDirection(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSMapDatum(v) => {  }
    ExifTag::GPSDestLatitudeRef(v) => {  }
    ExifTag::GPSDestLatitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSDestLongitudeRef(v) => {  }
    ExifTag::GPSDestLongitude(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSDestBearingRef(v) => {  }
    ExifTag::GPSDestBearing(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSDestDistanceRef(v) => {  }
    ExifTag::GPSDestDistance(v) => { lemma_len_uR64(v, e); }
    ExifTag::GPSProcessingMethod(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSAreaInformation(v) => { lemma_len_u8(v, e); }
    ExifTag::GPSDateStamp(v) => {  }
    ExifTag::GPSDifferential(v) => { lemma_len_u16(v, e); }
    ExifTag::GPSHPositioningError(v) => { lemma_len_uR64(v, e); }
    ExifTag::InteroperabilityIndex(v) => {  }
    ExifTag::InteroperabilityVersion(v) => { lemma_len_u8(v, e); }
    ExifTag::ImageWidth(v) => { lemma_len_u32(v, e); }
    ExifTag::ImageHeight(v) => { lemma_len_u32(v, e); }
    ExifTag::BitsPerSample(v) => { lemma_len_u16(v, e); }
    ExifTag::Compression(v) => { lemma_len_u16(v, e); }
    ExifTag::PhotometricInterpretation(v) => { lemma_len_u16(v, e); }
    ExifTag::CellWidth(v) => { lemma_len_u16(v, e); }
    ExifTag::CellHeight(v) => { lemma_len_u16(v, e); }
    ExifTag::ImageDescription(v) => {  }
    ExifTag::Make(v) => {  }
    ExifTag::Model(v) => {  }
    ExifTag::Orientation(v) => { lemma_len_u16(v, e); }
    ExifTag::SamplesPerPixel(v) => { lemma_len_u16(v, e); }
    ExifTag::RowsPerStrip(v) => { lemma_len_u32(v, e); }
    ExifTag::XResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::YResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::PlanarConfiguration(v) => { lemma_len_u16(v, e); }
    ExifTag::ResolutionUnit(v) => { lemma_len_u16(v, e); }
    ExifTag::TransferFunction(v) => { lemma_len_u16(v, e); }
    ExifTag::Software(v) => {  }
    ExifTag::ModifyDate(v) => {  }
    ExifTag::Artist(v) => {  }
    ExifTag::WhitePoint(v) => { lemma_len_uR64(v, e); }
    ExifTag::PrimaryChromaticities(v) => { lemma_len_uR64(v, e); }
    ExifTag::ColorMap(v) => { lemma_len_u16(v, e); }
    ExifTag::YCbCrCoefficients(v) => { lemma_len_uR64(v, e); }
    ExifTag::YCbCrSubSampling(v) => { lemma_len_u16(v, e); }
    ExifTag::YCbCrPositioning(v) => { lemma_len_u16(v, e); }
    ExifTag::ReferenceBlackWhite(v) => { lemma_len_uR64(v, e); }
    ExifTag::Copyright(v) => {  }
    ExifTag::ExposureTime(v) => { lemma_len_uR64(v, e); }
    ExifTag::FNumber(v) => { lemma_len_uR64(v, e); }
    ExifTag::ExifOffset(v) => { lemma_len_u32(v, e); }
    ExifTag::ExposureProgram(v) => { lemma_len_u16(v, e); }
    ExifTag::SpectralSensitivity(v) => {  }
    ExifTag::GPSInfo(v) => { lemma_len_u32(v, e); }
    ExifTag::ISO(v) => { lemma_len_u16(v, e); }
    ExifTag::OECF(v) => { lemma_len_u8(v, e); }
    ExifTag::SensitivityType(v) => { lemma_len_u16(v, e); }
    ExifTag::StandardOutputSensitivity(v) => { lemma_len_u32(v, e); }
    ExifTag::RecommendedExposureIndex(v) => { lemma_len_u32(v, e); }
    ExifTag::ISOSpeed(v) => { lemma_len_u32(v, e); }
    ExifTag::ISOSpeedLatitudeyyy(v) => { lemma_len_u32(v, e); }
    ExifTag::ISOSpeedLatitudezzz(v) => { lemma_len_u32(v, e); }
    ExifTag::ExifVersion(v) => { lemma_len_u8(v, e); }
    ExifTag::DateTimeOriginal(v) => {  }
    ExifTag::CreateDate(v) => {  }
    ExifTag::OffsetTime(v) => {  }
    ExifTag::OffsetTimeOriginal(v) => {  }
    ExifTag::OffsetTimeDigitized(v) => {  }
    ExifTag::ComponentsConfiguration(v) => { lemma_len_u8(v, e); }
    ExifTag::CompressedBitsPerPixel(v) => { lemma_len_uR64(v, e); }
    ExifTag::ShutterSpeedValue(v) => { lemma_len_iR64(v, e); }
    ExifTag::ApertureValue(v) => { lemma_len_uR64(v, e); }
    ExifTag::BrightnessValue(v) => { lemma_len_iR64(v, e); }
    ExifTag::ExposureCompensation(v) => { lemma_len_iR64(v, e); }
    ExifTag::MaxApertureValue(v) => { lemma_len_uR64(v, e); }
    ExifTag::SubjectDistance(v) => { lemma_len_uR64(v, e); }
    ExifTag::MeteringMode(v) => { lemma_len_u16(v, e); }
    ExifTag::LightSource(v) => { lemma_len_u16(v, e); }
    ExifTag::Flash(v) => { lemma_len_u16(v, e); }
    ExifTag::FocalLength(v) => { lemma_len_uR64(v, e); }
    ExifTag::SubjectArea(v) => { lemma_len_u16(v, e); }
    ExifTag::MakerNote(v) => { lemma_len_u8(v, e); }
    ExifTag::UserComment(v) => { lemma_len_u8(v, e); }
    ExifTag::SubSecTime(v) => {  }
    ExifTag::SubSecTimeOriginal(v) => {  }
    ExifTag::SubSecTimeDigitized(v) => {  }
    ExifTag::AmbientTemperature(v) => { lemma_len_iR64(v, e); }
    ExifTag::Humidity(v) => { lemma_len_uR64(v, e); }
    ExifTag::Pressure(v) => { lemma_len_uR64(v, e); }
    ExifTag::WaterDepth(v) => { lemma_len_iR64(v, e); }
    ExifTag::Acceleration(v) => { lemma_len_uR64(v, e); }
    ExifTag::CameraElevationAngle(v) => { lemma_len_iR64(v, e); }
    ExifTag::FlashpixVersion(v) => { lemma_len_u8(v, e); }
    ExifTag::ColorSpace(v) => { lemma_len_u16(v, e); }
    ExifTag::ExifImageWidth(v) => { lemma_len_u32(v, e); }
    ExifTag::ExifImageHeight(v) => { lemma_len_u32(v, e); }
    ExifTag::RelatedSoundFile(v) => {  }
    ExifTag::InteropOffset(v) => { lemma_len_u32(v, e); }
    ExifTag::FlashEnergy(v) => { lemma_len_uR64(v, e); }
    ExifTag::SpatialFrequencyResponse(v) => { lemma_len_u16(v, e); }
    ExifTag::FocalPlaneXResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::FocalPlaneYResolution(v) => { lemma_len_uR64(v, e); }
    ExifTag::FocalPlaneResolutionUnit(v) => { lemma_len_u16(v, e); }
    ExifTag::SubjectLocation(v) => { lemma_len_u16(v, e); }
    ExifTag::ExposureIndex(v) => { lemma_len_uR64(v, e); }
    ExifTag::SensingMethod(v) => { lemma_len_u16(v, e); }
    ExifTag::FileSource(v) => { lemma_len_u8(v, e); }
    ExifTag::SceneType(v) => { lemma_len_u8(v, e); }
    ExifTag::CFAPattern(v) => { lemma_len_u8(v, e); }
    ExifTag::CustomRendered(v) => { lemma_len_u16(v, e); }
    ExifTag::ExposureMode(v) => { lemma_len_u16(v, e); }
    ExifTag::WhiteBalance(v) => { lemma_len_u16(v, e); }
    ExifTag::DigitalZoomRatio(v) => { lemma_len_uR64(v, e); }
    ExifTag::FocalLengthIn35mmFormat(v) => { lemma_len_u16(v, e); }
    ExifTag::SceneCaptureType(v) => { lemma_len_u16(v, e); }
    ExifTag::GainControl(v) => { lemma_len_u16(v, e); }
    ExifTag::Contrast(v) => { lemma_len_u16(v, e); }
    ExifTag::Saturation(v) => { lemma_len_u16(v, e); }
    ExifTag::Sharpness(v) => { lemma_len_u16(v, e); }
    ExifTag::DeviceSettingDescription(v) => { lemma_len_u8(v, e); }
    ExifTag::SubjectDistanceRange(v) => { lemma_len_u16(v, e); }
    ExifTag::ImageUniqueID(v) => {  }
    ExifTag::OwnerName(v) => {  }
    ExifTag::SerialNumber(v) => {  }
    ExifTag::LensInfo(v) => { lemma_len_uR64(v, e); }
    ExifTag::LensMake(v) => {  }
    ExifTag::LensModel(v) => {  }
    ExifTag::LensSerialNumber(v) => {  }
    ExifTag::CompositeImage(v) => { lemma_len_u16(v, e); }
    ExifTag::CompositeImageCount(v) => { lemma_len_u16(v, e); }
    ExifTag::CompositeImageExposureTimes(v) => { lemma_len_u8(v, e); }
    ExifTag::Gamma(v) => { lemma_len_uR64(v, e); }
    ExifTag::StripOffsets(_, _) => {}
    ExifTag::StripByteCounts(v) => { lemma_len_u32(v, e); }
    ExifTag::ThumbnailOffset(_, _) => {}
    ExifTag::ThumbnailLength(v) => { lemma_len_u32(v, e); }
    ExifTag::UnknownINT8U(v, _, _) => { lemma_len_u8(v, e); }
    ExifTag::UnknownSTRING(v, _, _) => {  }
    ExifTag::UnknownINT16U(v, _, _) => { lemma_len_u16(v, e); }
    ExifTag::UnknownINT32U(v, _, _) => { lemma_len_u32(v, e); }
    ExifTag::UnknownRATIONAL64U(v, _, _) => { lemma_len_uR64(v, e); }
    ExifTag::UnknownINT8S(v, _, _) => { lemma_len_i8(v, e); }
    ExifTag::UnknownUNDEF(v, _, _) => { lemma_len_u8(v, e); }
    ExifTag::UnknownINT16S(v, _, _) => { lemma_len_i16(v, e); }
    ExifTag::UnknownINT32S(v, _, _) => { lemma_len_i32(v, e); }
    ExifTag::UnknownRATIONAL64S(v, _, _) => { lemma_len_iR64(v, e); }
    ExifTag::UnknownFLOAT(v, _, _) => { lemma_len_f32(v, e); }
    ExifTag::UnknownDOUBLE(v, _, _) => { lemma_len_f64(v, e); }
} }
} // verus!
