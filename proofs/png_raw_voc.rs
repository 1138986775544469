// ---- the raw profile text ------------------------------------------------------------------------------------------------
//# item src/general_file_io.rs const EXIF_HEADER
//# item src/general_file_io.rs const LITTLE_ENDIAN_INFO
//# item src/general_file_io.rs const BIG_ENDIAN_INFO
//# item src/general_file_io.rs const NEWLINE
//# item src/general_file_io.rs const SPACE
pub open spec fn p10(e: int) -> int decreases e { if e <= 0 { 1 } else { 10 * p10(e - 1) } }
#[verifier::external_body]
pub fn vx_pow10(e: u32) -> (r: u64) requires e <= 19, ensures r == p10(e as int) { unimplemented!() }
/// a hexadecimal digit in either case
pub open spec fn hexval(b: u8) -> Option<int> {
    if 48 <= b <= 57 { Some(b - 48) } else if 97 <= b <= 102 { Some(b - 87) } else if 65 <= b <= 70 { Some(b - 55) } else { None }
}
/// white space among the characters U+0000..U+00FF
pub open spec fn white(b: u8) -> bool { 9 <= b <= 13 || b == 32 || b == 0x85 || b == 0xa0 }
/// u8::from_str_radix(text of the two characters, trimmed, 16)
pub open spec fn hex_pair(a: u8, b: u8) -> Option<u8> {
    if white(a) && white(b) { None }
    else if white(a) { match hexval(b) { Some(x) => Some(x as u8), None => None } }
    else if white(b) || a == 43 { match hexval(if white(b) { a } else { b }) { Some(x) => Some(x as u8), None => None } }
    else { match (hexval(a), hexval(b)) { (Some(x), Some(y)) => Some((16 * x + y) as u8), _ => None } }
}
/// assumed std behaviour; compared with std for all 65536 pairs by the executable contracts of P04
#[verifier::external_body]
pub fn vx_hex_pair(a: u8, b: u8) -> (r: Result<u8, ()>) ensures r is Ok <==> hex_pair(a, b) is Some, r matches Ok(v) ==> v == hex_pair(a, b)->Some_0 { unimplemented!() }
/// assumed std behaviour: parsing a one-character text as a number
#[verifier::external_body]
pub fn vx_digit(b: u8) -> (r: Result<u64, ()>) ensures r is Ok <==> 48 <= b <= 57, r matches Ok(v) ==> v == b - 48 { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_deque(d: VecDeque<u8>) -> (r: Vec<u8>) ensures r@ == d@ { unimplemented!() }
/// decimal text
pub uninterp spec fn dec(n: int) -> Seq<u8>;
pub open spec fn value(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { value(s.drop_last()) * 10 + (s.last() - 48) } }
#[verifier::external_body]
pub proof fn axiom_dec(n: int)
    requires n >= 0,
    ensures value(dec(n)) == n, dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57, dec(n).len() > 1 ==> dec(n)[0] != 48 {}
pub trait VxToString { fn vx_to_string(&self) -> (r: VxString); }
impl VxToString for usize { #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) ensures r.b@ == dec(*self as int) { unimplemented!() } }
impl VxToString for u32 { #[verifier::external_body] fn vx_to_string(&self) -> (r: VxString) ensures r.b@ == dec(*self as int) { unimplemented!() } }

pub struct St { pub out: Seq<u8>, pub pend: Option<u8> }
pub open spec fn step(st: St, b: u8) -> St {
    if b == 10 { st } else { match st.pend {
        None => St { out: st.out, pend: Some(b) },
        Some(a) => St { out: match hex_pair(a, b) { Some(v) => st.out.push(v), None => st.out }, pend: None },
    } }
}
pub open spec fn run(t: Seq<u8>, st: St) -> St decreases t.len() { if t.len() == 0 { st } else { run(t.skip(1), step(st, t[0])) } }
pub open spec fn init() -> St { St { out: Seq::empty(), pend: None } }
pub open spec fn header_at(a: Seq<u8>, k: int) -> bool {
    EXIF_HEADER@.is_prefix_of(a.skip(k)) || LITTLE_ENDIAN_INFO@.is_prefix_of(a.skip(k)) || BIG_ENDIAN_INFO@.is_prefix_of(a.skip(k))
}
pub open spec fn header_from(a: Seq<u8>, k: int) -> Option<int> decreases a.len() + 1 - k {
    if k < 0 || k > a.len() { None } else if header_at(a, k) { Some(k) } else { header_from(a, k + 1) }
}
/// the number whose decimal digits are the nibbles of the last i bytes
pub open spec fn nibbles(s: Seq<u8>, i: int) -> Option<int> decreases i {
    if i <= 0 { Some(0) } else {
        let b = s[s.len() - i];
        match nibbles(s, i - 1) { None => None, Some(r) => if b / 16 < 10 && b % 16 < 10 { Some(r + (b / 16) * 10 * p10(2 * (i - 1)) + (b % 16) * p10(2 * (i - 1))) } else { None } }
    }
}
pub open spec fn raw_decoded(t: Seq<u8>) -> Option<Seq<u8>> {
    let st = run(t, init());
    if st.pend is Some { None } else { match header_from(st.out, 0) {
        None => None,
        Some(k) => if k > 0 && nibbles(st.out.take(k), if k < 4 { k } else { 4 }) == Some(st.out.len() - k) { Some(st.out.skip(k)) } else { None },
    } }
}
pub open spec fn hexd(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hex(x: Seq<u8>) -> Seq<u8> { Seq::new(2 * x.len(), |i: int| if i % 2 == 0 { hexd(x[i / 2] as int / 16) } else { hexd(x[i / 2] as int % 16) }) }
pub open spec fn size_field(n: int) -> Seq<u8> { Seq::new((8 - dec(n).len()) as nat, |i: int| 0x20u8) + dec(n) }
pub open spec fn raw_encoded(x: Seq<u8>) -> Seq<u8> {
    seq![10u8, 0x65, 0x78, 0x69, 0x66, 10] + size_field((x.len() + 7) as int) + seq![10u8] + hex(EXIF_HEADER@) + hex(x) + seq![0x30u8, 0x30, 10]
}
