verus! {
pub open spec fn ord1(x: u8, e: Endian) -> Seq<u8> { match e { Endian::Little => seq![x as u8], Endian::Big => seq![x as u8] } }
pub proof fn lemma_ord1(x: u8, y: u8, e: Endian) requires ord1(x, e) == ord1(y, e) ensures x == y {
    let (a, b) = (ord1(x, e), ord1(y, e)); assert(a[0] == b[0]);
    assert(x as u8 == y as u8 ==> x == y) by (bit_vector); }
pub open spec fn ord2(x: u16, e: Endian) -> Seq<u8> { match e { Endian::Little => seq![x as u8, (x >> 8) as u8], Endian::Big => seq![(x >> 8) as u8, x as u8] } }
pub proof fn lemma_ord2(x: u16, y: u16, e: Endian) requires ord2(x, e) == ord2(y, e) ensures x == y {
    let (a, b) = (ord2(x, e), ord2(y, e)); assert(a[0] == b[0]); assert(a[1] == b[1]);
    assert(x as u8 == y as u8 && (x >> 8) as u8 == (y >> 8) as u8 ==> x == y) by (bit_vector); }
pub open spec fn ord4(x: u32, e: Endian) -> Seq<u8> { match e { Endian::Little => seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8], Endian::Big => seq![(x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] } }
pub proof fn lemma_ord4(x: u32, y: u32, e: Endian) requires ord4(x, e) == ord4(y, e) ensures x == y {
    let (a, b) = (ord4(x, e), ord4(y, e)); assert(a[0] == b[0]); assert(a[1] == b[1]); assert(a[2] == b[2]); assert(a[3] == b[3]);
    assert(x as u8 == y as u8 && (x >> 8) as u8 == (y >> 8) as u8 && (x >> 16) as u8 == (y >> 16) as u8 && (x >> 24) as u8 == (y >> 24) as u8 ==> x == y) by (bit_vector); }
pub open spec fn ord8(x: u64, e: Endian) -> Seq<u8> { match e { Endian::Little => seq![x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8, (x >> 32) as u8, (x >> 40) as u8, (x >> 48) as u8, (x >> 56) as u8], Endian::Big => seq![(x >> 56) as u8, (x >> 48) as u8, (x >> 40) as u8, (x >> 32) as u8, (x >> 24) as u8, (x >> 16) as u8, (x >> 8) as u8, x as u8] } }
pub proof fn lemma_ord8(x: u64, y: u64, e: Endian) requires ord8(x, e) == ord8(y, e) ensures x == y {
    let (a, b) = (ord8(x, e), ord8(y, e)); assert(a[0] == b[0]); assert(a[1] == b[1]); assert(a[2] == b[2]); assert(a[3] == b[3]); assert(a[4] == b[4]); assert(a[5] == b[5]); assert(a[6] == b[6]); assert(a[7] == b[7]);
    assert(x as u8 == y as u8 && (x >> 8) as u8 == (y >> 8) as u8 && (x >> 16) as u8 == (y >> 16) as u8 && (x >> 24) as u8 == (y >> 24) as u8 && (x >> 32) as u8 == (y >> 32) as u8 && (x >> 40) as u8 == (y >> 40) as u8 && (x >> 48) as u8 == (y >> 48) as u8 && (x >> 56) as u8 == (y >> 56) as u8 ==> x == y) by (bit_vector); }
pub uninterp spec fn f32_bits(x: f32) -> u32;
pub uninterp spec fn f64_bits(x: f64) -> u64;
/// the byte-order conversions of std's number types (assumed)
pub trait VxBytes<const N: usize>: Sized {
    spec fn ord(&self, e: Endian) -> Seq<u8>;
    fn vx_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == self.ord(Endian::Little);
    fn vx_to_be_bytes(&self) -> (r: [u8; N]) ensures r@ == self.ord(Endian::Big);
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r.ord(Endian::Little) == b@;
    fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures r.ord(Endian::Big) == b@;
}
impl VxBytes<1> for u8 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord1(*self, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 1]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 1]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 1]) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 1]) -> (r: u8) { unimplemented!() }
}
impl VxBytes<1> for i8 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord1(*self as u8, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 1]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 1]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 1]) -> (r: i8) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 1]) -> (r: i8) { unimplemented!() }
}
impl VxBytes<2> for u16 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord2(*self, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> (r: u16) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: u16) { unimplemented!() }
}
impl VxBytes<2> for i16 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord2(*self as u16, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 2]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 2]) -> (r: i16) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 2]) -> (r: i16) { unimplemented!() }
}
impl VxBytes<4> for u32 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord4(*self, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: u32) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: u32) { unimplemented!() }
}
impl VxBytes<4> for i32 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord4(*self as u32, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: i32) { unimplemented!() }
}
impl VxBytes<8> for u64 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord8(*self, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: u64) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: u64) { unimplemented!() }
}
impl VxBytes<8> for i64 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord8(*self as u64, e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: i64) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: i64) { unimplemented!() }
}
impl VxBytes<4> for f32 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord4(f32_bits(*self), e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: f32) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: f32) { unimplemented!() }
}
impl VxBytes<8> for f64 {
    open spec fn ord(&self, e: Endian) -> Seq<u8> { ord8(f64_bits(*self), e) }
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 8]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 8]) -> (r: f64) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 8]) -> (r: f64) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_arr<const N: usize>(b: &[u8]) -> (r: Result<[u8; N], io::Error>) ensures r is Ok <==> b@.len() == N, r matches Ok(x) ==> x@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub trait U8conversion<T>: Sized {
    spec fn enc(&self, e: Endian) -> Seq<u8>;
    /// the byte strings that hold a value
    spec fn good(b: Seq<u8>) -> bool;
    /// v is what these bytes say
    spec fn says(b: Seq<u8>, e: Endian, v: T) -> bool;
    fn to_u8_vec(&self, endian: &Endian) -> (r: Vec<u8>) ensures r@ == self.enc(*endian);
//# fn @u8conversion from_u8_vec in trait U8conversion -> r
//# spec
    requires Self::good(u8_vec@)
    ensures Self::says(u8_vec@, *endian, r)
//# end
    fn from_u8_vec_res(u8_vec: &[u8], endian: &Endian) -> (r: Result<T, io::Error>)
        ensures r is Ok <==> Self::good(u8_vec@), r matches Ok(v) ==> Self::says(u8_vec@, *endian, v);
}
/// one after the other
pub open spec fn flat<T: U8conversion<T>>(s: Seq<T>, e: Endian) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last(), e) + s.last().enc(e) } }
pub open spec fn each<T: U8conversion<T>>(b: Seq<u8>, e: Endian, v: Seq<T>, n: int) -> bool {
    &&& b.len() == n * v.len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).enc(e) == b.subrange(i * n, i * n + n)
}
/// decoding what was encoded: every component has the encoding of the one it came from
pub proof fn lemma_flat<T: U8conversion<T>>(v: Seq<T>, e: Endian, n: int)
    requires n > 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).enc(e).len() == n
    ensures flat(v, e).len() == n * v.len(), each(flat(v, e), e, v, n)
    decreases v.len()
{
    if v.len() == 0 { assert(n * v.len() == 0) by (nonlinear_arith) requires v.len() == 0; } else {
        let d = v.drop_last(); let l = d.len() as int;
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).enc(e).len() == n by { assert(v[i] == d[i]); }
        lemma_flat(d, e, n);
        assert(v[l] == v.last());
        assert(n * v.len() == n * l + n) by (nonlinear_arith) requires v.len() == l + 1;
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).enc(e) == flat(v, e).subrange(i * n, i * n + n) by {
            if i < l { assert(d[i] == v[i]);
                assert(0 <= i * n && i * n + n <= n * l) by (nonlinear_arith) requires 0 <= i < l, n > 0;
                assert(flat(v, e).subrange(i * n, i * n + n) =~= flat(d, e).subrange(i * n, i * n + n)); }
            else { assert(i * n == n * l) by (nonlinear_arith) requires i == l; assert(flat(v, e).subrange(i * n, i * n + n) =~= v.last().enc(e)); }
        }
    }
}
// ---- P10: decode(encode(x)) == x, for lists of any length
pub proof fn lemma_round<T: U8conversion<T>>(v: Seq<T>, w: Seq<T>, e: Endian, n: int)
    requires n > 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).enc(e).len() == n, each(flat(v, e), e, w, n)
    ensures w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).enc(e) == v[i].enc(e)
{
    lemma_flat(v, e, n);
    assert(v.len() == w.len()) by (nonlinear_arith) requires n * v.len() == n * w.len(), n > 0;
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] w[i]).enc(e) == v[i].enc(e) by { assert(v[i].enc(e) == flat(v, e).subrange(i * n, i * n + n)); }
}
impl U8conversion<u8> for u8 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord1(*self, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 1 }
    open spec fn says(b: Seq<u8>, e: Endian, v: u8) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<u8> for u8 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<u8> for u8 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 1) =~= u8_vec@); }
//# end
}
pub proof fn lemma_u8(x: u8, y: u8, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord1(x, y, e); }
impl U8conversion<i8> for i8 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord1(*self as u8, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 1 }
    open spec fn says(b: Seq<u8>, e: Endian, v: i8) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<i8> for i8 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<i8> for i8 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 1) =~= u8_vec@); }
//# end
}
pub proof fn lemma_i8(x: i8, y: i8, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord1(x as u8, y as u8, e); assert(x as u8 == y as u8 ==> x == y) by (bit_vector); }
impl U8conversion<u16> for u16 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord2(*self, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 2 }
    open spec fn says(b: Seq<u8>, e: Endian, v: u16) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<u16> for u16 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<u16> for u16 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 2) =~= u8_vec@); }
//# end
}
pub proof fn lemma_u16(x: u16, y: u16, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord2(x, y, e); }
impl U8conversion<i16> for i16 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord2(*self as u16, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 2 }
    open spec fn says(b: Seq<u8>, e: Endian, v: i16) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<i16> for i16 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<i16> for i16 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 2) =~= u8_vec@); }
//# end
}
pub proof fn lemma_i16(x: i16, y: i16, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord2(x as u16, y as u16, e); assert(x as u16 == y as u16 ==> x == y) by (bit_vector); }
impl U8conversion<u32> for u32 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord4(*self, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 4 }
    open spec fn says(b: Seq<u8>, e: Endian, v: u32) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<u32> for u32 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<u32> for u32 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 4) =~= u8_vec@); }
//# end
}
pub proof fn lemma_u32(x: u32, y: u32, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord4(x, y, e); }
impl U8conversion<i32> for i32 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord4(*self as u32, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 4 }
    open spec fn says(b: Seq<u8>, e: Endian, v: i32) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<i32> for i32 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<i32> for i32 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 4) =~= u8_vec@); }
//# end
}
pub proof fn lemma_i32(x: i32, y: i32, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord4(x as u32, y as u32, e); assert(x as u32 == y as u32 ==> x == y) by (bit_vector); }
impl U8conversion<u64> for u64 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord8(*self, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 8 }
    open spec fn says(b: Seq<u8>, e: Endian, v: u64) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<u64> for u64 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<u64> for u64 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 8) =~= u8_vec@); }
//# end
}
pub proof fn lemma_u64(x: u64, y: u64, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord8(x, y, e); }
impl U8conversion<i64> for i64 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord8(*self as u64, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 8 }
    open spec fn says(b: Seq<u8>, e: Endian, v: i64) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<i64> for i64 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<i64> for i64 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 8) =~= u8_vec@); }
//# end
}
pub proof fn lemma_i64(x: i64, y: i64, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y
{ lemma_ord8(x as u64, y as u64, e); assert(x as u64 == y as u64 ==> x == y) by (bit_vector); }
impl U8conversion<f32> for f32 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord4(f32_bits(*self), e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 4 }
    open spec fn says(b: Seq<u8>, e: Endian, v: f32) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<f32> for f32 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<f32> for f32 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 4) =~= u8_vec@); }
//# end
}
pub proof fn lemma_f32(x: f32, y: f32, e: Endian) requires x.enc(e) == y.enc(e) ensures f32_bits(x) == f32_bits(y)
{ lemma_ord4(f32_bits(x), f32_bits(y), e); }
impl U8conversion<f64> for f64 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { ord8(f64_bits(*self), e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 8 }
    open spec fn says(b: Seq<u8>, e: Endian, v: f64) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<f64> for f64 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<f64> for f64 -> r
//# before /let res/
    proof { assert(u8_vec@.subrange(0, 8) =~= u8_vec@); }
//# end
}
pub proof fn lemma_f64(x: f64, y: f64, e: Endian) requires x.enc(e) == y.enc(e) ensures f64_bits(x) == f64_bits(y)
{ lemma_ord8(f64_bits(x), f64_bits(y), e); }
impl U8conversion<uR64> for uR64 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { self.nominator.enc(e) + self.denominator.enc(e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 8 }
    open spec fn says(b: Seq<u8>, e: Endian, v: uR64) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<uR64> for uR64 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<uR64> for uR64 -> r
//# before /Ok\(uR64 /
    proof { assert(nominator.enc(*endian) + denominator.enc(*endian) =~= u8_vec@); }
//# end
}
pub proof fn lemma_uR64(x: uR64, y: uR64, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y {
    assert(x.enc(e).subrange(0, 4) =~= x.nominator.enc(e)); assert(y.enc(e).subrange(0, 4) =~= y.nominator.enc(e));
    assert(x.enc(e).subrange(4, 8) =~= x.denominator.enc(e)); assert(y.enc(e).subrange(4, 8) =~= y.denominator.enc(e));
    lemma_u32(x.nominator, y.nominator, e); lemma_u32(x.denominator, y.denominator, e);
}
impl U8conversion<iR64> for iR64 {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { self.nominator.enc(e) + self.denominator.enc(e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() == 8 }
    open spec fn says(b: Seq<u8>, e: Endian, v: iR64) -> bool { v.enc(e) == b }
//# fn @u8conversion to_u8_vec in U8conversion<iR64> for iR64 -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<iR64> for iR64 -> r
//# before /Ok\(iR64 /
    proof { assert(nominator.enc(*endian) + denominator.enc(*endian) =~= u8_vec@); }
//# end
}
pub proof fn lemma_iR64(x: iR64, y: iR64, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y {
    assert(x.enc(e).subrange(0, 4) =~= x.nominator.enc(e)); assert(y.enc(e).subrange(0, 4) =~= y.nominator.enc(e));
    assert(x.enc(e).subrange(4, 8) =~= x.denominator.enc(e)); assert(y.enc(e).subrange(4, 8) =~= y.denominator.enc(e));
    lemma_i32(x.nominator, y.nominator, e); lemma_i32(x.denominator, y.denominator, e);
}
impl U8conversion<Vec<u8>> for Vec<u8> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<u8>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 1 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<u8>) -> bool { each::<u8>(b, e, v@, 1) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<u8>> for Vec<u8> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<u8>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<u8>> for Vec<u8> -> r
//# loop 0
    invariant u8_vec@.len() % 1 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 1, k * 1 + 1)
//# end
}
pub proof fn lemma_len_u8(v: Vec<u8>, e: Endian) ensures Vec::<u8>::good(v.enc(e)), v.enc(e).len() == 1 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 1 by {}
    lemma_flat::<u8>(v@, e, 1);
}
pub proof fn lemma_vec_u8(v: Vec<u8>, w: Vec<u8>, e: Endian)
    requires Vec::<u8>::says(v.enc(e), e, w)
    ensures Vec::<u8>::good(v.enc(e)), v.enc(e).len() == 1 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 1 by {}
    lemma_flat::<u8>(v@, e, 1); lemma_round::<u8>(v@, w@, e, 1);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_u8(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<i8>> for Vec<i8> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<i8>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 1 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<i8>) -> bool { each::<i8>(b, e, v@, 1) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<i8>> for Vec<i8> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<i8>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<i8>> for Vec<i8> -> r
//# loop 0
    invariant u8_vec@.len() % 1 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 1, k * 1 + 1)
//# end
}
pub proof fn lemma_len_i8(v: Vec<i8>, e: Endian) ensures Vec::<i8>::good(v.enc(e)), v.enc(e).len() == 1 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 1 by {}
    lemma_flat::<i8>(v@, e, 1);
}
pub proof fn lemma_vec_i8(v: Vec<i8>, w: Vec<i8>, e: Endian)
    requires Vec::<i8>::says(v.enc(e), e, w)
    ensures Vec::<i8>::good(v.enc(e)), v.enc(e).len() == 1 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 1 by {}
    lemma_flat::<i8>(v@, e, 1); lemma_round::<i8>(v@, w@, e, 1);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_i8(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<u16>> for Vec<u16> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<u16>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 2 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<u16>) -> bool { each::<u16>(b, e, v@, 2) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<u16>> for Vec<u16> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<u16>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<u16>> for Vec<u16> -> r
//# loop 0
    invariant u8_vec@.len() % 2 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 2, k * 2 + 2)
//# end
}
pub proof fn lemma_len_u16(v: Vec<u16>, e: Endian) ensures Vec::<u16>::good(v.enc(e)), v.enc(e).len() == 2 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 2 by {}
    lemma_flat::<u16>(v@, e, 2);
}
pub proof fn lemma_vec_u16(v: Vec<u16>, w: Vec<u16>, e: Endian)
    requires Vec::<u16>::says(v.enc(e), e, w)
    ensures Vec::<u16>::good(v.enc(e)), v.enc(e).len() == 2 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 2 by {}
    lemma_flat::<u16>(v@, e, 2); lemma_round::<u16>(v@, w@, e, 2);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_u16(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<i16>> for Vec<i16> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<i16>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 2 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<i16>) -> bool { each::<i16>(b, e, v@, 2) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<i16>> for Vec<i16> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<i16>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<i16>> for Vec<i16> -> r
//# loop 0
    invariant u8_vec@.len() % 2 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 2, k * 2 + 2)
//# end
}
pub proof fn lemma_len_i16(v: Vec<i16>, e: Endian) ensures Vec::<i16>::good(v.enc(e)), v.enc(e).len() == 2 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 2 by {}
    lemma_flat::<i16>(v@, e, 2);
}
pub proof fn lemma_vec_i16(v: Vec<i16>, w: Vec<i16>, e: Endian)
    requires Vec::<i16>::says(v.enc(e), e, w)
    ensures Vec::<i16>::good(v.enc(e)), v.enc(e).len() == 2 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 2 by {}
    lemma_flat::<i16>(v@, e, 2); lemma_round::<i16>(v@, w@, e, 2);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_i16(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<u32>> for Vec<u32> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<u32>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 4 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<u32>) -> bool { each::<u32>(b, e, v@, 4) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<u32>> for Vec<u32> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<u32>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<u32>> for Vec<u32> -> r
//# loop 0
    invariant u8_vec@.len() % 4 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 4, k * 4 + 4)
//# end
}
pub proof fn lemma_len_u32(v: Vec<u32>, e: Endian) ensures Vec::<u32>::good(v.enc(e)), v.enc(e).len() == 4 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 4 by {}
    lemma_flat::<u32>(v@, e, 4);
}
pub proof fn lemma_vec_u32(v: Vec<u32>, w: Vec<u32>, e: Endian)
    requires Vec::<u32>::says(v.enc(e), e, w)
    ensures Vec::<u32>::good(v.enc(e)), v.enc(e).len() == 4 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 4 by {}
    lemma_flat::<u32>(v@, e, 4); lemma_round::<u32>(v@, w@, e, 4);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_u32(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<i32>> for Vec<i32> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<i32>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 4 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<i32>) -> bool { each::<i32>(b, e, v@, 4) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<i32>> for Vec<i32> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<i32>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<i32>> for Vec<i32> -> r
//# loop 0
    invariant u8_vec@.len() % 4 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 4, k * 4 + 4)
//# end
}
pub proof fn lemma_len_i32(v: Vec<i32>, e: Endian) ensures Vec::<i32>::good(v.enc(e)), v.enc(e).len() == 4 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 4 by {}
    lemma_flat::<i32>(v@, e, 4);
}
pub proof fn lemma_vec_i32(v: Vec<i32>, w: Vec<i32>, e: Endian)
    requires Vec::<i32>::says(v.enc(e), e, w)
    ensures Vec::<i32>::good(v.enc(e)), v.enc(e).len() == 4 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 4 by {}
    lemma_flat::<i32>(v@, e, 4); lemma_round::<i32>(v@, w@, e, 4);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_i32(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<u64>> for Vec<u64> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<u64>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 8 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<u64>) -> bool { each::<u64>(b, e, v@, 8) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<u64>> for Vec<u64> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<u64>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<u64>> for Vec<u64> -> r
//# loop 0
    invariant u8_vec@.len() % 8 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 8, k * 8 + 8)
//# end
}
pub proof fn lemma_len_u64(v: Vec<u64>, e: Endian) ensures Vec::<u64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<u64>(v@, e, 8);
}
pub proof fn lemma_vec_u64(v: Vec<u64>, w: Vec<u64>, e: Endian)
    requires Vec::<u64>::says(v.enc(e), e, w)
    ensures Vec::<u64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<u64>(v@, e, 8); lemma_round::<u64>(v@, w@, e, 8);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_u64(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<i64>> for Vec<i64> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<i64>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 8 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<i64>) -> bool { each::<i64>(b, e, v@, 8) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<i64>> for Vec<i64> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<i64>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<i64>> for Vec<i64> -> r
//# loop 0
    invariant u8_vec@.len() % 8 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 8, k * 8 + 8)
//# end
}
pub proof fn lemma_len_i64(v: Vec<i64>, e: Endian) ensures Vec::<i64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<i64>(v@, e, 8);
}
pub proof fn lemma_vec_i64(v: Vec<i64>, w: Vec<i64>, e: Endian)
    requires Vec::<i64>::says(v.enc(e), e, w)
    ensures Vec::<i64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<i64>(v@, e, 8); lemma_round::<i64>(v@, w@, e, 8);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_i64(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<f32>> for Vec<f32> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<f32>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 4 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<f32>) -> bool { each::<f32>(b, e, v@, 4) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<f32>> for Vec<f32> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<f32>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<f32>> for Vec<f32> -> r
//# loop 0
    invariant u8_vec@.len() % 4 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 4, k * 4 + 4)
//# end
}
pub proof fn lemma_len_f32(v: Vec<f32>, e: Endian) ensures Vec::<f32>::good(v.enc(e)), v.enc(e).len() == 4 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 4 by {}
    lemma_flat::<f32>(v@, e, 4);
}
pub proof fn lemma_vec_f32(v: Vec<f32>, w: Vec<f32>, e: Endian)
    requires Vec::<f32>::says(v.enc(e), e, w)
    ensures Vec::<f32>::good(v.enc(e)), v.enc(e).len() == 4 * v@.len(), v@.len() == w@.len(), forall|i: int| 0 <= i < v@.len() ==> f32_bits(#[trigger] w@[i]) == f32_bits(v@[i])
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 4 by {}
    lemma_flat::<f32>(v@, e, 4); lemma_round::<f32>(v@, w@, e, 4);
    assert forall|i: int| 0 <= i < v@.len() implies f32_bits(#[trigger] w@[i]) == f32_bits(v@[i]) by { lemma_f32(w@[i], v@[i], e); }
    
}
impl U8conversion<Vec<f64>> for Vec<f64> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<f64>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 8 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<f64>) -> bool { each::<f64>(b, e, v@, 8) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<f64>> for Vec<f64> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<f64>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<f64>> for Vec<f64> -> r
//# loop 0
    invariant u8_vec@.len() % 8 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 8, k * 8 + 8)
//# end
}
pub proof fn lemma_len_f64(v: Vec<f64>, e: Endian) ensures Vec::<f64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<f64>(v@, e, 8);
}
pub proof fn lemma_vec_f64(v: Vec<f64>, w: Vec<f64>, e: Endian)
    requires Vec::<f64>::says(v.enc(e), e, w)
    ensures Vec::<f64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len(), v@.len() == w@.len(), forall|i: int| 0 <= i < v@.len() ==> f64_bits(#[trigger] w@[i]) == f64_bits(v@[i])
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<f64>(v@, e, 8); lemma_round::<f64>(v@, w@, e, 8);
    assert forall|i: int| 0 <= i < v@.len() implies f64_bits(#[trigger] w@[i]) == f64_bits(v@[i]) by { lemma_f64(w@[i], v@[i], e); }
    
}
impl U8conversion<Vec<uR64>> for Vec<uR64> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<uR64>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 8 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<uR64>) -> bool { each::<uR64>(b, e, v@, 8) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<uR64>> for Vec<uR64> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<uR64>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<uR64>> for Vec<uR64> -> r
//# loop 0
    invariant u8_vec@.len() % 8 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 8, k * 8 + 8)
//# end
}
pub proof fn lemma_len_uR64(v: Vec<uR64>, e: Endian) ensures Vec::<uR64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<uR64>(v@, e, 8);
}
pub proof fn lemma_vec_uR64(v: Vec<uR64>, w: Vec<uR64>, e: Endian)
    requires Vec::<uR64>::says(v.enc(e), e, w)
    ensures Vec::<uR64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<uR64>(v@, e, 8); lemma_round::<uR64>(v@, w@, e, 8);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_uR64(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
impl U8conversion<Vec<iR64>> for Vec<iR64> {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { flat::<iR64>(self@, e) }
    open spec fn good(b: Seq<u8>) -> bool { b.len() % 8 == 0 }
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<iR64>) -> bool { each::<iR64>(b, e, v@, 8) }
//# fn @u8conversion to_u8_vec in U8conversion<Vec<iR64>> for Vec<iR64> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<iR64>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof { let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }
//# loop 0 after
    proof { assert(self@.take(vx_i0 as int) =~= self@); }
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<iR64>> for Vec<iR64> -> r
//# loop 0
    invariant u8_vec@.len() % 8 == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * 8, k * 8 + 8)
//# end
}
pub proof fn lemma_len_iR64(v: Vec<iR64>, e: Endian) ensures Vec::<iR64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len()
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<iR64>(v@, e, 8);
}
pub proof fn lemma_vec_iR64(v: Vec<iR64>, w: Vec<iR64>, e: Endian)
    requires Vec::<iR64>::says(v.enc(e), e, w)
    ensures Vec::<iR64>::good(v.enc(e)), v.enc(e).len() == 8 * v@.len(), v@ == w@
{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == 8 by {}
    lemma_flat::<iR64>(v@, e, 8); lemma_round::<iR64>(v@, w@, e, 8);
    assert forall|i: int| 0 <= i < v@.len() implies #[trigger] w@[i] == v@[i] by { lemma_iR64(w@[i], v@[i], e); }
    assert(v@ =~= w@);
}
// ---- text
pub open spec fn trim0(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == 0 { trim0(s.drop_last()) } else { s } }
/// the text of the non-zero bytes, each one character (U+0001..U+00FF) in UTF-8
pub open spec fn latin1(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { latin1(s.drop_last()) + (if s.last() == 0 { Seq::empty() } else { char8(s.last()) }) }
}
pub open spec fn char8(b: u8) -> Seq<u8> { if b < 0x80 { seq![b] } else { seq![(0xc0 + b / 64) as u8, (0x80 + b % 64) as u8] } }
#[verifier::external_body]
pub proof fn axiom_utf8_nul(s: Seq<u8>) requires utf8(s) ensures utf8(s.push(0)) {}
impl VxString {
    #[verifier::external_body]
    pub fn vx_trim_nul(&self) -> (r: VxString) ensures r.b@ == trim0(self.b@) { unimplemented!() }
    pub fn new() -> (r: VxString) ensures r.b@ == Seq::<u8>::empty() { VxString { b: Vec::new() } }
    /// push(byte as char)
    #[verifier::external_body]
    pub fn vx_push_byte(&mut self, b: u8) ensures final(self).b@ == old(self).b@ + char8(b) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_owned(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
impl U8conversion<VxString> for VxString {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { self.b@.push(0) }
    open spec fn good(b: Seq<u8>) -> bool { true }
    open spec fn says(b: Seq<u8>, e: Endian, v: VxString) -> bool { if utf8(b) { v.b@ == trim0(b) } else { v.b@ == latin1(b) } }
//# fn @u8conversion to_u8_vec in U8conversion<String> for String -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<String> for String -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == u8_vec@, result.b@ == latin1(u8_vec@.take(vx_i0 as int))
    decreases vx_e0@.len() - vx_i0
//# loop 0 end
    proof { let s = u8_vec@.take(vx_i0 as int); assert(s.drop_last() =~= u8_vec@.take(vx_i0 - 1)); assert(s.last() == *byte); }
//# loop 0 after
    proof { assert(u8_vec@.take(vx_i0 as int) =~= u8_vec@); }
//# end
}
pub proof fn lemma_string(v: VxString, w: VxString, e: Endian)
    requires utf8(v.b@), v.b@.len() > 0 ==> v.b@.last() != 0, VxString::says(v.enc(e), e, w)
    ensures w.b@ == v.b@
{ reveal_with_fuel(trim0, 3); axiom_utf8_nul(v.b@); assert(v.b@.push(0).drop_last() =~= v.b@); }
} // verus!
