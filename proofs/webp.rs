//# include prelude.rs
//# rule no-op casts /(\w+)\s+as (String|Vec<u8>)(?=\s*[,)])/ => /\1/
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule &str constants as byte strings /\b(VP8X_HEADER|EXIF_CHUNK_HEADER)\.to_lowercase\(\)/ => /vx_text(\1).to_lowercase()/
//# rule slice range, both ends included /\[(\d+)\.\.=(\d+)\]/ => /[\1..\2 + 1]/
//# rule slice.get(range) -> contract-bearing /\.get\((\d+)\.\.(\d+)\)/ => /.vx_get(\1, \2)/
//# rule slice != array constant -> contract-bearing comparison /(bytes_to_check|buffer_to_check)\s*!=\s*(\w+)/ => /!vx_bytes_eq(&\1, &\2)/
//# rule matches! on a literal array -> contract-bearing comparison /matches!\((\w+)\.as_slice\(\), &(\[[^\]]*\])\)/ => /vx_bytes_eq(&\1, &\2)/
//# rule for over a small array -> counted loop /for (\w+) in &(pre_exif_chunks)((?:\s|\x01\d+\x02)*)\{/ => /for vx_k in 0..\2.len()\3{ let \1 = &\2[vx_k];/
//# rule for over the first bytes -> contract-bearing /for byte in\s+(\w+)\.iter\(\)\.take\((\d)\) \{ (\w+)\.push\(\*byte\); \}/ => /vx_push_take(&mut \3, &\1, \2);/
//# rule byte of a cursor's vector /cursor\.get_ref\(\)\[/ => /vx_ref(cursor.get_ref())[/
//# rule a cursor's vector, explicitly reborrowed /cursor\.get_mut\(\)/ => /vx_vec(cursor)/
//# rule as_ref() as a reborrow of a cursor's vector /cursor\.get_ref\(\)\.as_ref\(\)/ => /vx_ref(cursor.get_ref())/
//# rule as_ref() as a reborrow /file_buffer\.as_ref\(\)/ => /vx_ref(&file_buffer)/
//# rule a cursor's vector, dereferenced /parse_webp\(cursor\.get_ref\(\)\)/ => /parse_webp(vx_ref(cursor.get_ref()))/
verus! {
use crate::io::*;
//# include strings.rs
/// str::to_lowercase
pub uninterp spec fn lower(s: Seq<u8>) -> Seq<u8>;
/// of ASCII text, every letter's lower case; and ASCII lower-case text other than k comes from ASCII text only
#[verifier::external_body] pub broadcast proof fn fact_lower(s: Seq<u8>)
    ensures (forall|i: int| 0 <= i < s.len() ==> s[i] < 0x80) ==> (#[trigger] lower(s)).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] lower(s)[i] == (if 0x41 <= s[i] <= 0x5a { (s[i] + 0x20) as u8 } else { s[i] }),
        (forall|i: int| 0 <= i < lower(s).len() ==> #[trigger] lower(s)[i] < 0x80 && lower(s)[i] != 0x6b) ==> (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80) {}
impl VxString {
    #[verifier::external_body] pub fn to_lowercase(&self) -> (r: VxString) ensures r.b@ == lower(self.b@) { unimplemented!() }
    /// U8conversion<String> (its contract is proved in the unit `tags`)
    #[verifier::external_body] pub fn from_u8_vec(b: &Vec<u8>, e: &Endian) -> (r: VxString) ensures utf8(b@) ==> r.b@ == trim0(b@) { unimplemented!() }
}
pub open spec fn trim0(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == 0 { trim0(s.drop_last()) } else { s } }
pub open spec fn ascii(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
#[verifier::external_body] pub fn vx_text(s: &'static str) -> (r: VxString) ensures r.b@ == ascii(s@) { unimplemented!() }
pub trait VxGet { fn vx_get(&self, a: usize, b: usize) -> (r: Option<&[u8]>); }
impl VxGet for [u8] {
    #[verifier::external_body] fn vx_get(&self, a: usize, b: usize) -> (r: Option<&[u8]>)
        ensures a <= b ==> (r is Some <==> b <= self@.len()), r matches Some(x) ==> a <= b <= self@.len() && x@ == self@.subrange(a as int, b as int) { unimplemented!() }
}
pub fn vx_bytes_eq<A: AsBytes, B: AsBytes>(a: &A, b: &B) -> (r: bool) ensures r == (a.asb() == b.asb())
{
    if a.nbytes() != b.nbytes() { return false; }
    for k in 0..a.nbytes() invariant a.asb().len() == b.asb().len(), forall|i: int| 0 <= i < k ==> a.asb()[i] == b.asb()[i]
    { if a.nth_byte(k) != b.nth_byte(k) { return false; } }
    assert(a.asb() =~= b.asb());
    true
}
pub fn vx_push_take(v: &mut Vec<u8>, s: &Vec<u8>, n: usize) ensures n <= s@.len() ==> final(v)@ == old(v)@ + s@.take(n as int)
{
    let ghost v0 = v@;
    let m = if n <= s.len() { n } else { s.len() };
    for k in 0..m invariant m <= s@.len(), v@ =~= v0 + s@.take(k as int) { v.push(s[k]); }
}
pub fn vx_vec<'a, 'b>(c: &'a mut Cursor<&'b mut Vec<u8>>) -> (r: &'a mut Vec<u8>)
    ensures r@ == old(c).inner@, final(r)@ == final(c).inner@, final(c).p == old(c).p, *final(final(c).inner) == *final(old(c).inner)
{ &mut *c.inner }
pub fn vx_ref<'l, 'a>(x: &'l &'a mut Vec<u8>) -> (r: &'l Vec<u8>) ensures r@ == x.content() { &**x }

// ===== vocabulary ===================================================================================================
//# item src/webp/mod.rs const RIFF_SIGNATURE
//# item src/webp/mod.rs const WEBP_SIGNATURE
//# item src/webp/mod.rs const VP8X_HEADER
//# item src/webp/mod.rs const EXIF_CHUNK_HEADER
//# item src/general_file_io.rs const EXIF_HEADER
//# item src/webp/riff_chunk.rs struct RiffChunkDescriptor
//# item src/webp/riff_chunk.rs struct RiffChunk
pub open spec fn k_exif() -> Seq<u8> { seq![0x45u8, 0x58, 0x49, 0x46] }
pub open spec fn k_vp8x() -> Seq<u8> { seq![0x56u8, 0x50, 0x38, 0x58] }
pub open spec fn k_vp8() -> Seq<u8> { seq![0x56u8, 0x50, 0x38, 0x20] }
pub open spec fn k_vp8l() -> Seq<u8> { seq![0x56u8, 0x50, 0x38, 0x4c] }
pub open spec fn k_iccp() -> Seq<u8> { seq![0x49u8, 0x43, 0x43, 0x50] }
pub open spec fn k_alph() -> Seq<u8> { seq![0x41u8, 0x4c, 0x50, 0x48] }
pub open spec fn k_anim() -> Seq<u8> { seq![0x41u8, 0x4e, 0x49, 0x4d] }
pub open spec fn k_anmf() -> Seq<u8> { seq![0x41u8, 0x4e, 0x4d, 0x46] }
pub open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { lower(a) == lower(b) }
pub open spec fn pre(n: Seq<u8>) -> bool { same(n, k_vp8x()) || same(n, k_vp8()) || same(n, k_vp8l()) || same(n, k_iccp()) || same(n, k_alph()) || same(n, k_anim()) || same(n, k_anmf()) }

/// the RIFF data: header and body
pub open spec fn valid(s: Seq<u8>) -> bool { s.len() >= 12 && s.take(4) == RIFF_SIGNATURE@ && dec32(s.subrange(4, 8), Endian::Little) + 8 == s.len() && s.subrange(8, 12) == WEBP_SIGNATURE@ }
pub open spec fn riff(body: Seq<u8>) -> Seq<u8> { RIFF_SIGNATURE@ + enc32((body.len() + 4) as u32, Endian::Little) + WEBP_SIGNATURE@ + body }
/// the length of the payload of the chunk that t starts with, with its padding
pub open spec fn size(t: Seq<u8>) -> int { let n = dec32(t.subrange(4, 8), Endian::Little) as int; n + n % 2 }
pub struct C { pub name: Seq<u8>, pub n: int }
/// the chunks that make up t (up to 7 bytes may be left at the end)
pub open spec fn parse(t: Seq<u8>) -> Option<Seq<C>> decreases t.len()
{
    if t.len() < 8 { Some(Seq::empty()) }
    else if 8 + size(t) > t.len() || !utf8(t.take(4)) { None }
    else { match parse(t.skip(8 + size(t))) { Some(l) => Some(seq![C { name: t.take(4), n: size(t) }] + l), None => None } }
}
/// t without its EXIF chunks
pub open spec fn strip(t: Seq<u8>) -> Seq<u8> decreases t.len()
{
    if t.len() < 8 || 8 + size(t) > t.len() { t }
    else { let m = 8 + size(t); if same(t.take(4), k_exif()) { strip(t.skip(m)) } else { t.take(m) + strip(t.skip(m)) } }
}
/// where the EXIF chunk goes: behind the leading chunks that belong before it
pub open spec fn place(t: Seq<u8>) -> int decreases t.len()
{
    if t.len() < 8 || 8 + size(t) > t.len() || !pre(t.take(4)) { 0 } else { 8 + size(t) + place(t.skip(8 + size(t))) }
}
/// the payload of the first EXIF chunk
pub open spec fn found(t: Seq<u8>) -> Option<Seq<u8>> decreases t.len()
{
    if t.len() < 8 || 8 + size(t) > t.len() || trim0(t.take(4)) != t.take(4) { None }
    else if same(t.take(4), k_exif()) { Some(t.subrange(8, 8 + size(t))) }
    else { found(t.skip(8 + size(t))) }
}
pub open spec fn extended(t: Seq<u8>) -> bool { same(t.take(4), k_vp8x()) }
pub open spec fn simple(t: Seq<u8>) -> bool { t.take(4) == k_vp8() || t.take(4) == k_vp8l() }
pub open spec fn flag_set(t: Seq<u8>) -> bool { t[8] & 8 == 8 }
pub open spec fn with_flag(t: Seq<u8>, v: bool) -> Seq<u8> { t.update(8, if v { t[8] | 8 } else { t[8] & 0b11110111 }) }
/// width - 1 and height - 1 of a lossless and of a lossy image
pub open spec fn dims_vp8l(p: Seq<u8>) -> Option<(u32, u32)> {
    if p.len() < 5 { None } else { let v = dec32(p.subrange(1, 5), Endian::Little); Some(((v % 0x4000) as u32, (v / 0x4000 % 0x4000) as u32)) }
}
pub open spec fn dims_vp8(p: Seq<u8>) -> Option<(u32, u32)> {
    if p.len() < 10 || p.subrange(3, 6) != seq![0x9du8, 0x01, 0x2a] { None } else {
        let w = dec16(p.subrange(6, 8), Endian::Little) % 0x4000; let h = dec16(p.subrange(8, 10), Endian::Little) % 0x4000;
        if w == 0 || h == 0 { None } else { Some(((w - 1) as u32, (h - 1) as u32)) } }
}
pub open spec fn dims(t: Seq<u8>) -> Option<(u32, u32)> {
    let p = t.subrange(8, 8 + size(t));
    if t.take(4) == k_vp8() { dims_vp8(p) } else if t.take(4) == k_vp8l() { dims_vp8l(p) } else { None }
}
/// the extended header stating these dimensions, without any flag
pub open spec fn vp8x(d: (u32, u32)) -> Seq<u8> { seq![0x56u8, 0x50, 0x38, 0x58, 10, 0, 0, 0, 0, 0, 0, 0] + enc32(d.0, Endian::Little).take(3) + enc32(d.1, Endian::Little).take(3) }
/// the body of the extended format
pub open spec fn extend(t: Seq<u8>) -> Option<Seq<u8>> {
    if extended(t) { if size(t) < 4 { None } else { Some(t) } } else { match dims(t) { Some(d) => if t.len() + 22 > u32::MAX { None } else { Some(vp8x(d) + t) }, None => None } }
}
pub open spec fn chunk(x: Seq<u8>) -> Seq<u8> { k_exif() + enc32(x.len() as u32, Endian::Little) + x + (if x.len() % 2 != 0 { seq![0u8] } else { Seq::empty() }) }
/// the body after clearing
pub open spec fn cleared(t: Seq<u8>) -> Option<Seq<u8>> {
    if parse(t) is None || t.len() < 8 { None } else if simple(t) { Some(strip(t)) } else if extended(t) && size(t) >= 4 { Some(with_flag(strip(t), false)) } else { None }
}
pub open spec fn inserted(c: Seq<u8>, x: Seq<u8>) -> Seq<u8> { c.take(place(c)) + chunk(x) + c.skip(place(c)) }
/// the body after writing
pub open spec fn written(t: Seq<u8>, x: Seq<u8>) -> Option<Seq<u8>> {
    match cleared(t) { None => None, Some(c) => if c.len() + chunk(x).len() + 12 > u32::MAX { None } else { match extend(inserted(c, x)) { None => None, Some(e) => Some(with_flag(e, true)) } } }
}

// ===== functions under contract =====================================================================================
impl RiffChunkDescriptor {
//# fn src/webp/riff_chunk.rs new in RiffChunkDescriptor -> r
//# spec
    ensures r.fourCC == fourCC, r.size == size
//# end
//# fn src/webp/riff_chunk.rs len in RiffChunkDescriptor -> r
//# spec
    ensures r == self.size
//# end
//# fn src/webp/riff_chunk.rs header in RiffChunkDescriptor -> r
//# spec
    ensures r.b@ == self.fourCC.b@
//# end
}
impl RiffChunkDescriptor { #[verifier::external_body] pub fn clone(&self) -> (r: RiffChunkDescriptor) ensures r.fourCC.b@ == self.fourCC.b@, r.size == self.size { unimplemented!() } }
impl RiffChunk {
//# fn src/webp/riff_chunk.rs new in RiffChunk -> r
//# spec
    ensures r.descriptor.fourCC == fourCC, r.descriptor.size == size, r.payload == payload
//# end
//# fn src/webp/riff_chunk.rs descriptor in RiffChunk -> r
//# spec
    ensures r.fourCC.b@ == self.descriptor.fourCC.b@, r.size == self.descriptor.size
//# end
//# fn src/webp/riff_chunk.rs payload in RiffChunk -> r
//# spec
    ensures r@ == self.payload@
//# end
}

//# fn src/webp/mod.rs check_riff_signature -> r
//# spec
    ensures r is Ok <==> file_buffer@.len() >= 4 && file_buffer@.take(4) == RIFF_SIGNATURE@
//# begin
    proof { if file_buffer@.len() >= 4 { assert(file_buffer@.take(4) =~= file_buffer@.subrange(0, 4)); } }
//# end
//# fn src/webp/mod.rs check_webp_signature -> r
//# spec
    ensures r is Ok <==> file_buffer@.len() >= 12 && file_buffer@.subrange(8, 12) == WEBP_SIGNATURE@
//# end
//# fn src/webp/mod.rs check_byte_count -> r
//# spec
    requires file_buffer@.len() >= 8,
    ensures r is Ok <==> dec32(file_buffer@.subrange(4, 8), Endian::Little) + 8 == file_buffer@.len() && file_buffer@.len() <= u32::MAX
//# end
//# fn src/webp/mod.rs encode_metadata_webp -> r
//# spec
    requires exif_vec@.len() <= 0xffff_0000,
    ensures r@ == chunk(exif_vec@)
//# end
//# fn src/webp/mod.rs as_u8_vec -> r
//# spec
    requires general_encoded_metadata@.len() <= 0xffff_0000,
    ensures r@ == chunk(general_encoded_metadata@)
//# end
//# fn src/webp/mod.rs get_dimension_info_from_vp8_chunk -> r
//# spec
    ensures r matches Ok(d) ==> dims_vp8(payload@) == Some(d), r is Err ==> dims_vp8(payload@) is None
//# begin
    proof { assert((1u16 << 14) == 0x4000u16) by (bit_vector); assert(forall|w: u16| #[trigger] (w & 0x3fffu16) == w % 0x4000u16) by (bit_vector); }
//# end

//# fn src/webp/vec.rs check_signature -> r
//# spec
    ensures r is Ok <==> valid(file_buffer@) && file_buffer@.len() <= u32::MAX, r matches Ok(c) ==> c.inner == file_buffer && c.p == 12
//# end

//# fn src/webp/vec.rs get_next_chunk -> r
//# spec
    requires old(cursor).p <= old(cursor).inner@.len(), old(cursor).inner@.len() <= maxbuf(),
    ensures final(cursor).inner == old(cursor).inner, final(cursor).p <= final(cursor).inner@.len(),
        ({ let t = old(cursor).inner@.skip(old(cursor).p as int);
           match r {
               Ok(c) => t.len() >= 8 && 8 + size(t) <= t.len() && utf8(t.take(4)) && c.descriptor.fourCC.b@ == t.take(4) && c.descriptor.size == size(t) && c.payload@ == t.subrange(8, 8 + size(t))
                   && final(cursor).p == old(cursor).p + 8 + size(t),
               Err(e) => if t.len() < 8 { e.k == io::ErrorKind::UnexpectedEof } else { e.k != io::ErrorKind::UnexpectedEof && (8 + size(t) > t.len() || !utf8(t.take(4))) },
           } }),
//# begin
    let ghost t = cursor.inner@.skip(cursor.p as int); let ghost p0 = cursor.p as int;
    proof { if t.len() >= 8 { let n = dec32(t.subrange(4, 8), Endian::Little); assert(n as u64 % 2 == n % 2); } }
//# after /bytes_read = cursor\.read\(&mut chunk_start\)\?;/
    proof { if bytes_read == 8 { assert(chunk_start@ =~= t.take(8)); assert(chunk_start@.subrange(0, 4) =~= t.take(4)); assert(chunk_start@.subrange(4, 8) =~= t.subrange(4, 8)); } }
//# after /bytes_read = cursor\.read\(&mut chunk_data_buffer\)\?;/
    proof { if bytes_read == chunk_length { assert(chunk_data_buffer@ =~= t.subrange(8, 8 + size(t))); } }
//# end
//# fn src/webp/vec.rs get_next_chunk_descriptor -> r
//# spec
    requires old(cursor).p <= old(cursor).inner@.len(), old(cursor).inner@.len() <= maxbuf(),
    ensures final(cursor).inner == old(cursor).inner, final(cursor).p <= final(cursor).inner@.len(),
        ({ let t = old(cursor).inner@.skip(old(cursor).p as int);
           match r {
               Ok(c) => t.len() >= 8 && 8 + size(t) <= t.len() && utf8(t.take(4)) && c.fourCC.b@ == t.take(4) && c.size == size(t) && final(cursor).p == old(cursor).p + 8 + size(t),
               Err(e) => if t.len() < 8 { e.k == io::ErrorKind::UnexpectedEof } else { e.k != io::ErrorKind::UnexpectedEof && (8 + size(t) > t.len() || !utf8(t.take(4))) },
           } }),
//# end
pub open spec fn listed(l: Seq<RiffChunkDescriptor>) -> Seq<C> { Seq::new(l.len(), |i: int| C { name: l[i].fourCC.b@, n: l[i].size as int }) }
//# fn src/webp/vec.rs parse_webp -> r
//# attr
    #[verifier::allow_complex_invariants]
//# spec
    ensures match r {
        Ok(l) => valid(file_buffer@) && file_buffer@.len() <= u32::MAX && parse(file_buffer@.skip(12)) == Some(listed(l@)),
        Err(_) => !(valid(file_buffer@) && file_buffer@.len() <= u32::MAX) || parse(file_buffer@.skip(12)) is None,
    }
//# begin
    proof { vec_bounded(file_buffer); }
//# loop 0
        invariant_except_break
            12 <= cursor.p <= file_buffer@.len(), parsed_length == cursor.p,
            match parse(file_buffer@.skip(cursor.p as int)) { Some(l) => parse(file_buffer@.skip(12)) == Some(listed(chunks@) + l), None => parse(file_buffer@.skip(12)) is None },
        invariant valid(file_buffer@), file_buffer@.len() <= u32::MAX, file_buffer@.len() <= maxbuf(), cursor.inner == file_buffer, expected_length == file_buffer@.len(),
        ensures parse(file_buffer@.skip(12)) == Some(listed(chunks@)),
        decreases file_buffer@.len() - cursor.p
//# loop 0 begin
        let ghost p0 = cursor.p as int; let ghost l0 = chunks@;
        proof { let t = file_buffer@.skip(p0); if t.len() >= 8 && 8 + size(t) <= t.len() { assert(t.skip(8 + size(t)) =~= file_buffer@.skip(p0 + 8 + size(t))); } 
            assert(listed(l0) + Seq::empty() =~= listed(l0)); }
//# after /chunks\.push\(chunk_descriptor\);/
            proof {
                let t = file_buffer@.skip(p0); let c = C { name: t.take(4), n: size(t) };
                assert(listed(chunks@) =~= listed(l0) + seq![c]);
                if let Some(l) = parse(file_buffer@.skip(cursor.p as int)) { assert(listed(l0) + (seq![c] + l) =~= listed(chunks@) + l); }
                if parsed_length == expected_length { assert(parse(file_buffer@.skip(cursor.p as int)) == Some(Seq::<C>::empty())); assert(listed(chunks@) + Seq::empty() =~= listed(chunks@)); }
            }
//# end

//# include metadata_opaque.rs
//# include util_insert.rs
//# include util_remove.rs

// ----- what the vocabulary says about data that is put together from chunks
/// one chunk, with its padding
pub open spec fn is_chunk(h: Seq<u8>) -> bool { h.len() >= 8 && h.len() == 8 + size(h) && utf8(h.take(4)) }
/// how many EXIF chunks
pub open spec fn count(t: Seq<u8>) -> nat decreases t.len()
{
    if t.len() < 8 || 8 + size(t) > t.len() { 0 } else { (if same(t.take(4), k_exif()) { 1nat } else { 0nat }) + count(t.skip(8 + size(t))) }
}
pub open spec fn is_key(b: Seq<u8>) -> bool { b == k_exif() || b == k_vp8x() || b == k_vp8() || b == k_vp8l() || b == k_iccp() || b == k_alph() || b == k_anim() || b == k_anmf() }
pub open spec fn low(b: u8) -> u8 { if 0x41 <= b <= 0x5a { (b + 0x20) as u8 } else { b } }
pub proof fn lemma_same(a: Seq<u8>, b: Seq<u8>)
    requires same(a, b), is_key(b)
    ensures a.len() == 4, forall|i: int| 0 <= i < 4 ==> #[trigger] a[i] < 0x80 && low(a[i]) == low(b[i]), utf8(a), trim0(a) == a
{
    fact_lower(b); fact_lower(a);
    assert forall|i: int| 0 <= i < lower(a).len() implies #[trigger] lower(a)[i] < 0x80 && lower(a)[i] != 0x6b by { assert(lower(a)[i] == lower(b)[i]); assert(b[i] < 0x80); }
    axiom_ascii(a);
    assert forall|i: int| 0 <= i < 4 implies #[trigger] a[i] < 0x80 && low(a[i]) == low(b[i]) by { assert(lower(a)[i] == lower(b)[i]); }
    assert(low(a[3]) == low(b[3])); assert(a.last() != 0);
}
pub proof fn lemma_apart(a: Seq<u8>)
    ensures pre(a) ==> !same(a, k_exif()), simple2(a) ==> pre(a) && !same(a, k_vp8x())
{
    if pre(a) && same(a, k_exif()) {
        lemma_same(a, k_exif());
        let b = if same(a, k_vp8x()) { k_vp8x() } else if same(a, k_vp8()) { k_vp8() } else if same(a, k_vp8l()) { k_vp8l() } else if same(a, k_iccp()) { k_iccp() } else if same(a, k_alph()) { k_alph() } else if same(a, k_anim()) { k_anim() } else { k_anmf() };
        lemma_same(a, b);
        assert(low(a[0]) == low(b[0]) && low(a[1]) == low(b[1]) && low(a[2]) == low(b[2]) && low(a[3]) == low(b[3]));
        assert(low(a[0]) == 0x65 && low(a[1]) == 0x78);
    }
    if simple2(a) && same(a, k_vp8x()) { lemma_same(a, k_vp8x()); assert(low(a[3]) == low(k_vp8x()[3])); }
}
pub open spec fn simple2(n: Seq<u8>) -> bool { n == k_vp8() || n == k_vp8l() }
/// the padded size is even
pub proof fn lemma_even(t: Seq<u8>) ensures size(t) % 2 == 0, 0 <= size(t) <= 0x1_0000_0000 { let n = dec32(t.subrange(4, 8), Endian::Little) as int; assert((n + n % 2) % 2 == 0) by (nonlinear_arith); }
/// a chunk in front of something
pub proof fn lemma_head(h: Seq<u8>, r: Seq<u8>)
    requires is_chunk(h)
    ensures ({ let t = h + r; &&& t.len() >= 8 &&& size(t) == size(h) &&& t.take(4) == h.take(4) &&& t.skip(8 + size(t)) == r &&& t.take(8 + size(t)) == h
        &&& parse(t) == (match parse(r) { Some(l) => Some(seq![C { name: h.take(4), n: size(h) }] + l), None => None })
        &&& strip(t) == (if same(h.take(4), k_exif()) { strip(r) } else { h + strip(r) })
        &&& count(t) == (if same(h.take(4), k_exif()) { 1 } else { 0nat }) + count(r)
        &&& found(t) == (if trim0(h.take(4)) != h.take(4) { None } else if same(h.take(4), k_exif()) { Some(h.skip(8)) } else { found(r) })
        &&& place(t) == (if pre(h.take(4)) { h.len() + place(r) } else { 0 }) })
{
    let t = h + r;
    lemma_even(h);
    assert(t.subrange(4, 8) =~= h.subrange(4, 8)); assert(t.take(4) =~= h.take(4)); assert(t.skip(8 + size(t)) =~= r); assert(t.take(8 + size(t)) =~= h);
    assert(t.subrange(8, 8 + size(t)) =~= h.skip(8));
}
/// and taken apart again
pub proof fn lemma_split(t: Seq<u8>)
    requires t.len() >= 8, 8 + size(t) <= t.len(), utf8(t.take(4))
    ensures ({ let h = t.take(8 + size(t)); is_chunk(h) && size(h) == size(t) && h.take(4) == t.take(4) && t == h + t.skip(8 + size(t)) })
{
    lemma_even(t);
    let h = t.take(8 + size(t));
    assert(h.subrange(4, 8) =~= t.subrange(4, 8)); assert(h.take(4) =~= t.take(4)); assert(t =~= h + t.skip(8 + size(t)));
}
pub proof fn lemma_strip(t: Seq<u8>)
    requires parse(t) is Some
    ensures parse(strip(t)) is Some, strip(t).len() <= t.len(), count(strip(t)) == 0, strip(strip(t)) == strip(t),
        t.len() >= 8 && !same(t.take(4), k_exif()) ==> strip(t).len() >= 8 + size(t) && strip(t).take(8 + size(t)) == t.take(8 + size(t)) && size(strip(t)) == size(t) && strip(t).take(4) == t.take(4)
    decreases t.len()
{
    if t.len() >= 8 {
        lemma_split(t); let m = 8 + size(t); let h = t.take(m);
        lemma_head(h, t.skip(m)); lemma_strip(t.skip(m)); lemma_head(h, strip(t.skip(m)));
        if !same(t.take(4), k_exif()) { assert(strip(t) == h + strip(t.skip(m))); }
    }
}
pub proof fn lemma_chunk(x: Seq<u8>)
    requires x.len() < u32::MAX
    ensures is_chunk(chunk(x)), chunk(x).take(4) == k_exif(), chunk(x).skip(8) == x + (if x.len() % 2 != 0 { seq![0u8] } else { Seq::empty() }), chunk(x).len() % 2 == 0
{
    let c = chunk(x);
    axiom_ascii(k_exif()); lemma_enc32(x.len() as u32);
    assert(c.take(4) =~= k_exif()); assert(c.subrange(4, 8) =~= enc32(x.len() as u32, Endian::Little)); assert(c.skip(8) =~= x + (if x.len() % 2 != 0 { seq![0u8] } else { Seq::empty() }));
}
pub proof fn lemma_enc32(v: u32) ensures dec32(enc32(v, Endian::Little), Endian::Little) == v, enc32(v, Endian::Little).len() == 4
{
    let s = enc32(v, Endian::Little);
    let (a, b, c, d) = (v / 0x1000000, v / 0x10000 % 256, v / 256 % 256, v % 256);
    assert(a < 256);
    assert(((a * 256 + b) * 256 + c) * 256 + d == v);
}
pub proof fn lemma_place(c: Seq<u8>)
    requires parse(c) is Some
    ensures 0 <= place(c) <= c.len()
    decreases c.len()
{ if c.len() >= 8 && pre(c.take(4)) { lemma_even(c); lemma_place(c.skip(8 + size(c))); } }
/// an EXIF chunk put in its place
pub proof fn lemma_inserted(c: Seq<u8>, x: Seq<u8>)
    requires parse(c) is Some, x.len() < u32::MAX
    ensures parse(inserted(c, x)) is Some, strip(inserted(c, x)) == strip(c), count(inserted(c, x)) == count(c) + 1, found(inserted(c, x)) == Some(chunk(x).skip(8)),
        c.len() >= 8 && pre(c.take(4)) ==> inserted(c, x).len() >= 8 + size(c) && inserted(c, x).take(8 + size(c)) == c.take(8 + size(c)) && size(inserted(c, x)) == size(c) && inserted(c, x).take(4) == c.take(4),
        0 <= place(c) <= c.len(), inserted(c, x).len() == c.len() + chunk(x).len()
    decreases c.len()
{
    lemma_chunk(x); lemma_place(c);
    if c.len() >= 8 && pre(c.take(4)) {
        lemma_split(c); let m = 8 + size(c); let h = c.take(m); let r = c.skip(m);
        lemma_head(h, r); lemma_inserted(r, x); lemma_place(r); lemma_head(h, inserted(r, x)); lemma_apart(h.take(4));
        assert(c.take(place(c)) =~= h + r.take(place(r))); assert(c.skip(place(c)) =~= r.skip(place(r)));
        assert(inserted(c, x) =~= h + inserted(r, x));
        let n = h.take(4); let b = if same(n, k_vp8x()) { k_vp8x() } else if same(n, k_vp8()) { k_vp8() } else if same(n, k_vp8l()) { k_vp8l() } else if same(n, k_iccp()) { k_iccp() } else if same(n, k_alph()) { k_alph() } else if same(n, k_anim()) { k_anim() } else { k_anmf() };
        lemma_same(n, b);
    } else {
        assert(place(c) == 0);
        assert(inserted(c, x) =~= chunk(x) + c);
        lemma_head(chunk(x), c);
        lemma_same(k_exif(), k_exif());
    }
}
/// the flag is in the first chunk's payload and no header changes with it
pub proof fn lemma_flag(t: Seq<u8>, v: bool)
    requires parse(t) is Some, t.len() >= 8, extended(t), size(t) >= 4
    ensures ({ let w = with_flag(t, v); &&& parse(w) == parse(t) &&& count(w) == count(t) &&& found(w) == found(t) &&& strip(w) == with_flag(strip(t), v) &&& extended(w) &&& size(w) == size(t) &&& flag_set(w) == v &&& place(w) == place(t)
        &&& w.len() == t.len() && w.len() >= 12 && strip(t).len() >= 12 })
{
    let w = with_flag(t, v); let m = 8 + size(t);
    lemma_split(t); let h = t.take(m); let r = t.skip(m); let h2 = with_flag(h, v);
    assert(h2.take(4) =~= h.take(4)); assert(h2.subrange(4, 8) =~= h.subrange(4, 8));
    assert(w =~= h2 + r);
    lemma_head(h, r); lemma_head(h2, r); lemma_apart(h.take(4));
    assert(strip(w) =~= with_flag(strip(t), v));
    let b = t[8]; assert(((b | 8) & 8 == 8) && ((b & 0b11110111) & 8 == 0)) by (bit_vector);
    lemma_same(h.take(4), k_vp8x());
}
pub proof fn lemma_vp8x(d: (u32, u32), t: Seq<u8>)
    requires parse(t) is Some
    ensures ({ let w = vp8x(d) + t; &&& w.len() == t.len() + 18 &&& parse(w) is Some &&& extended(w) &&& size(w) == 10 &&& count(w) == count(t) &&& found(w) == found(t) &&& strip(w) == vp8x(d) + strip(t) })
{
    let h = vp8x(d);
    axiom_ascii(k_vp8x()); lemma_enc32(d.0); lemma_enc32(d.1);
    assert(h.len() == 18); assert(h.take(4) =~= k_vp8x()); assert(h.subrange(4, 8) =~= seq![10u8, 0, 0, 0]); lemma_same(k_vp8x(), k_vp8x()); lemma_apart(k_vp8x());
    assert(be32(0, 0, 0, 10) == 10);
    lemma_head(h, t);
}

// ===== functions under contract: reading ===============================================================================
pub open spec fn readable(s: Seq<u8>) -> bool { valid(s) && s.len() <= u32::MAX && parse(s.skip(12)) is Some && s.len() >= 24 && extended(s.skip(12)) && flag_set(s.skip(12)) }
//# fn src/webp/vec.rs check_exif_in_file -> r
//# spec
    ensures r is Ok <==> readable(file_buffer@), r matches Ok(x) ==> x.0.inner == file_buffer && Some(listed(x.1@)) == parse(file_buffer@.skip(12))
//# begin
    proof { vec_bounded(file_buffer); lemma_texts(); if file_buffer@.len() >= 20 { lemma_first(file_buffer@.skip(12)); } }
//# after /let mut cursor\s*=\s*check_signature\(file_buffer\)\?;/
    proof { lemma_first(file_buffer@.skip(12)); }
//# end
/// the texts of the two constants
pub proof fn lemma_texts() ensures ascii(VP8X_HEADER@) == k_vp8x(), ascii(EXIF_CHUNK_HEADER@) == k_exif()
{
    reveal_strlit("VP8X"); reveal_strlit("EXIF");
    assert(ascii(VP8X_HEADER@) =~= k_vp8x()); assert(ascii(EXIF_CHUNK_HEADER@) =~= k_exif());
}
pub proof fn lemma_first(t: Seq<u8>)
    ensures parse(t) matches Some(l) ==> (l.len() > 0 <==> t.len() >= 8) && (l.len() > 0 ==> l[0] == C { name: t.take(4), n: size(t) } && 8 + size(t) <= t.len() && utf8(t.take(4)))
{}

//# fn src/webp/vec.rs read_metadata -> r
//# spec
    ensures r is Ok <==> readable(file_buffer@) && found(file_buffer@.skip(12)) is Some,
        r matches Ok(v) ==> v@ == EXIF_HEADER@ + found(file_buffer@.skip(12))->Some_0
//# begin
    let ghost t = file_buffer@.skip(12);
    proof { vec_bounded(file_buffer); lemma_texts(); }
//# loop 0
        invariant
            readable(file_buffer@), t == file_buffer@.skip(12), file_buffer@.len() <= maxbuf(), cursor.inner == file_buffer, 12 <= cursor.p <= file_buffer@.len(), header_buffer@.len() == 4,
            0 <= chunk_index <= parse_webp_result@.len(), ascii(EXIF_CHUNK_HEADER@) == k_exif(),
            parse(file_buffer@.skip(cursor.p as int)) == Some(listed(parse_webp_result@).skip(chunk_index as int)),
            found(t) == found(file_buffer@.skip(cursor.p as int)),
        decreases file_buffer@.len() - cursor.p
//# loop 0 begin
        let ghost p0 = cursor.p as int; let ghost u = file_buffer@.skip(p0);
        proof { lemma_first(u); lemma_even(u); assert(parse_webp_result.len() == parse_webp_result@.len()); assert(u.len() >= 8 ==> chunk_index < parse_webp_result@.len()); assert(u.len() < 8 ==> chunk_index >= parse_webp_result@.len()); if u.len() >= 8 { lemma_split(u); lemma_head(u.take(8 + size(u)), u.skip(8 + size(u))); assert(u.skip(8 + size(u)) =~= file_buffer@.skip(p0 + 8 + size(u)));
            assert(listed(parse_webp_result@).skip(chunk_index as int)[0] == listed(parse_webp_result@)[chunk_index as int]);
            assert(listed(parse_webp_result@).skip(chunk_index as int).skip(1) =~= listed(parse_webp_result@).skip(chunk_index + 1)); 
            assert((seq![C { name: u.take(4), n: size(u) }] + parse(u.skip(8 + size(u)))->Some_0).skip(1) =~= parse(u.skip(8 + size(u)))->Some_0); } }
//# before /let chunk_type/
        proof { assert(header_buffer@ =~= u.take(4)); }
//# after /bytes_read\s*=\s*cursor\.read\(&mut payload_buffer\)\?;/
            proof { if bytes_read == chunk_size { assert(payload_buffer@ =~= u.subrange(8, 8 + size(u))); } }
//# end

// ===== functions under contract: changing ==============================================================================
//# fn src/webp/vec.rs update_file_size_information -> r
//# spec
    requires old(cursor).inner@.len() >= 8, -0x4000_0000_0000_0000 <= delta <= 0x4000_0000_0000_0000,
    ensures *final(final(cursor).inner) == *final(old(cursor).inner),
        ({ let s = old(cursor).inner@; let n = dec32(s.subrange(4, 8), Endian::Little) + delta;
           &&& r is Ok <==> 0 <= n <= u32::MAX
           &&& r is Ok ==> final(cursor).inner@ == s.take(4) + enc32(n as u32, Endian::Little) + s.skip(8)
           &&& r is Err ==> final(cursor).inner@ == s }),
//# end

//# fn src/webp/vec.rs get_dimension_info_from_vp8l_chunk -> r
//# attr
#[verifier::loop_isolation(false)]
//# spec
    ensures r matches Ok(d) ==> dims_vp8l(payload@) == Some(d), r is Err ==> dims_vp8l(payload@) is None
//# begin
    proof { lemma_zero(); }
//# loop 0
        invariant bit_index <= 14, width == width_height_info & low_bits(bit_index as u32), height == 0
//# loop 0 begin
        proof { lemma_bit(width_height_info, bit_index as u32); }
//# loop 1
        invariant 14 <= bit_index <= 28, height == (width_height_info >> 14u32) & low_bits((bit_index - 14) as u32)
//# loop 1 begin
        proof { lemma_bit(width_height_info >> 14u32, (bit_index - 14) as u32); let v = width_height_info; let b = bit_index as u32; assert(14 <= b < 28 ==> (v >> 14u32) >> ((b - 14) as u32) == v >> b) by (bit_vector); }
//# loop 1 after
    proof { let v = width_height_info; assert(sub(1u32 << 14, 1) == 0x3fffu32) by (bit_vector); assert((1u32 << 14) == 0x4000u32 && (v & 0x3fffu32) == v % 0x4000 && ((v >> 14u32) & 0x3fffu32) == v / 0x4000 % 0x4000) by (bit_vector); }
//# end
pub open spec fn low_bits(b: u32) -> u32 { sub(1u32 << b, 1) }
pub proof fn lemma_zero() ensures forall|v: u32| #[trigger] (v & low_bits(0)) == 0
{ assert(low_bits(0) == 0) by { assert(sub(1u32 << 0u32, 1) == 0) by (bit_vector); } assert(forall|v: u32| #[trigger] (v & 0u32) == 0) by (bit_vector); }
pub proof fn lemma_bit(v: u32, b: u32) requires b < 14
    ensures (v & low_bits(b)) | (((v >> b) & 1) << b) == v & low_bits((b + 1) as u32)
{ assert(b < 14 ==> (v & (sub(1u32 << b, 1))) | (((v >> b) & 1) << b) == v & (sub(1u32 << add(b, 1), 1))) by (bit_vector); }

//# fn src/webp/vec.rs convert_to_extended_format -> r
//# spec
    requires valid(old(cursor).inner@), old(cursor).inner@.len() <= u32::MAX,
    ensures *final(final(cursor).inner) == *final(old(cursor).inner),
        ({ let t = old(cursor).inner@.skip(12);
           &&& r is Ok <==> t.len() >= 8 && 8 + size(t) <= t.len() && utf8(t.take(4)) && dims(t) is Some && t.len() + 22 <= u32::MAX
           &&& r is Ok ==> final(cursor).inner@ == riff(vp8x(dims(t)->Some_0) + t) }),
//# loop 0
//# loop 1
//# end

/// header and body
pub proof fn lemma_riff(s: Seq<u8>) requires valid(s) ensures s == riff(s.skip(12))
{
    let n = (s.len() - 8) as u32; lemma_dec32(s.subrange(4, 8));
    assert(s =~= riff(s.skip(12)));
}
pub proof fn lemma_dec32(b: Seq<u8>) requires b.len() == 4 ensures enc32(dec32(b, Endian::Little), Endian::Little) == b
{
    let v = dec32(b, Endian::Little);
    assert(v == ((b[3] * 256 + b[2]) * 256 + b[1]) * 256 + b[0]);
    assert(enc32(v, Endian::Little) =~= b);
}
pub proof fn lemma_body(b: Seq<u8>)
    ensures riff(b).skip(12) == b, riff(b).len() == b.len() + 12, b.len() + 4 <= u32::MAX ==> valid(riff(b)), forall|i: int, x: u8| 0 <= i < b.len() ==> #[trigger] riff(b).update(i + 12, x) == riff(b.update(i, x))
{
    lemma_enc32((b.len() + 4) as u32);
    assert(riff(b).skip(12) =~= b); assert(riff(b).take(4) =~= RIFF_SIGNATURE@); assert(riff(b).subrange(4, 8) =~= enc32((b.len() + 4) as u32, Endian::Little)); assert(riff(b).subrange(8, 12) =~= WEBP_SIGNATURE@);
    assert forall|i: int, x: u8| 0 <= i < b.len() implies #[trigger] riff(b).update(i + 12, x) == riff(b.update(i, x)) by { assert(riff(b).update(i + 12, x) =~= riff(b.update(i, x))); }
}
pub proof fn lemma_set(e: Seq<u8>) requires e.len() > 8
    ensures riff(e)[20] == e[8], riff(e).len() == e.len() + 12, riff(e).update(20, e[8] | 8) == riff(with_flag(e, true)), riff(e).update(20, e[8] & 0b11110111) == riff(with_flag(e, false))
{ lemma_body(e); assert(riff(e)[20] == riff(e).skip(12)[8]); assert(riff(e).update((8 + 12) as int, e[8] | 8) == riff(with_flag(e, true))); assert(riff(e).update((8 + 12) as int, e[8] & 0b11110111) == riff(with_flag(e, false))); }
pub proof fn lemma_vp8x_len() ensures forall|d: (u32, u32)| (#[trigger] vp8x(d)).len() == 18 {}
//# fn src/webp/vec.rs set_exif_flag -> r
//# sub /vx_vec\(cursor\)\[(\w+)\] = (if [^;]*);/ => /{ let vx_b = \2; vx_vec(cursor).set(\1, vx_b); }/
//# spec
    ensures *final(final(cursor).inner) == *final(old(cursor).inner),
        ({ let s = old(cursor).inner@; let t = s.skip(12);
           &&& r is Ok <==> valid(s) && s.len() <= u32::MAX && parse(t) is Some && t.len() >= 8 && extend(t) is Some
           &&& r is Ok ==> final(cursor).inner@ == riff(with_flag(extend(t)->Some_0, exif_flag_value)) }),
//# begin
    hide(riff); hide(with_flag); hide(vp8x); hide(dims);
    let ghost s = cursor.inner@; let ghost t = s.skip(12);
    proof {
        lemma_vp8x_len(); lemma_texts(); lemma_first(t); if valid(s) { lemma_riff(s); }
        if extend(t) is Some && t.len() >= 8 && 8 + size(t) <= t.len() { lemma_set(extend(t)->Some_0); }
    }
//# end


pub proof fn lemma_cut<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures cut(a + b + c, a.len() as int, (a.len() + b.len()) as int) == a + c
{ assert(cut(a + b + c, a.len() as int, (a.len() + b.len()) as int) =~= a + c); }
//# fn src/webp/vec.rs clear_metadata -> r
//# sub /vx_vec\(cursor\)/ => /vx_vec(&mut cursor)/
//# spec
    ensures
        r is Ok <==> valid(old(file_buffer)@) && old(file_buffer)@.len() <= u32::MAX && cleared(old(file_buffer)@.skip(12)) is Some,
        r is Ok ==> final(file_buffer)@ == riff(cleared(old(file_buffer)@.skip(12))->Some_0)
//# begin
    hide(riff); hide(with_flag); hide(vp8x); hide(dims);
    let ghost s = file_buffer@; let ghost t = s.skip(12); let ghost mut done = Seq::<u8>::empty(); let ghost mut rest = t;
    proof { vec_bounded(file_buffer); lemma_texts(); lemma_first(t); if valid(s) { lemma_riff(s); } if parse(t) is Some { lemma_strip(t); lemma_apart(t.take(4)); } 
        if valid(s) { assert(s.take(12) + t =~= s); } assert(Seq::<u8>::empty() + strip(t) =~= strip(t)); }
//# loop 0
        invariant
            valid(s), s.len() <= u32::MAX, t == s.skip(12), parse(t) == Some(listed(vx_e0@)), ascii(EXIF_CHUNK_HEADER@) == k_exif(),
            0 <= vx_i0 <= vx_e0@.len(), parse(rest) == Some(listed(vx_e0@).skip(vx_i0 as int)),
            cursor.inner@ == s.take(12) + done + rest, cursor.p == 12 + done.len(), strip(t) == done + strip(rest), delta == done.len() + rest.len() - t.len(),
            done.len() + rest.len() <= t.len(), *final(cursor.inner) == *final(file_buffer),
        decreases vx_e0@.len() - vx_i0
//# loop 0 begin
        let ghost d0 = done; let ghost r0 = rest; let ghost i0 = vx_i0 as int;
        proof {
            lemma_first(rest); lemma_even(rest);
            let l = listed(vx_e0@); assert(l.skip(i0)[0] == l[i0]); assert(l.skip(i0).skip(1) =~= l.skip(i0 + 1));
            lemma_split(rest); let m = 8 + size(rest); lemma_head(rest.take(m), rest.skip(m));
            assert((seq![C { name: rest.take(4), n: size(rest) }] + parse(rest.skip(m))->Some_0).skip(1) =~= parse(rest.skip(m))->Some_0);
            if same(rest.take(4), k_exif()) { lemma_cut(s.take(12) + done, rest.take(m), rest.skip(m)); assert(s.take(12) + done + rest =~= s.take(12) + done + rest.take(m) + rest.skip(m)); rest = rest.skip(m); }
            else { assert(s.take(12) + done + rest =~= s.take(12) + (done + rest.take(m)) + rest.skip(m)); assert(done + (rest.take(m) + strip(rest.skip(m))) =~= (done + rest.take(m)) + strip(rest.skip(m))); done = done + rest.take(m); rest = rest.skip(m); }
        }
//# loop 0 after
    proof {
        lemma_first(rest); assert(strip(rest) == rest); let b = strip(t); assert(cursor.inner@ =~= s.take(12) + b);
        assert(cursor.inner@.subrange(4, 8) =~= s.subrange(4, 8)); assert(cursor.inner@.take(4) =~= RIFF_SIGNATURE@);
        reveal(riff); assert(s.subrange(8, 12) == WEBP_SIGNATURE@);
        assert(cursor.inner@.take(4) + enc32((b.len() + 4) as u32, Endian::Little) + cursor.inner@.skip(8) =~= riff(b));
        lemma_body(b);
    }
//# end

pub proof fn lemma_cleared(t: Seq<u8>)
    requires cleared(t) is Some
    ensures ({ let c = cleared(t)->Some_0; parse(c) is Some && c.len() >= 8 && count(c) == 0 && strip(c) == c && c.len() <= t.len() && pre(c.take(4)) && c.take(4) == t.take(4) && size(c) == size(t) })
{
    lemma_first(t); lemma_apart(t.take(4)); lemma_strip(t);
    if !simple(t) { lemma_flag(strip(t), false); assert(with_flag(strip(t), false).take(4) =~= t.take(4)); }
}
pub proof fn lemma_step(c: Seq<u8>)
    requires parse(c) is Some
    ensures c.len() >= 8 ==> 8 + size(c) <= c.len() && utf8(c.take(4)) && size(c) >= 0 && parse(c.skip(8 + size(c))) is Some,
        place(c) == (if c.len() >= 8 && pre(c.take(4)) { 8 + size(c) + place(c.skip(8 + size(c))) } else { 0 })
{ lemma_even(c); }
pub open spec fn is_pre_list(q: Seq<VxString>) -> bool {
    q.len() == 7 && q[0].b@ == k_vp8x() && q[1].b@ == k_vp8() && q[2].b@ == k_vp8l() && q[3].b@ == k_iccp() && q[4].b@ == k_alph() && q[5].b@ == k_anim() && q[6].b@ == k_anmf()
}
pub open spec fn among(q: Seq<VxString>, n: Seq<u8>, k: int) -> bool { exists|j: int| 0 <= j < k && same(#[trigger] q[j].b@, n) }
pub proof fn lemma_among(q: Seq<VxString>, n: Seq<u8>)
    ensures forall|k: int| 0 <= k ==> #[trigger] among(q, n, k + 1) == (among(q, n, k) || same(q[k].b@, n)), !among(q, n, 0), is_pre_list(q) ==> among(q, n, 7) == pre(n)
{
    assert forall|k: int| 0 <= k implies #[trigger] among(q, n, k + 1) == (among(q, n, k) || same(q[k].b@, n)) by { if same(q[k].b@, n) { assert(same(q[k].b@, n)); } }
    if is_pre_list(q) {
        assert(among(q, n, 7) == (same(q[0].b@, n) || same(q[1].b@, n) || same(q[2].b@, n) || same(q[3].b@, n) || same(q[4].b@, n) || same(q[5].b@, n) || same(q[6].b@, n)));
    }
}
pub proof fn lemma_bounds(t: Seq<u8>, s: Seq<u8>, x: Seq<u8>) ensures valid(s) ==> s.len() >= 12, chunk(x).len() <= x.len() + 9, chunk(x).len() >= 8 {}
pub open spec fn put(b: Seq<u8>, at: int, x: Seq<u8>) -> Seq<u8> { b.take(at) + x + b.skip(at) }
pub proof fn lemma_write(c: Seq<u8>, x: Seq<u8>)
    requires parse(c) is Some, x.len() < u32::MAX, c.len() + 4 <= u32::MAX
    ensures ({ let y = put(riff(c), 12 + place(c), chunk(x)); let i = inserted(c, x);
        &&& y.len() == i.len() + 12 &&& y.len() >= 12 &&& dec32(y.subrange(4, 8), Endian::Little) == c.len() + 4 &&& i.len() == c.len() + chunk(x).len()
        &&& (c.len() + 4 + chunk(x).len() <= u32::MAX ==> y.take(4) + enc32((c.len() + 4 + chunk(x).len()) as u32, Endian::Little) + y.skip(8) == riff(i) && valid(riff(i)) && riff(i).len() == i.len() + 12 && riff(i).skip(12) == i)
        &&& parse(i) is Some &&& i.len() >= 8 })
{
    let y = put(riff(c), 12 + place(c), chunk(x)); let i = inserted(c, x);
    lemma_inserted(c, x); lemma_chunk(x); lemma_body(c); lemma_body(i); lemma_enc32((c.len() + 4) as u32);
    assert(y =~= riff(c).take(12) + i);
    assert(y.subrange(4, 8) =~= enc32((c.len() + 4) as u32, Endian::Little));
    if c.len() + 4 + chunk(x).len() <= u32::MAX { assert(y.take(4) + enc32((c.len() + 4 + chunk(x).len()) as u32, Endian::Little) + y.skip(8) =~= riff(i)); }
}
//# fn src/webp/vec.rs write_metadata -> r
//# attr
    #[verifier::allow_complex_invariants]
//# sub /(\w+) \|= ([^;]*==[^;]*);/ => /{ let vx_or = \2; \1 = \1 || vx_or; }/
//# spec
    ensures
        r is Ok <==> valid(old(file_buffer)@) && old(file_buffer)@.len() <= u32::MAX && metadata.encoding() is Some && written(old(file_buffer)@.skip(12), metadata.encoding()->Some_0) is Some,
        r is Ok ==> final(file_buffer)@ == riff(written(old(file_buffer)@.skip(12), metadata.encoding()->Some_0)->Some_0)
//# begin
    hide(riff); hide(with_flag); hide(vp8x); hide(dims); hide(extend); hide(valid); hide(inserted); hide(parse); hide(place); hide(chunk); hide(size); hide(pre); hide(among); hide(is_pre_list);
    let ghost s = file_buffer@; let ghost t = s.skip(12); let ghost c = cleared(t); let ghost mut done = Seq::<u8>::empty(); let ghost mut rest = Seq::<u8>::empty();
    proof { vec_bounded(file_buffer); lemma_bounds(t, s, metadata.encoding()->Some_0); }
//# loop 0 before
    let ghost x = metadata.encoding()->Some_0; let ghost b0 = file_buffer@;
    proof { reveal(is_pre_list); rest = c->Some_0; lemma_cleared(t); lemma_body(rest); lemma_place(rest); lemma_write(rest, x); }
//# loop 0
        invariant_except_break
            read_cursor.p == 12 + done.len(), rest == c->Some_0.skip(done.len() as int), parse(rest) is Some, place(c->Some_0) == done.len() + place(rest), done.len() <= c->Some_0.len(),
        invariant
            read_cursor.inner@ == b0, b0.len() <= maxbuf(), b0 == riff(c->Some_0), b0.skip(12) == c->Some_0, b0.len() == c->Some_0.len() + 12, is_pre_list(pre_exif_chunks@),
        ensures insert_position == 12 + place(c->Some_0)
        decreases c->Some_0.len() - done.len()
//# loop 0 begin
        let ghost d0 = done; let ghost r0 = rest;
        proof { assert(b0.skip((12 + d0.len()) as int) =~= r0); lemma_step(r0);
            if r0.len() >= 8 { done = d0 + r0.take(8 + size(r0)); rest = r0.skip(8 + size(r0)); assert(rest =~= c->Some_0.skip(done.len() as int)); } }
//# loop 1 before
        proof { lemma_among(pre_exif_chunks@, r0.take(4)); }
//# loop 1
        invariant pre_exif_chunks@.len() == 7, chunk_type_found_in_pre_exif_chunks == among(pre_exif_chunks@, r0.take(4), vx_k as int), chunk_descriptor.fourCC.b@ == r0.take(4),
            forall|k: int| 0 <= k ==> #[trigger] among(pre_exif_chunks@, r0.take(4), k + 1) == (among(pre_exif_chunks@, r0.take(4), k) || same(pre_exif_chunks@[k].b@, r0.take(4))),
//# loop 1 begin
        proof { assert(among(pre_exif_chunks@, r0.take(4), vx_k + 1) == (among(pre_exif_chunks@, r0.take(4), vx_k as int) || same(pre_exif_chunks@[vx_k as int].b@, r0.take(4)))); }
//# end


// ===== the properties ==================================================================================================
/// what is left of the old body: everything but its EXIF chunks, in order
pub open spec fn kept_body(t: Seq<u8>) -> Seq<u8> { if extended(t) { strip(t) } else { vp8x(dims(t)->Some_0) + strip(t) } }
proof fn lemma_extended(t: Seq<u8>, x: Seq<u8>)
    requires cleared(t) is Some, x.len() < u32::MAX
    ensures ({ let c = cleared(t)->Some_0; let i = inserted(c, x); &&& parse(i) is Some &&& extended(i) == extended(t) &&& i.len() >= 8 + size(t) &&& size(i) == size(t) &&& i.take(8 + size(t)) == c.take(8 + size(t))
        &&& count(i) == 1 &&& strip(i) == c &&& found(i) == Some(chunk(x).skip(8)) &&& dims(i) == dims(t) &&& strip(t) == (if simple(t) { c } else { strip(t) }) })
{
    let c = cleared(t)->Some_0; let i = inserted(c, x); let m = 8 + size(t);
    lemma_first(t); lemma_strip(t); lemma_apart(t.take(4)); lemma_cleared(t); lemma_inserted(c, x);
    if simple(t) { assert(c == strip(t)); assert(i.subrange(8, m) =~= i.take(m).subrange(8, m)); assert(t.subrange(8, m) =~= t.take(m).subrange(8, m)); }
    else { lemma_same(t.take(4), k_vp8x()); assert(!simple(i)) by { assert(i.take(4) == t.take(4)); } }
}
/// P05, writing: intact chunks, exactly one EXIF chunk that reads back as the payload (with its padding), the flag set, everything else kept in order
pub proof fn theorem_written(t: Seq<u8>, x: Seq<u8>)
    requires written(t, x) is Some, x.len() < u32::MAX, t.len() + 12 <= u32::MAX
    ensures ({ let w = written(t, x)->Some_0;
        &&& parse(w) is Some &&& extended(w) &&& flag_set(w) &&& count(w) == 1 &&& found(w) == Some(x + (if x.len() % 2 != 0 { seq![0u8] } else { Seq::empty() }))
        &&& strip(w) == with_flag(kept_body(t), true) &&& w.len() + 4 <= u32::MAX &&& valid(riff(w)) &&& riff(w).skip(12) == w &&& (w.len() + 12 <= u32::MAX ==> readable(riff(w))) })
{
    let c = cleared(t)->Some_0; let i = inserted(c, x); let e = extend(i)->Some_0; let w = written(t, x)->Some_0;
    lemma_extended(t, x); lemma_chunk(x); lemma_cleared(t); lemma_inserted(c, x); lemma_first(t); lemma_strip(t);
    if extended(t) {
        lemma_apart(t.take(4)); assert(!simple(t));
        lemma_flag(strip(t), false); lemma_flag(e, true);
        let b = strip(t)[8]; assert((b & 0b11110111) | 8 == b | 8) by (bit_vector);
        assert(with_flag(with_flag(strip(t), false), true) =~= with_flag(strip(t), true));
    } else {
        lemma_vp8x(dims(i)->Some_0, i); lemma_flag(e, true);
    }
    lemma_body(w); lemma_first(w);
}
/// P05, clearing: no EXIF chunk is left, the flag is unset, everything else kept in order
pub proof fn theorem_cleared(t: Seq<u8>)
    requires cleared(t) is Some, t.len() + 4 <= u32::MAX
    ensures ({ let c = cleared(t)->Some_0;
        &&& parse(c) is Some &&& count(c) == 0 &&& strip(c) == c &&& c == (if simple(t) { strip(t) } else { with_flag(strip(t), false) }) &&& (extended(c) ==> !flag_set(c)) &&& valid(riff(c)) &&& riff(c).skip(12) == c &&& !readable(riff(c)) &&& cleared(c) == Some(c) })
{
    let c = cleared(t)->Some_0;
    lemma_cleared(t); lemma_first(t); lemma_strip(t); lemma_apart(t.take(4)); lemma_body(c); lemma_apart(c.take(4));
    if !simple(t) { lemma_flag(strip(t), false); lemma_first(strip(t)); lemma_flag(c, false); 
        let b = strip(t)[8]; assert((b & 0b11110111) & 0b11110111 == b & 0b11110111) by (bit_vector); assert(with_flag(c, false) =~= c); }
}
/// P06: the header put in front of a simple image states the dimensions that its bitstream states; the image follows unchanged
pub proof fn theorem_canvas(t: Seq<u8>, x: Seq<u8>)
    requires written(t, x) is Some, simple(t), x.len() < u32::MAX, t.len() + 12 <= u32::MAX
    ensures ({ let w = written(t, x)->Some_0; let m = 8 + size(t);
        &&& dims(t) matches Some(d) && w.len() >= 18 + m && w.take(4) == k_vp8x() && dec32(w.subrange(4, 8), Endian::Little) == 10
            && w[12] + 0x100 * w[13] + 0x10000 * w[14] == d.0 && w[15] + 0x100 * w[16] + 0x10000 * w[17] == d.1
        &&& w.subrange(18, 18 + m) == t.take(m) })
{
    let c = cleared(t)->Some_0; let i = inserted(c, x); let e = extend(i)->Some_0; let w = written(t, x)->Some_0; let m = 8 + size(t);
    lemma_extended(t, x); lemma_cleared(t); lemma_first(t); lemma_apart(t.take(4)); lemma_strip(t);
    let d = dims(i)->Some_0; lemma_vp8x(d, i);
    assert(w =~= with_flag(vp8x(d), true) + i);
    let h = vp8x(d);
    assert(w.take(4) =~= k_vp8x()); assert(w.subrange(4, 8) =~= seq![10u8, 0, 0, 0]); assert(be32(0, 0, 0, 10) == 10);
    assert(w.subrange(18, 18 + m) =~= i.take(m));
    assert(d.0 < 0x4000 && d.1 < 0x4000);
    lemma_low24(d.0); lemma_low24(d.1);
    assert(w[12] == enc32(d.0, Endian::Little)[0] && w[13] == enc32(d.0, Endian::Little)[1] && w[14] == enc32(d.0, Endian::Little)[2]);
    assert(w[15] == enc32(d.1, Endian::Little)[0] && w[16] == enc32(d.1, Endian::Little)[1] && w[17] == enc32(d.1, Endian::Little)[2]);
}
proof fn lemma_low24(v: u32) requires v < 0x1000000 ensures ({ let s = enc32(v, Endian::Little); s[0] + 0x100 * s[1] + 0x10000 * s[2] == v })
{ assert(v % 256 + 0x100 * (v / 256 % 256) + 0x10000 * (v / 0x10000 % 256) == v); }

//# helpers
fn main() {}
}
