//# include prelude.rs
verus! {
use crate::io::*;
use std::collections::VecDeque;
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule &str -> byte-string model /&str\b/ => /&VxString/
//# rule to_string -> contract-bearing /\.to_string\(\)/ => /.vx_to_string()/
//# rule Vec == [u8; N] -> contract-bearing comparison /= (keyword) == (\w+);/ => /= vx_bytes_eq(&\1, &\2);/
//# rule assert_eq! -> proof obligation /\bassert_eq!\(/ => /vx_assert_eq(/
//# rule x.neg() -> -x /\.neg\(\)/ => /.vx_neg()/
//# rule pow -> contract-bearing /\b10_u64\.pow\(/ => /vx_pow10(/
//# rule one-character text to digit -> contract-bearing /\((re_encoded_byte\[\d\]) as char\)\.vx_to_string\(\)\.parse::<u64>\(\)/ => /vx_digit(\1)/
//# rule Vec::from(VecDeque) -> contract-bearing /\bVec::from\(exif_all\)/ => /vx_from_deque(exif_all)/
//# include strings.rs
pub trait VxNeg { spec fn neg_ok(&self) -> bool; fn vx_neg(self) -> (r: Self) where Self: Sized requires self.neg_ok(); }
impl VxNeg for i64 { open spec fn neg_ok(&self) -> bool { *self > i64::MIN } fn vx_neg(self) -> (r: i64) ensures r == -self { -self } }
pub fn vx_assert_eq<T>(a: T, b: T) requires a == b {}
pub fn vx_bytes_eq<A: AsBytes, B: AsBytes>(a: &A, b: &B) -> (r: bool) ensures r == (a.asb() == b.asb())
{
    if a.nbytes() != b.nbytes() { return false; }
    for k in 0..a.nbytes() invariant a.asb().len() == b.asb().len(), forall|i: int| 0 <= i < k ==> a.asb()[i] == b.asb()[i]
    { if a.nth_byte(k) != b.nth_byte(k) { return false; } }
    assert(a.asb() =~= b.asb());
    true
}
// the external crates, as functions of their input
pub uninterp spec fn crc32(s: Seq<u8>) -> u32;
pub const CRC_32_ISO_HDLC: u8 = 0;
pub struct Crc<T> { pub x: T }
impl Crc<u32> {
    #[verifier::external_body]
    pub fn new(a: &u8) -> (r: Crc<u32>) { unimplemented!() }
    #[verifier::external_body]
    pub fn checksum(&self, d: &Vec<u8>) -> (r: u32) ensures r == crc32(d@) { unimplemented!() }
}
pub uninterp spec fn inflated(s: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn deflated(s: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn decompress_to_vec_zlib(d: &[u8]) -> (r: Result<Vec<u8>, ()>)
    ensures r is Ok <==> inflated(d@) is Some, r matches Ok(v) ==> v@ == inflated(d@)->Some_0 { unimplemented!() }
#[verifier::external_body]
pub fn compress_to_vec_zlib(d: &[u8], level: u8) -> (r: Vec<u8>) ensures r@ == deflated(d@) { unimplemented!() }
/// assumed of the zlib implementation: it is lossless, and grows nothing beyond a factor of two and a header
#[verifier::external_body]
pub proof fn axiom_zlib(d: Seq<u8>) ensures inflated(deflated(d)) == Some(d), deflated(d).len() <= 2 * d.len() + 64 {}
pub uninterp spec fn xmp_cleaned(s: Seq<u8>) -> Option<Seq<u8>>;
/// the XMP rewriter (P23); assumed: the rewritten text is below 1 GB
#[verifier::external_body]
pub fn remove_exif_from_xmp(d: &Vec<u8>) -> (r: Result<Vec<u8>, ()>)
    ensures r is Ok <==> xmp_cleaned(d@) is Some, r matches Ok(v) ==> v@ == xmp_cleaned(d@)->Some_0 && v@.len() <= 0x3fff_ffff { unimplemented!() }

// ===== vocabulary ===================================================================================================
//# item src/png/mod.rs const PNG_SIGNATURE
//# item src/png/mod.rs const RAW_PROFILE_TYPE_EXIF
//# item src/png/mod.rs const XML_COM_ADOBE_XMP
pub open spec fn n_IEND() -> Seq<u8> { seq![0x49, 0x45, 0x4e, 0x44] }
pub open spec fn n_eXIf() -> Seq<u8> { seq![0x65, 0x58, 0x49, 0x66] }
pub open spec fn n_tEXt() -> Seq<u8> { seq![0x74, 0x45, 0x58, 0x74] }
pub open spec fn n_zTXt() -> Seq<u8> { seq![0x7a, 0x54, 0x58, 0x74] }
pub open spec fn n_iTXt() -> Seq<u8> { seq![0x69, 0x54, 0x58, 0x74] }

pub struct ChunkAt { pub name: Seq<u8>, pub l: int }
/// the chunk at p: length, name, content, and a CRC that is right; None: there is none
pub open spec fn chunk_at(s: Seq<u8>, p: int) -> Option<ChunkAt> {
    if p < 0 || p + 12 > s.len() { None } else {
        let l = be32at(s, p) as int;
        if p + 12 + l > s.len() || !utf8(s.subrange(p + 4, p + 8)) || crc32(s.subrange(p + 4, p + 8 + l)) != be32at(s, p + 8 + l) { None }
        else { Some(ChunkAt { name: s.subrange(p + 4, p + 8), l }) }
    }
}
pub open spec fn content(s: Seq<u8>, p: int) -> Seq<u8> { s.subrange(p + 8, p + 8 + be32at(s, p)) }
/// the chunks from p up to the end chunk; None: some chunk is broken or there is no end chunk
pub open spec fn walk(s: Seq<u8>, p: int) -> Option<Seq<ChunkAt>>
    decreases avail(s.len() as int, p)
{
    match chunk_at(s, p) {
        None => None,
        Some(c) => if c.name == n_IEND() { Some(seq![c]) }
                   else { match walk(s, p + 12 + c.l) { None => None, Some(r) => Some(seq![c] + r) } },
    }
}
/// index of the first NUL from i on, or the length
pub open spec fn nul(d: Seq<u8>, i: int) -> int decreases d.len() - i { if i < 0 || i >= d.len() || d[i] == 0 { i } else { nul(d, i + 1) } }
pub open spec fn kw(d: Seq<u8>) -> Seq<u8> { d.subrange(0, nul(d, 0)) }
pub open spec fn is_text(name: Seq<u8>) -> bool { name == n_tEXt() || name == n_zTXt() || name == n_iTXt() }
pub open spec fn is_exif_chunk(name: Seq<u8>, d: Seq<u8>) -> bool { name == n_eXIf() || is_text(name) && kw(d) == RAW_PROFILE_TYPE_EXIF@ }
pub open spec fn is_xmp_chunk(name: Seq<u8>, d: Seq<u8>) -> bool { is_text(name) && kw(d) == XML_COM_ADOBE_XMP@ }
/// where language tag, translated keyword and text of an iTXt chunk start
pub open spec fn itxt_lang(d: Seq<u8>) -> int { nul(d, 0) + 3 }
pub open spec fn itxt_trans(d: Seq<u8>) -> int { nul(d, itxt_lang(d)) + 1 }
pub open spec fn itxt_text(d: Seq<u8>) -> int { nul(d, itxt_trans(d)) + 1 }
pub open spec fn itxt_ok(d: Seq<u8>) -> bool { itxt_lang(d) <= d.len() && itxt_trans(d) <= d.len() && itxt_text(d) <= d.len() }
/// the text of a text chunk, decompressed
pub open spec fn text_of(name: Seq<u8>, d: Seq<u8>) -> Option<Seq<u8>> {
    let k = nul(d, 0);
    if name == n_tEXt() { if k + 1 <= d.len() { Some(d.skip(k + 1)) } else { None } }
    else if name == n_zTXt() { if k + 2 <= d.len() && d[k + 1] == 0 { inflated(d.skip(k + 2)) } else { None } }
    else if name == n_iTXt() {
        if !itxt_ok(d) { None }
        else if d[k + 1] == 0 { Some(d.skip(itxt_text(d))) }
        else if d[k + 2] == 0 { inflated(d.skip(itxt_text(d))) }
        else { None }
    } else { None }
}
/// the same text chunk with another text
pub open spec fn with_text(name: Seq<u8>, d: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>> {
    let k = nul(d, 0);
    if name == n_tEXt() { Some(d.take(k) + seq![0u8] + t) }
    else if name == n_zTXt() { if k + 2 <= d.len() && d[k + 1] == 0 { Some(d.take(k) + seq![0u8, 0u8] + deflated(t)) } else { None } }
    else if name == n_iTXt() {
        if !(itxt_lang(d) <= d.len() && itxt_trans(d) <= d.len()) { None } else {
            let head = d.take(nul(d, itxt_trans(d))) + seq![0u8];
            if d[k + 1] == 0 { Some(head + t) } else if d[k + 2] == 0 { Some(head + deflated(t)) } else { None }
        }
    } else { None }
}
/// a chunk: length, name, content, CRC
pub open spec fn chunk(name: Seq<u8>, d: Seq<u8>) -> Seq<u8> {
    enc32(d.len() as u32, Endian::Big) + name + d + enc32(crc32(name + d), Endian::Big)
}
/// what clearing makes of the chunk at p
pub open spec fn own(s: Seq<u8>, p: int, c: ChunkAt) -> Option<Seq<u8>> {
    let d = content(s, p);
    if is_exif_chunk(c.name, d) { Some(Seq::empty()) }
    else if is_xmp_chunk(c.name, d) {
        match text_of(c.name, d) { None => None, Some(t) => match xmp_cleaned(t) { None => None, Some(t2) => match with_text(c.name, d, t2) {
            None => None, Some(d2) => Some(chunk(c.name, d2)) } } }
    }
    else { Some(s.subrange(p, p + 12 + c.l)) }
}
/// what clearing makes of everything from p on
pub open spec fn cleared(s: Seq<u8>, p: int) -> Option<Seq<u8>>
    decreases avail(s.len() as int, p)
{
    match chunk_at(s, p) {
        None => None,
        Some(c) => match own(s, p, c) {
            None => None,
            Some(o) => if c.name == n_IEND() { Some(o + s.skip(p + 12 + c.l)) }
                       else { match cleared(s, p + 12 + c.l) { None => None, Some(r) => Some(o + r) } },
        },
    }
}
pub open spec fn is_png(s: Seq<u8>) -> bool { PNG_SIGNATURE@.is_prefix_of(s) }
pub open spec fn png_cleared(s: Seq<u8>) -> Option<Seq<u8>> {
    if !is_png(s) || walk(s, 8) is None { None } else { match cleared(s, 8) { None => None, Some(r) => Some(s.take(8) + r) } }
}
//# item @png/chunk enum PngChunk
impl PngChunk {
    pub open spec fn nm(&self) -> Seq<u8> { match self {
        PngChunk::UNKNOWN(n, _) => n.b@,
//# variants @png/chunk PngChunk -UNKNOWN /        PngChunk::$V(_) => seq![$L],/
    } }
    pub open spec fn ln(&self) -> int { match self {
        PngChunk::UNKNOWN(_, l) => *l as int,
//# variants @png/chunk PngChunk -UNKNOWN /        PngChunk::$V(l) => *l as int,/
    } }
//# fn @png/chunk length in PngChunk -> r
//# spec
    ensures r == self.ln()
//# end
//# fn @png/chunk as_string in PngChunk -> r
//# spec
    ensures r.b@ == self.nm()
//# end
//# fn @png/chunk from_string in PngChunk -> r
//# spec
    ensures r matches Ok(c) ==> c.nm() == string_name.b@ && c.ln() == length,
        r matches Err(c) ==> c.nm() == string_name.b@ && c.ln() == length,
//# end
}
// ===== functions under contract =====================================================================================
//# include util_read.rs
//# fn src/png/mod.rs check_signature -> r
//# spec
    ensures r is Ok <==> is_png(file_buffer@), r matches Ok(c) ==> c.inner == file_buffer && c.p == 8,
//# end
//# fn src/png/read.rs read_chunk_length -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> old(cursor).pos() + 4 <= old(cursor).bytes().len() && final(cursor).pos() == old(cursor).pos() + 4
            && v == be32at(old(cursor).bytes(), old(cursor).pos()),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# end
//# fn src/png/read.rs read_chunk_name -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> old(cursor).pos() + 4 <= old(cursor).bytes().len() && final(cursor).pos() == old(cursor).pos() + 4
            && v.b@ == old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + 4) && utf8(v.b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len()
            || !utf8(old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + 4)),
//# end
//# fn src/png/read.rs read_chunk_data -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> final(cursor).pos() == old(cursor).pos() + chunk_length && (chunk_length > 0 ==> final(cursor).pos() <= old(cursor).bytes().len())
            && v@ == (if chunk_length == 0 { Seq::empty() } else { old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + chunk_length) }),
        old(cursor).faultless() && r is Err ==> chunk_length > 0 && old(cursor).pos() + chunk_length > old(cursor).bytes().len(),
//# end
//# fn src/png/read.rs read_chunk_crc -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> old(cursor).pos() + 4 <= old(cursor).bytes().len() && final(cursor).pos() == old(cursor).pos() + 4
            && b@ =~= old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + 4),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# end
pub proof fn lemma_be_bytes(c: u32)
    ensures
        (c >> ((8 * (3 - 0)) as u32)) as u8 == (c / 0x1000000) as u8,
        (c >> ((8 * (3 - 1)) as u32)) as u8 == (c / 0x10000 % 256) as u8,
        (c >> ((8 * (3 - 2)) as u32)) as u8 == (c / 256 % 256) as u8,
        (c >> ((8 * (3 - 3)) as u32)) as u8 == (c % 256) as u8,
{
    assert((c >> 24u32) as u8 == (c / 0x1000000) as u8) by (bit_vector);
    assert((c >> 16u32) as u8 == (c / 0x10000 % 256) as u8) by (bit_vector);
    assert((c >> 8u32) as u8 == (c / 256 % 256) as u8) by (bit_vector);
    assert((c >> 0u32) as u8 == (c % 256) as u8) by (bit_vector);
}
//# fn src/png/mod.rs get_next_chunk_descriptor -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> chunk_at(old(cursor).bytes(), old(cursor).pos()) == Some(ChunkAt { name: v.nm(), l: v.ln() })
            && final(cursor).pos() == old(cursor).pos() + 12 + v.ln(),
        old(cursor).faultless() && r is Err ==> chunk_at(old(cursor).bytes(), old(cursor).pos()) is None,
//# loop 0 before
    let ghost (s, p, l) = (cursor.bytes(), old(cursor).pos(), chunk_length as int);
    proof {
        assert(crc_input@ =~= s.subrange(p + 4, p + 8 + l));
        assert(chunk_crc@ =~= s.subrange(p + 8 + l, p + 12 + l));
        assert(forall|k: int| 0 <= k < 4 ==> chunk_crc@[k] == s[p + 8 + l + k]);
        lemma_be_u32(checksum, chunk_crc@);
    }
//# loop 0 after
    proof { assert(chunk_crc@ =~= enc32(checksum, Endian::Big)); }
//# loop 0
        invariant kept(old(cursor), cursor),
            chunk_crc@.len() == 4, s == old(cursor).bytes(), p == old(cursor).pos(), 0 <= p, 0 <= l, p + 12 + l <= s.len(), l == be32at(s, p),
            checksum == crc32(s.subrange(p + 4, p + 8 + l)), forall|k: int| 0 <= k < 4 ==> chunk_crc@[k] == s[p + 8 + l + k],
            be32(chunk_crc@[0], chunk_crc@[1], chunk_crc@[2], chunk_crc@[3]) == checksum <==> chunk_crc@ =~= enc32(checksum, Endian::Big),
            forall|k: int| 0 <= k < i ==> chunk_crc@[k] == enc32(checksum, Endian::Big)[k],
//# loop 0 begin
        proof { lemma_be_bytes(checksum); if be32at(s, p + 8 + l) == checksum { assert(chunk_crc@[i as int] == enc32(checksum, Endian::Big)[i as int]); } }
//# end
pub proof fn lemma_be32(v: u32)
    ensures ({ let b = enc32(v, Endian::Big); be32(b[0], b[1], b[2], b[3]) == v })
{
    assert(((v / 0x1000000) * 256 + v / 0x10000 % 256) * 256 + v / 256 % 256 == v / 256) by (bit_vector);
    assert((v / 256) * 256 + v % 256 == v);
}
pub proof fn lemma_be_u32(v: u32, b: Seq<u8>)
    requires b.len() == 4,
    ensures be32(b[0], b[1], b[2], b[3]) == v <==> b =~= enc32(v, Endian::Big),
{
    lemma_be32(v);
    let w = be32(b[0], b[1], b[2], b[3]);
    let (a0, a1, a2, a3) = (b[0] as u32, b[1] as u32, b[2] as u32, b[3] as u32);
    assert(w == ((a0 * 256 + a1) * 256 + a2) * 256 + a3);
    assert(a0 < 256 && a1 < 256 && a2 < 256 && a3 < 256 ==> {
        let w = ((a0 * 256 + a1) * 256 + a2) * 256 + a3;
        w / 0x1000000 == a0 && w / 0x10000 % 256 == a1 && w / 256 % 256 == a2 && w % 256 == a3 }) by (bit_vector);
}

// ---- text chunks -----------------------------------------------------------------------------------------------------
pub proof fn lemma_nul(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(),
    ensures i <= nul(d, i) <= d.len(), forall|k: int| i <= k < nul(d, i) ==> d[k] != 0, nul(d, i) < d.len() ==> d[nul(d, i)] == 0,
    decreases d.len() - i
{ if i < d.len() && d[i] != 0 { lemma_nul(d, i + 1); } }
pub proof fn lemma_nul_is(d: Seq<u8>, i: int, e: int)
    requires 0 <= i <= e <= d.len(), forall|k: int| i <= k < e ==> d[k] != 0, e < d.len() ==> d[e] == 0,
    ensures nul(d, i) == e,
    decreases e - i
{ if i < e { lemma_nul_is(d, i + 1, e); } }
pub proof fn lemma_nul_skip(d: Seq<u8>, i: int)
    requires 0 <= i <= d.len(),
    ensures nul(d.skip(i), 0) == nul(d, i) - i, kw(d.skip(i)) =~= d.subrange(i, nul(d, i)),
{ lemma_nul(d, i); lemma_nul_is(d.skip(i), 0, nul(d, i) - i); }
//# fn src/png/text.rs get_keyword_from_text_chunk -> r
//# attr
    #[verifier::allow_complex_invariants]
//# spec
    ensures r@ == kw(chunk_data@), r@.len() == nul(chunk_data@, 0),
//# begin
    proof { lemma_nul(chunk_data@, 0); }
//# loop 0 iter
    it
//# loop 0
        invariant_except_break keyword_buffer@.len() == it.index@,
        invariant it.seq().len() == chunk_data@.len(), forall|k: int| 0 <= k < chunk_data@.len() ==> *(#[trigger] it.seq()[k]) == chunk_data@[k],
            keyword_buffer@.len() <= chunk_data@.len(),
            forall|k: int| 0 <= k < keyword_buffer@.len() ==> chunk_data@[k] != 0,
            keyword_buffer@ =~= chunk_data@.take(keyword_buffer@.len() as int),
        ensures keyword_buffer@.len() < chunk_data@.len() ==> chunk_data@[keyword_buffer@.len() as int] == 0,
//# loop 0 after
    proof { lemma_nul_is(chunk_data@, 0, keyword_buffer@.len() as int); assert(keyword_buffer@ =~= kw(chunk_data@)); }
//# end
//# fn src/png/text.rs get_remaining_data -> r
//# spec
    ensures r is Ok <==> data_start <= chunk_data@.len(), r matches Ok(d) ==> d@ == chunk_data@.skip(data_start as int),
//# end
//# fn src/png/text.rs check_zTXt_compression_method -> r
//# spec
    requires keyword_length <= chunk_data@.len(),
    ensures r is Ok <==> keyword_length + 2 <= chunk_data@.len() && chunk_data@[keyword_length + 1] == 0,
//# begin
    proof { slice_bounded(chunk_data); }
//# end
//# fn src/png/text.rs get_info_about_iTXt_chunk -> r
//# spec
    ensures r is Ok <==> itxt_lang(chunk_data@) <= chunk_data@.len() && itxt_trans(chunk_data@) <= chunk_data@.len(),
        r matches Ok(x) ==> ({ let d = chunk_data@;
            &&& x.0 == d[nul(d, 0) + 1] && x.1 == d[nul(d, 0) + 2]
            &&& x.2@ == kw(d) && x.2@.len() == nul(d, 0)
            &&& x.3@ == d.subrange(itxt_lang(d), nul(d, itxt_lang(d))) && x.3@.len() == nul(d, itxt_lang(d)) - itxt_lang(d)
            &&& x.4@ == d.subrange(itxt_trans(d), nul(d, itxt_trans(d))) && x.4@.len() == nul(d, itxt_trans(d)) - itxt_trans(d) }),
//# begin
    proof { slice_bounded(chunk_data); let d = chunk_data@; lemma_nul(d, 0);
        if itxt_lang(d) <= d.len() { lemma_nul(d, itxt_lang(d)); lemma_nul_skip(d, itxt_lang(d));
            if itxt_trans(d) <= d.len() { lemma_nul(d, itxt_trans(d)); lemma_nul_skip(d, itxt_trans(d)); } } }
//# end
//# fn src/png/text.rs get_data_from_text_chunk -> r
//# spec
    ensures r is Ok <==> text_of(chunk_name.b@, chunk_data@) is Some, r matches Ok(v) ==> v@ == text_of(chunk_name.b@, chunk_data@)->Some_0,
//# begin
    proof { slice_bounded(chunk_data); let d = chunk_data@; lemma_nul(d, 0);
        if itxt_lang(d) <= d.len() { lemma_nul(d, itxt_lang(d)); if itxt_trans(d) <= d.len() { lemma_nul(d, itxt_trans(d)); } } }
//# end
//# fn src/png/text.rs construct_similar_with_new_data -> r
//# spec
    ensures r is Ok <==> with_text(chunk_name.b@, old_chunk_data@, new_data@) is Some,
        r matches Ok(v) ==> v@ == with_text(chunk_name.b@, old_chunk_data@, new_data@)->Some_0,
//# begin
    proof { slice_bounded(old_chunk_data); let d = old_chunk_data@; lemma_nul(d, 0);
        assert(kw(d) =~= d.take(nul(d, 0)));
        let k = nul(d, 0);
        assert(d.take(k) + seq![0u8] + seq![0u8] =~= d.take(k) + seq![0u8, 0u8]);
        if itxt_lang(d) <= d.len() { lemma_nul(d, itxt_lang(d)); if itxt_trans(d) <= d.len() { lemma_nul(d, itxt_trans(d));
            assert(d.take(nul(d, itxt_trans(d))) + seq![0u8] =~= d.take(k).push(0u8).push(d[k + 1]).push(d[k + 2]) + d.subrange(itxt_lang(d), nul(d, itxt_lang(d)))
                + seq![0u8] + d.subrange(itxt_trans(d), nul(d, itxt_trans(d))) + seq![0u8]);
        } } }
//# end

// ---- the chunk walk ------------------------------------------------------------------------------------------------------
pub open spec fn views(c: Seq<PngChunk>) -> Seq<ChunkAt> { Seq::new(c.len(), |i: int| ChunkAt { name: c[i].nm(), l: c[i].ln() }) }
pub proof fn lemma_step(s: Seq<u8>, p: int)
    ensures match chunk_at(s, p) {
        None => walk(s, p) is None && cleared(s, p) is None,
        Some(c) => {
            &&& 0 <= p && p + 12 + c.l <= s.len() && c.l == be32at(s, p) && c.name == s.subrange(p + 4, p + 8)
            &&& own(s, p, c) is None ==> cleared(s, p) is None
            &&& c.name == n_IEND() ==> walk(s, p) == Some(seq![c]) && own(s, p, c) == Some(s.subrange(p, p + 12 + c.l))
                    && cleared(s, p) == Some(s.subrange(p, p + 12 + c.l) + s.skip(p + 12 + c.l))
            &&& c.name != n_IEND() ==> (walk(s, p + 12 + c.l) is None ==> walk(s, p) is None)
                    && (walk(s, p + 12 + c.l) matches Some(r) ==> walk(s, p) == Some(seq![c] + r))
                    && (cleared(s, p + 12 + c.l) is None ==> cleared(s, p) is None)
                    && (own(s, p, c) matches Some(o) ==> (cleared(s, p + 12 + c.l) matches Some(r) ==> cleared(s, p) == Some(o + r)))
        }
    }
{
    lemma_names();
}
pub proof fn lemma_names()
    ensures n_IEND() != n_eXIf(), n_IEND() != n_tEXt(), n_IEND() != n_zTXt(), n_IEND() != n_iTXt(), n_eXIf() != n_tEXt(), n_eXIf() != n_zTXt(), n_eXIf() != n_iTXt(),
        RAW_PROFILE_TYPE_EXIF@ != XML_COM_ADOBE_XMP@,
{
    assert(n_IEND()[0] == 0x49 && n_eXIf()[0] == 0x65 && n_tEXt()[0] == 0x74 && n_zTXt()[0] == 0x7a && n_iTXt()[0] == 0x69);
    assert(n_IEND()[1] == 0x45 && n_iTXt()[1] == 0x54);
    assert(RAW_PROFILE_TYPE_EXIF@.len() == 21 && XML_COM_ADOBE_XMP@.len() == 17);
}
//# fn src/png/mod.rs generic_parse_png -> r
//# attr
    #[verifier::allow_complex_invariants]
//# spec
    requires 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> walk(old(cursor).bytes(), old(cursor).pos()) == Some(views(v@)) && v@.len() > 0,
        old(cursor).faultless() && r is Err ==> walk(old(cursor).bytes(), old(cursor).pos()) is None,
//# loop 0
        invariant_except_break
            walk(cursor.bytes(), cursor.pos()) matches Some(r) ==> walk(cursor.bytes(), old(cursor).pos()) == Some(views(chunks@) + r),
            walk(cursor.bytes(), cursor.pos()) is None ==> walk(cursor.bytes(), old(cursor).pos()) is None,
        invariant
            kept(old(cursor), cursor), 0 <= cursor.pos(), 0 <= old(cursor).pos(),
        ensures walk(old(cursor).bytes(), old(cursor).pos()) == Some(views(chunks@)), chunks@.len() > 0,
        decreases avail(cursor.bytes().len() as int, cursor.pos())
//# loop 0 begin
        let ghost (s, p, c0) = (cursor.bytes(), cursor.pos(), chunks@);
        proof { lemma_step(s, p); assert(views(c0) + Seq::<ChunkAt>::empty() =~= views(c0)); }
//# after /chunks\.push\(chunk_descriptor\);/
        proof {
            let c = chunk_at(s, p)->Some_0;
            assert(views(chunks@) =~= views(c0) + seq![c]);
            if walk(s, p + 12 + c.l) is Some { let r = walk(s, p + 12 + c.l)->Some_0; assert(views(c0) + (seq![c] + r) =~= views(chunks@) + r); }
        }
//# end
//# fn src/png/mod.rs vec_parse_png -> r
//# spec
    ensures r matches Ok(v) ==> is_png(file_buffer@) && walk(file_buffer@, 8) == Some(views(v@)) && v@.len() > 0,
        r is Err ==> !is_png(file_buffer@) || walk(file_buffer@, 8) is None,
//# end
//# include util_remove.rs
//# fn src/png/mod.rs remove_chunk_at -> r
//# spec
    requires old(cursor).p + 12 <= old(cursor).inner@.len(), old(cursor).p + 12 + be32at(old(cursor).inner@, old(cursor).p as int) <= old(cursor).inner@.len(),
    ensures final(cursor).rest() == old(cursor).rest(),
        r is Ok, final(cursor).p == old(cursor).p,
        final(cursor).inner@ == cut(old(cursor).inner@, old(cursor).p as int, old(cursor).p + 12 + be32at(old(cursor).inner@, old(cursor).p as int)),
//# begin
    proof { vec_bounded(cursor.inner); }
//# end
//# fn src/png/mod.rs write_chunk -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), chunk_data@.len() <= u32::MAX, chunk_name.b@.len() == 4, old(cursor).faultless(), old(cursor).writable(),
        old(cursor).bytes().len() <= maxbuf(),
    ensures final(cursor).rest() == old(cursor).rest(), r is Ok,
        final(cursor).bytes() == old(cursor).bytes().take(old(cursor).pos()) + chunk(chunk_name.b@, chunk_data@) + old(cursor).bytes().skip(old(cursor).pos()),
        final(cursor).pos() == old(cursor).pos() + 12 + chunk_data@.len(),
//# begin
    let ghost (s0, p0) = (cursor.bytes(), cursor.pos());
//# loop 0 before
    let ghost d0 = data@;
//# loop 0
        invariant data@ =~= d0 + enc32(checksum, Endian::Big).take(i as int),
            cursor.bytes() == s0, cursor.pos() == p0, cursor.faultless(), cursor.rest() == old(cursor).rest(),
//# loop 0 begin
        proof { lemma_be_bytes(checksum); }
//# loop 1
        invariant cursor.bytes() =~= overwrite(s0, p0, enc32(chunk_data_len, Endian::Big).take(i as int)), cursor.pos() == p0 + i, 0 <= p0 <= s0.len(),
            cursor.faultless(), cursor.writable(), cursor.rest() == old(cursor).rest(),
//# loop 1 begin
        proof { lemma_be_bytes(chunk_data_len); assert([(chunk_data_len >> (8 * (3-i))) as u8]@.take(1) =~= seq![(chunk_data_len >> (8 * (3-i))) as u8]); }
//# end

/// assumed: rewritten XMP chunks stay below the 4 GB a chunk can hold
#[verifier::external_body]
pub proof fn axiom_xmp_size(name: Seq<u8>, d: Seq<u8>, t: Seq<u8>)
    ensures with_text(name, d, t) matches Some(x) ==> x.len() <= 0xffff_ffff {}
/// what a chunk is depends on the bytes from its position on only
pub proof fn lemma_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int)
    requires 0 <= p <= s.len(), 0 <= q <= t.len(), s.skip(p) == t.skip(q),
    ensures chunk_at(s, p) == chunk_at(t, q), s.len() - p == t.len() - q,
        chunk_at(s, p) is Some ==> content(s, p) == content(t, q) && own(s, p, chunk_at(s, p)->Some_0) == own(t, q, chunk_at(s, p)->Some_0) && be32at(s, p) == be32at(t, q),
{
    assert(s.len() - p == s.skip(p).len());
    assert(t.len() - q == t.skip(q).len());
    assert(forall|a: int, b: int| 0 <= a <= b <= s.len() - p ==> #[trigger] s.skip(p).subrange(a, b) =~= s.subrange(p + a, p + b));
    assert(forall|a: int, b: int| 0 <= a <= b <= t.len() - q ==> #[trigger] t.skip(q).subrange(a, b) =~= t.subrange(q + a, q + b));
    assert(forall|k: int| 0 <= k < s.len() - p ==> s[p + k] == #[trigger] s.skip(p)[k]);
    assert(forall|k: int| 0 <= k < s.len() - p ==> t[q + k] == #[trigger] t.skip(q)[k]);
    if p + 12 <= s.len() {
        let u = s.skip(p);
        assert(be32at(s, p) == be32at(u, 0)); assert(be32at(t, q) == be32at(u, 0));
        let l = be32at(u, 0) as int;
        if p + 12 + l <= s.len() {
            assert(be32at(s, p + 8 + l) == be32at(u, 8 + l)); assert(be32at(t, q + 8 + l) == be32at(u, 8 + l));
            assert(u.subrange(4, 8) == s.subrange(p + 4, p + 8)); assert(u.subrange(4, 8) == t.subrange(q + 4, q + 8));
            assert(u.subrange(4, 8 + l) == s.subrange(p + 4, p + 8 + l)); assert(u.subrange(4, 8 + l) == t.subrange(q + 4, q + 8 + l));
            assert(u.subrange(8, 8 + l) == s.subrange(p + 8, p + 8 + l)); assert(u.subrange(8, 8 + l) == t.subrange(q + 8, q + 8 + l));
            assert(u.subrange(0, 12 + l) == s.subrange(p, p + 12 + l)); assert(u.subrange(0, 12 + l) == t.subrange(q, q + 12 + l));
        }
    }
}
//# fn src/png/mod.rs clear_exif_from_xmp_metadata -> r
//# spec
    requires
        chunk_at(old(cursor).bytes(), old(cursor).pos()) is Some, chunk_data@ == content(old(cursor).bytes(), old(cursor).pos()),
        is_xmp_chunk(chunk_at(old(cursor).bytes(), old(cursor).pos())->Some_0.name, chunk_data@),
        !is_exif_chunk(chunk_at(old(cursor).bytes(), old(cursor).pos())->Some_0.name, chunk_data@),
    ensures final(cursor).rest() == old(cursor).rest(),
        ({ let (s, p, o) = (old(cursor).bytes(), old(cursor).pos(), own(old(cursor).bytes(), old(cursor).pos(), chunk_at(old(cursor).bytes(), old(cursor).pos())->Some_0));
           &&& r is Ok <==> o is Some
           &&& r is Ok ==> final(cursor).bytes() == s.take(p) + o->Some_0 + s.skip(p + 12 + be32at(s, p)) && final(cursor).pos() == p + o->Some_0.len() }),
//# begin
    let ghost (s, p) = (cursor.bytes(), cursor.pos());
    proof { vec_bounded(cursor.inner); slice_bounded(chunk_data); }
//# after /remove_chunk_at\(cursor\)\?;/
    proof { vec_bounded(cursor.inner); axiom_xmp_size(chunk_name.b@, chunk_data@, clean_xmp_data@);
        let e = p + 12 + be32at(s, p);
        let k = cut(s, p, e);
        assert(k.take(p) =~= s.take(p)); assert(k.skip(p) =~= s.skip(e)); }
//# end
/// one round of clearing: f is what has been produced so far (out) followed by the rest of the input
pub proof fn lemma_clear_step(s0: Seq<u8>, q: int, out: Seq<u8>, f: Seq<u8>, w: Seq<ChunkAt>)
    requires 8 <= q <= s0.len(), out.len() >= 8, f == out + s0.skip(q), walk(s0, q) == Some(w),
    ensures ({ let c = w[0]; let o = own(s0, q, c); let e = q + 12 + c.l; let p = out.len() as int;
        &&& w.len() > 0 && 0 <= c.l && e <= s0.len() && chunk_at(s0, q) == Some(c) && chunk_at(f, p) == Some(c) && c.l == be32at(f, p) && c.name == f.subrange(p + 4, p + 8)
        &&& content(f, p) == f.subrange(p + 8, p + 8 + c.l) && own(f, p, c) == o && f.len() == p + s0.len() - q
        &&& cut(f, p, p + 12 + c.l) == out + s0.skip(e)
        &&& o is None ==> cleared(s0, q) is None
        &&& is_exif_chunk(c.name, content(f, p)) ==> o == Some(Seq::<u8>::empty()) && out + Seq::<u8>::empty() == out
        &&& !is_exif_chunk(c.name, content(f, p)) && !is_xmp_chunk(c.name, content(f, p)) ==> o is Some && out + o->Some_0 + s0.skip(e) == f && o->Some_0.len() == 12 + c.l
        &&& o matches Some(x) ==> {
            &&& f.take(p) + x + f.skip(p + 12 + c.l) == (out + x) + s0.skip(e) && (out + x).take(8) == out.take(8) && (out + x).len() == p + x.len()
            &&& w.len() == 1 ==> cleared(s0, q) == Some(x + s0.skip(e)) && out.skip(8) + (x + s0.skip(e)) == (out + x).skip(8) + s0.skip(e)
            &&& w.len() > 1 ==> walk(s0, e) == Some(w.skip(1)) && (cleared(s0, e) is None ==> cleared(s0, q) is None)
                && (cleared(s0, e) matches Some(r) ==> cleared(s0, q) == Some(x + r) && out.skip(8) + (x + r) == (out + x).skip(8) + r)
        } }),
{
    hide(walk); hide(cleared); hide(nul); hide(text_of); hide(with_text);
    lemma_step(s0, q); lemma_names();
    let c = chunk_at(s0, q)->Some_0;
    let (o, e, p) = (own(s0, q, c), q + 12 + c.l, out.len() as int);
    assert(f.skip(p) =~= s0.skip(q));
    lemma_local(s0, q, f, p);
    assert(w[0] == c);
    assert(cut(f, p, p + 12 + c.l) =~= out + s0.skip(e));
    assert(f.take(p) =~= out);
    assert(f.skip(p + 12 + c.l) =~= s0.skip(e));
    assert(out + s0.subrange(q, e) + s0.skip(e) =~= f);
    assert(out + Seq::<u8>::empty() =~= out);
    if let Some(x) = o {
        assert((out + x).take(8) =~= out.take(8));
        assert((out + x).skip(8) =~= out.skip(8) + x);
        if c.name == n_IEND() {
            assert(w =~= seq![c]);
            assert(out.skip(8) + (x + s0.skip(e)) =~= (out + x).skip(8) + s0.skip(e));
        } else {
            lemma_step(s0, e);
            let t = walk(s0, e)->Some_0;
            assert(w == seq![c] + t);
            assert(w.skip(1) =~= t);
            if let Some(r) = cleared(s0, e) { assert(out.skip(8) + (x + r) =~= (out + x).skip(8) + r); }
        }
    }
}
//# fn src/png/mod.rs clear_metadata -> r
//# spec
    ensures r is Ok <==> png_cleared(old(file_buffer)@) is Some,
        r is Ok ==> final(file_buffer)@ == png_cleared(old(file_buffer)@)->Some_0,
//# begin
    hide(walk); hide(cleared); hide(nul); hide(text_of); hide(with_text); hide(own); hide(chunk_at); hide(content);
    let ghost s0 = file_buffer@;
    let ghost mut q: int = 8;
    let ghost mut out: Seq<u8> = s0.take(8);
//# loop 0 before
    proof { assert(out + s0.skip(q) =~= s0); assert(out.skip(8) =~= Seq::empty()); 
        if cleared(s0, 8) is Some { assert(out.skip(8) + cleared(s0, 8)->Some_0 =~= cleared(s0, 8)->Some_0); }
        assert(views(parse_png_result@).skip(0) =~= views(parse_png_result@)); }
//# loop 0
        invariant
            s0 == old(file_buffer)@, is_png(s0), walk(s0, 8) is Some,
            vx_e0@ == parse_png_result@, vx_i0 <= vx_e0@.len(), 8 <= q <= s0.len(),
            out.len() >= 8, out.take(8) =~= s0.take(8),
            vx_i0 < vx_e0@.len() ==> walk(s0, q) == Some(views(vx_e0@).skip(vx_i0 as int)),
            cursor.bytes() == out + s0.skip(q), cursor.pos() == out.len(), cursor.rest() == final(file_buffer)@,
            vx_i0 < vx_e0@.len() ==> (cleared(s0, q) is None ==> cleared(s0, 8) is None),
            vx_i0 < vx_e0@.len() ==> (cleared(s0, q) matches Some(r) ==> cleared(s0, 8) == Some(out.skip(8) + r)),
            vx_i0 == vx_e0@.len() ==> cleared(s0, 8) == Some(out.skip(8) + s0.skip(q)),
        decreases vx_e0@.len() - vx_i0
//# loop 0 begin
        let ghost (q0, out0, f0) = (q, out, cursor.bytes());
        let ghost c = views(vx_e0@).skip(vx_i0 as int)[0];
        let ghost o = own(s0, q0, c);
        proof {
            let k = vx_i0 as int;
            lemma_clear_step(s0, q0, out0, f0, views(vx_e0@).skip(k));
            vec_bounded(cursor.inner);
            q = q0 + 12 + c.l;
            if o is Some { out = out0 + o->Some_0; }
            assert(views(vx_e0@).skip(k)[0] == views(vx_e0@)[k]);
            if k + 1 < vx_e0@.len() { assert(views(vx_e0@).skip(k).skip(1) =~= views(vx_e0@).skip(k + 1)); }
        }
//# after /let chunk_data = read_chunk_data\([\s\S]*?\)\?;/
                proof { assert(chunk_data@ =~= content(f0, out0.len() as int)); }
//# end

//# include png_raw_voc.rs
/// contracts proved in unit png_raw
#[verifier::external_body]
pub fn encode_metadata_png(exif_vec: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>)
    ensures r is Ok <==> dec((exif_vec@.len() + 7) as int).len() <= 8, r matches Ok(v) ==> v@ == raw_encoded(exif_vec@) { unimplemented!() }
#[verifier::external_body]
pub fn decode_metadata_png(encoded_data: &Vec<u8>) -> (r: Result<Vec<u8>, io::Error>)
    ensures r is Ok <==> raw_decoded(encoded_data@) is Some, r matches Ok(v) ==> v@ == raw_decoded(encoded_data@)->Some_0 { unimplemented!() }
pub proof fn lemma_value_bound(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> 48 <= #[trigger] s[i] <= 57,
    ensures 0 <= value(s) < p10(s.len() as int),
    decreases s.len()
{ if s.len() > 0 { lemma_value_bound(s.drop_last()); } }
/// accepted EXIF data is below 100 MB
pub proof fn lemma_small(n: int)
    requires n >= 0, dec(n).len() <= 8,
    ensures n < 100000000,
{ axiom_dec(n); lemma_value_bound(dec(n)); reveal_with_fuel(p10, 10); }

// ---- reading -------------------------------------------------------------------------------------------------------------
/// the EXIF data of the first chunk from p on that holds some
pub open spec fn found(s: Seq<u8>, p: int) -> Option<Seq<u8>>
    decreases avail(s.len() as int, p)
{
    match chunk_at(s, p) {
        None => None,
        Some(c) => if c.name == n_eXIf() { Some(content(s, p)) }
            else if is_exif_chunk(c.name, content(s, p)) { match text_of(c.name, content(s, p)) { None => None, Some(t) => raw_decoded(t) } }
            else if c.name == n_IEND() { None }
            else { found(s, p + 12 + c.l) },
    }
}
pub proof fn lemma_found_step(s: Seq<u8>, p: int, w: Seq<ChunkAt>)
    requires walk(s, p) == Some(w),
    ensures ({ let c = w[0];
        &&& w.len() > 0 && chunk_at(s, p) == Some(c) && 0 <= p && 0 <= c.l && p + 12 + c.l <= s.len() && c.l == be32at(s, p) && c.name == s.subrange(p + 4, p + 8)
        &&& content(s, p) == s.subrange(p + 8, p + 8 + c.l) && utf8(c.name)
        &&& w.len() > 1 <==> c.name != n_IEND()
        &&& w.len() > 1 ==> walk(s, p + 12 + c.l) == Some(w.skip(1))
        &&& c.name == n_eXIf() ==> found(s, p) == Some(content(s, p))
        &&& is_text(c.name) && is_exif_chunk(c.name, content(s, p)) ==> found(s, p) == match text_of(c.name, content(s, p)) { None => None, Some(t) => raw_decoded(t) }
        &&& !is_exif_chunk(c.name, content(s, p)) ==> found(s, p) == (if c.name == n_IEND() { None } else { found(s, p + 12 + c.l) })
        }),
{
    hide(nul); hide(text_of); hide(raw_decoded);
    lemma_step(s, p); lemma_names();
    let c = chunk_at(s, p)->Some_0;
    assert(w[0] == c);
    if c.name != n_IEND() {
        let t = walk(s, p + 12 + c.l)->Some_0;
        assert(w.skip(1) =~= t);
        lemma_step(s, p + 12 + c.l);
        assert(t.len() > 0);
    }
}
//# fn src/png/mod.rs generic_read_metadata -> r
//# spec
    requires walk(old(cursor).bytes(), old(cursor).pos()) == Some(views(parsed_png@)), old(cursor).bytes().len() <= maxbuf(),
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> found(old(cursor).bytes(), old(cursor).pos()) == Some(v@),
        old(cursor).faultless() && r is Err ==> found(old(cursor).bytes(), old(cursor).pos()) is None,
//# begin
    hide(walk); hide(found); hide(nul); hide(text_of); hide(raw_decoded); hide(chunk_at); hide(content);
    let ghost (s, p0) = (cursor.bytes(), cursor.pos());
    let ghost mut q: int = p0;
    proof { assert(views(parsed_png@).skip(0) =~= views(parsed_png@)); lemma_found_step(s, p0, views(parsed_png@)); }
//# loop 0
        invariant
            kept(old(cursor), cursor), s == cursor.bytes(), s.len() <= maxbuf(), p0 == old(cursor).pos(), q == cursor.pos(),
            vx_e0@ == parsed_png@, vx_i0 <= vx_e0@.len(),
            vx_i0 < vx_e0@.len() ==> walk(s, q) == Some(views(vx_e0@).skip(vx_i0 as int)) && found(s, q) == found(s, p0),
            vx_i0 == vx_e0@.len() ==> found(s, p0) is None,
        decreases vx_e0@.len() - vx_i0
//# loop 0 begin
        let ghost c = views(vx_e0@).skip(vx_i0 as int)[0];
        let ghost q0 = q;
        proof {
            let k = vx_i0 as int;
            lemma_found_step(s, q, views(vx_e0@).skip(k)); lemma_names();
            q = q + 12 + c.l;
            assert(views(vx_e0@).skip(k)[0] == views(vx_e0@)[k]);
            if k + 1 < vx_e0@.len() { assert(views(vx_e0@).skip(k).skip(1) =~= views(vx_e0@).skip(k + 1)); }
        }
//# after /let eXIf_chunk_data = read_chunk_data\([\s\S]*?\)\?;/
                proof { assert(eXIf_chunk_data@ =~= content(s, q0)); }
//# after /let chunk_data = read_chunk_data\([\s\S]*?\)\?;/
                proof { assert(chunk_data@ =~= content(s, q0)); }
//# end
//# fn src/png/mod.rs read_metadata -> r
//# spec
    ensures r matches Ok(v) ==> is_png(file_buffer@) && walk(file_buffer@, 8) is Some && found(file_buffer@, 8) == Some(v@),
        r is Err ==> !is_png(file_buffer@) || walk(file_buffer@, 8) is None || found(file_buffer@, 8) is None,
//# begin
    proof { vec_bounded(file_buffer); }
//# end

// ---- writing -------------------------------------------------------------------------------------------------------------
pub open spec fn ztxt_content(x: Seq<u8>) -> Seq<u8> { RAW_PROFILE_TYPE_EXIF@ + seq![0u8, 0u8] + deflated(raw_encoded(x)) }
//# include metadata_opaque.rs
//# fn src/png/mod.rs construct_zTXt_chunk_data -> r
//# spec
    ensures r@ == prefix@ + RAW_PROFILE_TYPE_EXIF@ + seq![0u8, 0u8] + deflated(basic_png_encode_result@),
//# end
//# fn src/png/mod.rs as_u8_vec -> r
//# spec
    ensures r is Ok <==> dec((general_encoded_metadata@.len() + 7) as int).len() <= 8,
        r matches Ok(v) ==> v@ == (if as_zTXt_chunk { n_zTXt() + ztxt_content(general_encoded_metadata@) } else { raw_encoded(general_encoded_metadata@) }),
//# end
//# fn src/png/mod.rs generic_write_metadata -> r
//# spec
    requires walk(old(cursor).bytes(), 8) is Some, old(cursor).faultless(), old(cursor).writable(), old(cursor).bytes().len() <= maxbuf(),
    ensures final(cursor).rest() == old(cursor).rest(),
        r is Ok <==> metadata.encoding() is Some && dec((metadata.encoding()->Some_0.len() + 7) as int).len() <= 8,
        r is Ok ==> final(cursor).bytes() == ({ let s = old(cursor).bytes(); let e = 20 + be32at(s, 8);
            s.take(e) + chunk(n_zTXt(), ztxt_content(metadata.encoding()->Some_0)) + s.skip(e) }),
        r is Err ==> final(cursor).bytes() == old(cursor).bytes(),
//# begin
    proof { lemma_step(cursor.bytes(), 8); if metadata.encoding() is Some { let x = metadata.encoding()->Some_0;
        if dec((x.len() + 7) as int).len() <= 8 { lemma_small((x.len() + 7) as int); lemma_raw_len(x); axiom_zlib(raw_encoded(x)); } } }
//# before /IHDR_length = chunks/
        proof { assert(views(chunks@)[0].l == chunks@[0].ln()); lemma_found_step(cursor.bytes(), 8, views(chunks@)); }
//# end
/// what the clearing leaves is a sequence of well-formed chunks without EXIF data
pub proof fn lemma_cleared(s: Seq<u8>, q: int, t: Seq<u8>, p: int)
    requires cleared(s, q) is Some, 0 <= p <= t.len(), t.skip(p) == cleared(s, q)->Some_0,
    ensures walk(t, p) is Some, found(t, p) is None, !is_exif_chunk(chunk_at(t, p)->Some_0.name, content(t, p)),
    decreases avail(s.len() as int, q)
{
    hide(text_of); hide(raw_decoded); hide(nul); hide(walk); hide(found); hide(with_text);
    lemma_step(s, q); lemma_names();
    let c = chunk_at(s, q)->Some_0;
    let e = q + 12 + c.l;
    let o = own(s, q, c)->Some_0;
    let r = cleared(s, q)->Some_0;
    let rest = if c.name == n_IEND() { s.skip(e) } else { cleared(s, e)->Some_0 };
    assert(r == o + rest);
    assert(t.len() == p + r.len());
    assert(t.skip(p + o.len()) =~= rest) by { assert forall|i: int| 0 <= i < rest.len() implies t.skip(p + o.len())[i] == rest[i] by { assert(t.skip(p)[o.len() + i] == rest[i]); } }
    if c.name != n_IEND() { lemma_cleared(s, e, t, p + o.len()); }
    let d = content(s, q);
    if is_exif_chunk(c.name, d) {
        assert(o.len() == 0);
    } else {
        let d2 = if is_xmp_chunk(c.name, d) { with_text(c.name, d, xmp_cleaned(text_of(c.name, d)->Some_0)->Some_0)->Some_0 } else { d };
        if is_xmp_chunk(c.name, d) { axiom_xmp_size(c.name, d, xmp_cleaned(text_of(c.name, d)->Some_0)->Some_0); lemma_with_text(c.name, d, xmp_cleaned(text_of(c.name, d)->Some_0)->Some_0); }
        else { lemma_chunk_bytes(s, q); }
        assert(o == chunk(c.name, d2));
        assert(t.subrange(p, p + o.len()) =~= o) by { assert forall|i: int| 0 <= i < o.len() implies t[p + i] == o[i] by { assert(t.skip(p)[i] == o[i]); } }
        lemma_chunk(t, p, c.name, d2);
        assert(!is_exif_chunk(c.name, d2));
        lemma_step(t, p); 
        reveal_with_fuel(found, 2);
    }
}
/// a chunk of text with another text keeps its keyword
pub proof fn lemma_with_text(name: Seq<u8>, d: Seq<u8>, t: Seq<u8>)
    ensures with_text(name, d, t) matches Some(x) ==> kw(x) == kw(d) && nul(x, 0) == nul(d, 0),
{
    hide(nul);
    lemma_nul(d, 0);
    if let Some(x) = with_text(name, d, t) {
        let k = nul(d, 0);
        if name != n_tEXt() && name != n_zTXt() {
            lemma_nul(d, itxt_lang(d)); lemma_nul(d, itxt_trans(d));
        }
        assert(x.len() > k);
        assert(forall|i: int| 0 <= i < k ==> x[i] == d[i]);
        assert(x[k] == 0);
        lemma_nul_is(x, 0, k);
        assert(kw(x) =~= kw(d));
    }
}
/// the bytes of a chunk
pub proof fn lemma_chunk_bytes(s: Seq<u8>, q: int)
    requires chunk_at(s, q) is Some,
    ensures ({ let c = chunk_at(s, q)->Some_0; s.subrange(q, q + 12 + c.l) == chunk(c.name, content(s, q)) && utf8(c.name) && content(s, q).len() == c.l }),
{
    let c = chunk_at(s, q)->Some_0;
    let d = content(s, q);
    assert(c.name + d =~= s.subrange(q + 4, q + 8 + c.l));
    let a = s.subrange(q, q + 4); let z = s.subrange(q + 8 + c.l, q + 12 + c.l);
    lemma_be_u32(be32at(s, q), a);
    lemma_be_u32(be32at(s, q + 8 + c.l), z);
    assert(s.subrange(q, q + 12 + c.l) =~= a + c.name + d + z);
}
pub proof fn lemma_chunk(t: Seq<u8>, p: int, name: Seq<u8>, d: Seq<u8>)
    requires 0 <= p, name.len() == 4, utf8(name), d.len() <= 0xffff_ffff, p + 12 + d.len() <= t.len(), t.subrange(p, p + 12 + d.len()) == chunk(name, d),
    ensures chunk_at(t, p) == Some(ChunkAt { name, l: d.len() as int }), content(t, p) == d,
{
    let n = d.len() as int;
    let ch = chunk(name, d);
    assert(ch.len() == 12 + n);
    assert(forall|i: int| 0 <= i < 12 + n ==> t[p + i] == #[trigger] ch[i]) by { assert forall|i: int| 0 <= i < 12 + n implies t[p + i] == #[trigger] ch[i] by { assert(t.subrange(p, p + 12 + n)[i] == ch[i]); } }
    lemma_be32(n as u32); lemma_be32(crc32(name + d));
    assert(t[p] == ch[0] && t[p + 1] == ch[1] && t[p + 2] == ch[2] && t[p + 3] == ch[3]);
    assert(be32at(t, p) == n);
    assert(t.subrange(p + 4, p + 8) =~= name) by { assert forall|i: int| 0 <= i < 4 implies t[p + 4 + i] == name[i] by { assert(ch[4 + i] == name[i]); } }
    assert(t.subrange(p + 8, p + 8 + n) =~= d) by { assert forall|i: int| 0 <= i < n implies t[p + 8 + i] == d[i] by { assert(ch[8 + i] == d[i]); } }
    assert(t.subrange(p + 4, p + 8 + n) =~= name + d);
    assert(t[p + 8 + n] == ch[8 + n] && t[p + 9 + n] == ch[9 + n] && t[p + 10 + n] == ch[10 + n] && t[p + 11 + n] == ch[11 + n]);
}
//# fn src/png/mod.rs write_metadata -> r
//# spec
    ensures r is Ok <==> png_cleared(old(file_buffer)@) is Some && metadata.encoding() is Some && dec((metadata.encoding()->Some_0.len() + 7) as int).len() <= 8,
        r is Ok ==> final(file_buffer)@ == png_written(png_cleared(old(file_buffer)@)->Some_0, metadata.encoding()->Some_0),
//# after /clear_metadata\(file_buffer\)\?;/
    proof { vec_bounded(file_buffer); lemma_png_cleared(old(file_buffer)@); }
//# end
/// t with the EXIF data x in a zTXt chunk behind the first chunk
pub open spec fn png_written(t: Seq<u8>, x: Seq<u8>) -> Seq<u8> {
    let e = 20 + be32at(t, 8);
    t.take(e) + chunk(n_zTXt(), ztxt_content(x)) + t.skip(e)
}
/// clearing leaves a PNG file without EXIF data, which starts with the same eight bytes
pub proof fn lemma_png_cleared(s: Seq<u8>)
    requires png_cleared(s) is Some,
    ensures ({ let t = png_cleared(s)->Some_0; is_png(t) && walk(t, 8) is Some && found(t, 8) is None && t.take(8) == s.take(8)
        && !is_exif_chunk(chunk_at(t, 8)->Some_0.name, content(t, 8)) }),
{
    hide(walk); hide(found); hide(cleared);
    let t = png_cleared(s)->Some_0;
    let r = cleared(s, 8)->Some_0;
    assert(s.len() >= 8) by { assert(PNG_SIGNATURE@.len() == 8); }
    assert(t.skip(8) =~= r);
    assert(t.take(8) =~= s.take(8));
    assert(PNG_SIGNATURE@ =~= s.take(8));
    lemma_cleared(s, 8, t, 8);
}
pub open spec fn header_payload(x: Seq<u8>) -> Seq<u8> { EXIF_HEADER@ + x + seq![0u8] }
/// proved in unit png_raw
#[verifier::external_body]
pub proof fn theorem_raw_roundtrip(x: Seq<u8>)
    requires dec((x.len() + 7) as int).len() <= 8,
    ensures raw_decoded(raw_encoded(x)) == Some(header_payload(x)) {}
/// the new chunk is read back as the data that was written
pub proof fn lemma_new_chunk(out: Seq<u8>, e: int, x: Seq<u8>)
    requires dec((x.len() + 7) as int).len() <= 8, 0 <= e, e + chunk(n_zTXt(), ztxt_content(x)).len() <= out.len(),
        out.subrange(e, e + chunk(n_zTXt(), ztxt_content(x)).len()) == chunk(n_zTXt(), ztxt_content(x)),
    ensures ({ let d = ztxt_content(x);
        &&& d.len() <= 0xffff_ffff && chunk(n_zTXt(), d).len() == 12 + d.len()
        &&& chunk_at(out, e) == Some(ChunkAt { name: n_zTXt(), l: d.len() as int }) && content(out, e) == d
        &&& kw(d) == RAW_PROFILE_TYPE_EXIF@
        &&& text_of(n_zTXt(), d) == Some(raw_encoded(x)) && raw_decoded(raw_encoded(x)) == Some(header_payload(x)) }),
{
    hide(raw_decoded); hide(raw_encoded);
    lemma_names();
    let d = ztxt_content(x);
    lemma_small((x.len() + 7) as int); lemma_raw_len(x); axiom_zlib(raw_encoded(x));
    axiom_ascii(n_zTXt());
    lemma_chunk(out, e, n_zTXt(), d);
    assert(d[21] == 0 && d[22] == 0);
    assert(forall|k: int| 0 <= k < 21 ==> d[k] == RAW_PROFILE_TYPE_EXIF@[k]);
    lemma_nul_is(d, 0, 21);
    assert(kw(d) =~= RAW_PROFILE_TYPE_EXIF@);
    assert(d.skip(23) =~= deflated(raw_encoded(x)));
    theorem_raw_roundtrip(x);
}
/// P03/P04: writing into a PNG file whose first chunk is not already the end chunk; reading gives back the data that was written
pub proof fn theorem_write_read(s: Seq<u8>, x: Seq<u8>)
    requires png_cleared(s) is Some, dec((x.len() + 7) as int).len() <= 8, chunk_at(png_cleared(s)->Some_0, 8)->Some_0.name != n_IEND(),
    ensures ({ let t = png_cleared(s)->Some_0; let out = png_written(t, x); let e = 20 + be32at(t, 8);
        &&& is_png(out)
        &&& walk(t, 8) matches Some(w) && walk(out, 8) == Some(seq![w[0]] + (seq![ChunkAt { name: n_zTXt(), l: ztxt_content(x).len() as int }] + w.skip(1)))
        &&& out.take(e) == t.take(e)
        &&& found(out, 8) == Some(header_payload(x)) }),
{
    hide(text_of); hide(raw_decoded); hide(nul); hide(raw_encoded); hide(walk); hide(found); hide(content); hide(chunk); hide(chunk_at); hide(cleared); hide(ztxt_content);
    lemma_png_cleared(s); lemma_names();
    let t = png_cleared(s)->Some_0; let out = png_written(t, x); let e = 20 + be32at(t, 8);
    let d = ztxt_content(x); let ch = chunk(n_zTXt(), d); let e2 = e + ch.len();
    let w = walk(t, 8)->Some_0;
    lemma_found_step(t, 8, w);
    assert(out.take(e) =~= t.take(e));
    assert(out.skip(e2) =~= t.skip(e));
    assert(out.take(8) =~= t.take(8)) by { assert(out.take(e).take(8) =~= out.take(8)); assert(t.take(e).take(8) =~= t.take(8)); }
    assert(PNG_SIGNATURE@ =~= t.take(8));
    assert(is_png(out));
    // the first chunk
    lemma_chunk_bytes(t, 8);
    let c = w[0];
    assert(out.subrange(8, e) =~= t.subrange(8, e)) by { assert(out.take(e).skip(8) =~= out.subrange(8, e)); assert(t.take(e).skip(8) =~= t.subrange(8, e)); }
    lemma_chunk(out, 8, c.name, content(t, 8));
    // the new chunk
    assert(out.subrange(e, e2) =~= ch);
    lemma_new_chunk(out, e, x);
    // what follows
    lemma_walk_local(t, e, out, e2);
    lemma_step(out, 8); lemma_step(out, e);
    assert(walk(out, e2) == Some(w.skip(1)));
    lemma_found_step(out, 8, walk(out, 8)->Some_0);
    lemma_found_step(out, e, walk(out, e)->Some_0);
}
pub proof fn lemma_raw_len(x: Seq<u8>)
    requires dec((x.len() + 7) as int).len() <= 8,
    ensures raw_encoded(x).len() == 30 + 2 * x.len(),
{ assert(EXIF_HEADER@.len() == 6); }
pub proof fn lemma_walk_local(s: Seq<u8>, p: int, t: Seq<u8>, q: int)
    requires 0 <= p <= s.len(), 0 <= q <= t.len(), s.skip(p) == t.skip(q),
    ensures walk(s, p) == walk(t, q),
    decreases avail(s.len() as int, p)
{
    lemma_local(s, p, t, q); lemma_step(s, p); lemma_step(t, q);
    if let Some(c) = chunk_at(s, p) { if c.name != n_IEND() {
        assert(s.skip(p + 12 + c.l) =~= t.skip(q + 12 + c.l)) by { assert(s.skip(p).skip(12 + c.l) =~= s.skip(p + 12 + c.l)); assert(t.skip(q).skip(12 + c.l) =~= t.skip(q + 12 + c.l)); }
        lemma_walk_local(s, p + 12 + c.l, t, q + 12 + c.l);
    } }
}
//# helpers
fn main() {}
}
