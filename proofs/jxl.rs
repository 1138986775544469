//# include prelude.rs
verus! {
use crate::io::*;
pub mod brotli {
    use crate::io;
    use vstd::prelude::*;
    pub uninterp spec fn decompressed(s: Seq<u8>) -> Option<Seq<u8>>;
    /// the external crate brotli (assumed: deterministic, does not panic)
    #[verifier::external_body]
    #[allow(non_snake_case)]
    pub fn BrotliDecompress(r: &mut io::Cursor<Vec<u8>>, w: &mut Vec<u8>) -> (x: Result<(), io::Error>)
        ensures x is Ok <==> decompressed(old(r).inner@) is Some, x is Ok ==> final(w)@ == decompressed(old(r).inner@)->Some_0
    { unimplemented!() }
}
pub fn vx_u64_be(b: [u8; 8]) -> (r: u64) ensures r as int == be64(b@)
{
    let hi: u32 = ((b[0] as u32) * 0x1000000 + (b[1] as u32) * 0x10000) + ((b[2] as u32) * 256 + b[3] as u32);
    let lo: u32 = ((b[4] as u32) * 0x1000000 + (b[5] as u32) * 0x10000) + ((b[6] as u32) * 256 + b[7] as u32);
    (hi as u64) * 0x1_0000_0000 + lo as u64
}
pub open spec fn be64(s: Seq<u8>) -> int { be32(s[0], s[1], s[2], s[3]) as int * 0x1_0000_0000 + be32(s[4], s[5], s[6], s[7]) as int }

// ===== vocabulary ===================================================================================================
//# item src/jxl.rs const JXL_SIGNATURE
//# item src/jxl.rs const ISO_BMFF_JXL_SIGNATURE
//# item src/jxl.rs const FTYP_BOX
//# item src/jxl.rs const ISO_BMFF_EXIF_MINOR_VERSION
//# item src/jxl.rs const BROB_BOX
//# item src/general_file_io.rs const EXIF
//# item src/general_file_io.rs const EXIF_HEADER
pub struct IsoBmffBoxType;
//# item src/jxl.rs impl IsoBmffBoxType

pub struct BoxAt { pub ty: Seq<u8>, pub c: int, pub l: int }
/// the box at p: its type, where its content starts and how long that is; None: there is no box header
pub open spec fn box_at(s: Seq<u8>, p: int) -> Option<BoxAt> {
    if p < 0 || p + 8 > s.len() { None } else {
        let n = be32(s[p], s[p + 1], s[p + 2], s[p + 3]);
        let ty = s.subrange(p + 4, p + 8);
        if n == 0 { Some(BoxAt { ty, c: p + 8, l: s.len() - (p + 8) }) }
        else if n == 1 {
            if p + 16 > s.len() { None } else {
                let l = be64(s.subrange(p + 8, p + 16));
                if l < 16 { None } else { Some(BoxAt { ty, c: p + 16, l: l - 16 }) }
            }
        }
        else if n < 8 { None }
        else { Some(BoxAt { ty, c: p + 8, l: n - 8 }) }
    }
}
/// does the box carry EXIF data, plain or compressed; None: the data ends before this can be told
pub open spec fn is_exif(s: Seq<u8>, b: BoxAt) -> Option<bool> {
    if b.ty =~= EXIF@ { Some(true) }
    else if b.ty =~= BROB_BOX@ && b.l >= 4 { if b.c + 4 > s.len() { None } else { Some(s.subrange(b.c, b.c + 4) =~= EXIF@) } }
    else { Some(false) }
}
/// the data without its EXIF boxes; None: mangled
pub open spec fn cleared(s: Seq<u8>, p: int) -> Option<Seq<u8>>
    decreases avail(s.len() as int, p)
{
    if p < 0 || p >= s.len() { Some(s) }
    else { match box_at(s, p) {
        None => None,
        Some(b) => match is_exif(s, b) {
            None => None,
            Some(true) => cleared(cut(s, p, b.c + b.l), p),
            Some(false) => cleared(s, b.c + b.l),
        }
    } }
}
pub open spec fn payload(s: Seq<u8>, b: BoxAt) -> Option<Seq<u8>> {
    if b.c + b.l > s.len() { None } else {
        let x = if b.ty =~= BROB_BOX@ { brotli::decompressed(s.subrange(b.c + 4, b.c + b.l)) } else { Some(s.subrange(b.c, b.c + b.l)) };
        match x { Some(y) => if y.len() >= 4 { Some(y.skip(4)) } else { None }, None => None }
    }
}
/// the contents of the first EXIF box
pub open spec fn found(s: Seq<u8>, p: int) -> Option<Seq<u8>>
    decreases avail(s.len() as int, p)
{
    match box_at(s, p) {
        None => None,
        Some(b) => match is_exif(s, b) {
            None => None,
            Some(true) => payload(s, b),
            Some(false) => found(s, b.c + b.l),
        }
    }
}
/// where the new box goes: behind the leading signature and file type boxes
pub open spec fn insert_pos(s: Seq<u8>, p: int) -> Option<int>
    decreases avail(s.len() as int, p)
{
    match box_at(s, p) {
        None => None,
        Some(b) => if b.ty =~= IsoBmffBoxType::JXL@ || b.ty =~= IsoBmffBoxType::FTYP@ { insert_pos(s, b.c + b.l) } else { Some(p) },
    }
}
pub open spec fn is_bare(s: Seq<u8>) -> bool { JXL_SIGNATURE@.is_prefix_of(s) }
pub open spec fn is_container(s: Seq<u8>) -> bool { ISO_BMFF_JXL_SIGNATURE@.is_prefix_of(s) }
pub open spec fn wrapped(s: Seq<u8>) -> Seq<u8> {
    ISO_BMFF_JXL_SIGNATURE@ + FTYP_BOX@ + enc32((s.len() + 8) as u32, Endian::Big) + IsoBmffBoxType::JXLC@ + s
}
pub open spec fn exif_box(x: Seq<u8>) -> Seq<u8> {
    enc32((18 + x.len()) as u32, Endian::Big) + EXIF@ + ISO_BMFF_EXIF_MINOR_VERSION@ + EXIF_HEADER@ + x
}
pub open spec fn written(c: Seq<u8>, p: int, x: Seq<u8>) -> Seq<u8> { c.take(p) + exif_box(x) + c.skip(p) }

// ===== functions under contract =====================================================================================
//# fn src/jxl.rs starts_with_iso_bmff_signature -> r
//# spec
    ensures r == is_container(file_buffer@)
//# end
//# fn src/jxl.rs starts_with_jxl_signature -> r
//# spec
    ensures r == is_bare(file_buffer@)
//# end
//# fn src/jxl.rs check_signature -> r
//# spec
    ensures r is Ok <==> !is_bare(file_buffer@) && is_container(file_buffer@)
//# end

//# fn src/jxl.rs remaining_length -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(n) ==> n == avail(old(cursor).bytes().len() as int, old(cursor).pos()) && final(cursor).pos() == old(cursor).pos(),
        old(cursor).faultless() ==> r is Ok,
//# end

//# fn src/jxl.rs skip_box_content -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        r is Ok ==> (old(cursor).pos() + content_length <= u64::MAX ==> final(cursor).pos() == old(cursor).pos() + content_length)
            && (old(cursor).pos() + content_length > u64::MAX ==> final(cursor).pos() == u64::MAX),
        old(cursor).faultless() ==> r is Ok,
//# end

//# fn src/jxl.rs read_box_content -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> old(cursor).pos() + content_length <= old(cursor).bytes().len() || content_length == 0,
        r matches Ok(v) ==> v@ == (if content_length == 0 { Seq::<u8>::empty() } else { old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + content_length) }),
        old(cursor).faultless() && r is Err ==> content_length > 0 && old(cursor).pos() + content_length > old(cursor).bytes().len(),
//# end

//# fn src/jxl.rs read_box_header -> r
//# sub /u64::from_be_bytes\(/ => /vx_u64_be(/
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(x) ==> box_at(old(cursor).bytes(), old(cursor).pos()) == Some(BoxAt { ty: x.0@, c: final(cursor).pos(), l: x.1 as int }),
        old(cursor).faultless() && r is Err ==> box_at(old(cursor).bytes(), old(cursor).pos()) is None,
//# end

//# fn src/jxl.rs check_brob_type_for_exif -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(x) ==> old(cursor).pos() + 4 <= old(cursor).bytes().len() && final(cursor).pos() == old(cursor).pos()
             && x == (old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + 4) =~= EXIF@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# end

//# fn src/jxl.rs box_contains_exif -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        ({ let want = is_exif(old(cursor).bytes(), BoxAt { ty: type_buffer@, c: old(cursor).pos(), l: content_length as int });
          &&& r matches Ok(x) ==> want == Some(x) && final(cursor).pos() == old(cursor).pos()
          &&& old(cursor).faultless() && r is Err ==> want is None })
//# end

//# include util_remove.rs
//# include util_insert.rs
/// one step of each walk
proof fn lemma_step(s: Seq<u8>, p: int)
    requires 0 <= p < s.len(),
    ensures
        match box_at(s, p) {
            None => cleared(s, p) is None && found(s, p) is None && insert_pos(s, p) is None,
            Some(b) => {
                &&& is_exif(s, b) is None ==> cleared(s, p) is None && found(s, p) is None
                &&& is_exif(s, b) == Some(true) ==> cleared(s, p) == cleared(cut(s, p, b.c + b.l), p) && found(s, p) == payload(s, b)
                &&& is_exif(s, b) == Some(false) ==> cleared(s, p) == cleared(s, b.c + b.l) && found(s, p) == found(s, b.c + b.l)
                &&& (b.ty == IsoBmffBoxType::JXL@ || b.ty == IsoBmffBoxType::FTYP@) ==> insert_pos(s, p) == insert_pos(s, b.c + b.l)
                &&& !(b.ty == IsoBmffBoxType::JXL@ || b.ty == IsoBmffBoxType::FTYP@) ==> insert_pos(s, p) == Some(p)
            }
        }
{}
/// nothing is found behind the end
proof fn lemma_end(s: Seq<u8>)
    ensures forall|p: int| p >= s.len() ==> #[trigger] cleared(s, p) == Some(s),
        forall|p: int| p >= s.len() ==> (#[trigger] found(s, p)) is None,
        forall|p: int| p >= s.len() ==> (#[trigger] insert_pos(s, p)) is None,
{}

//# include metadata_opaque.rs

/// clearing leaves everything before p alone and does not grow the data
pub proof fn lemma_cleared_prefix(s: Seq<u8>, p: int)
    requires 0 <= p,
    ensures cleared(s, p) matches Some(c) ==> c.len() <= s.len() && (p <= s.len() ==> p <= c.len() && c.take(p) =~= s.take(p)),
    decreases avail(s.len() as int, p)
{
    if p < s.len() {
        lemma_step(s, p);
        if let Some(b) = box_at(s, p) {
            if is_exif(s, b) == Some(true) { lemma_cleared_prefix(cut(s, p, b.c + b.l), p); assert(cut(s, p, b.c + b.l).take(p) =~= s.take(p)); }
            if is_exif(s, b) == Some(false) { lemma_cleared_prefix(s, b.c + b.l); lemma_end(s);
                if let Some(c) = cleared(s, p) { if b.c + b.l <= s.len() { assert(c.take(p) =~= c.take(b.c + b.l).take(p)); assert(s.take(p) =~= s.take(b.c + b.l).take(p)); } } }
        }
    }
}
pub proof fn lemma_insert_pos(s: Seq<u8>, p: int)
    requires 0 <= p,
    ensures insert_pos(s, p) matches Some(q) ==> p <= q && q + 8 <= s.len(),
    decreases avail(s.len() as int, p)
{
    if p < s.len() { lemma_step(s, p); if let Some(b) = box_at(s, p) { lemma_insert_pos(s, b.c + b.l); } }
}

//# fn src/jxl.rs clear_metadata -> r
//# spec
    requires old(file_buffer)@.len() <= maxbuf(),
    ensures
        r is Ok <==> !is_bare(old(file_buffer)@) && is_container(old(file_buffer)@) && cleared(old(file_buffer)@, 0) is Some,
        r is Ok ==> final(file_buffer)@ == cleared(old(file_buffer)@, 0)->Some_0,
//# begin
    let ghost s0 = file_buffer@;
//# loop 0
        invariant
            s0 == old(file_buffer)@, !is_bare(s0) && is_container(s0), file_buffer@.len() <= maxbuf(),
            cleared(s0, 0) == cleared(file_buffer@, position as int),
        decreases avail(file_buffer@.len() as int, position as int)
//# loop 0 begin
        let ghost f0 = file_buffer@;
        let ghost p0 = position as int;
//# loop 0 end
        proof { lemma_end(f0); lemma_end(file_buffer@); let b = box_at(f0, p0)->Some_0;
            lemma_step(f0, p0);
            if b.c + b.l > u64::MAX { assert(cut(f0, p0, b.c + b.l) =~= cut(f0, p0, u64::MAX as int)); } }
//# end

/// the signature box is skipped: reading from behind it finds the same (used by the unit files)
proof fn lemma_signature_box(s: Seq<u8>)
    requires is_container(s)
    ensures found(s, 12) == found(s, 0)
{
    assert(s.take(12) =~= ISO_BMFF_JXL_SIGNATURE@);
    assert forall|i: int| 0 <= i < 12 implies #[trigger] s[i] == ISO_BMFF_JXL_SIGNATURE@[i] by { assert(s[i] == s.take(12)[i]); }
    lemma_step(s, 0);
    let b = box_at(s, 0)->Some_0;
    assert(b.c == 8 && b.l == 4);
    assert(b.ty[0] == 0x4a);
    assert(EXIF@[0] == 0x45 && BROB_BOX@[0] == 0x62);
}
//# fn src/jxl.rs generic_read_metadata -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), 0 <= old(cursor).pos(),
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> found(old(cursor).bytes(), old(cursor).pos()) == Some(v@),
        old(cursor).faultless() && r is Err ==> found(old(cursor).bytes(), old(cursor).pos()) is None,
//# loop 0
        invariant
            kept(old(cursor), cursor), cursor.bytes().len() <= maxbuf(), 0 <= cursor.pos(),
            found(old(cursor).bytes(), old(cursor).pos()) == found(cursor.bytes(), cursor.pos()),
        decreases avail(cursor.bytes().len() as int, cursor.pos())
//# loop 0 begin
        proof { lemma_end(cursor.bytes()); if cursor.pos() < cursor.bytes().len() { lemma_step(cursor.bytes(), cursor.pos()); } }
//# after /let mut content\s*=\s*read_box_content\(.*\)\?;/
        let ghost content0 = content@;
        proof {
            let s = cursor.bytes(); let b = BoxAt { ty: type_buffer@, c: c0, l: content_length as int };
            assert(content0 =~= s.subrange(b.c, b.c + b.l));
            if b.l >= 4 { assert(content0.subrange(4, content0.len() as int) =~= s.subrange(b.c + 4, b.c + b.l)); }
        }
//# after /let \(type_buffer, content_length\) = .*;/
        let ghost c0 = cursor.pos();
//# end

//# fn src/jxl.rs read_metadata -> r
//# spec
    requires file_buffer@.len() <= maxbuf(),
    ensures
        r matches Ok(v) ==> !is_bare(file_buffer@) && is_container(file_buffer@) && found(file_buffer@, 0) == Some(v@),
        !is_bare(file_buffer@) && is_container(file_buffer@) && r is Err ==> found(file_buffer@, 0) is None,
//# end

//# fn src/jxl.rs encode_metadata_jxl -> r
//# spec
    requires exif_vec@.len() <= u32::MAX - 18,
    ensures r@ == exif_box(exif_vec@),
//# end

//# fn src/jxl.rs find_insert_position -> r
//# spec
    requires file_buffer@.len() <= maxbuf(),
    ensures
        r matches Ok(p) ==> insert_pos(file_buffer@, 0) == Some(p as int),
        r is Err ==> insert_pos(file_buffer@, 0) is None,
//# loop 0
        invariant
            cursor.bytes() == file_buffer@, file_buffer@.len() <= maxbuf(), 0 <= cursor.pos(),
            insert_pos(file_buffer@, 0) == insert_pos(file_buffer@, cursor.pos()),
        decreases avail(cursor.bytes().len() as int, cursor.pos())
//# loop 0 begin
        proof { lemma_end(cursor.bytes()); if cursor.pos() < cursor.bytes().len() { lemma_step(cursor.bytes(), cursor.pos()); } }
//# end

//# fn src/jxl.rs write_metadata -> r
//# spec
    requires old(file_buffer)@.len() <= u32::MAX - 8,
    ensures
        r is Ok ==> ({
            let s = if is_bare(old(file_buffer)@) { wrapped(old(file_buffer)@) } else { old(file_buffer)@ };
            let c = cleared(s, 0)->Some_0;
            &&& is_container(s) && !is_bare(s) && cleared(s, 0) is Some && insert_pos(c, 0) is Some && metadata.encoding() is Some
            &&& final(file_buffer)@ == written(c, insert_pos(c, 0)->Some_0, metadata.encoding()->Some_0)
        }),
        r is Err ==> ({
            let s = if is_bare(old(file_buffer)@) { wrapped(old(file_buffer)@) } else { old(file_buffer)@ };
            is_bare(s) || !is_container(s) || cleared(s, 0) is None || insert_pos(cleared(s, 0)->Some_0, 0) is None || metadata.encoding() is None
        }),
//# begin
    proof {
        let s = if is_bare(file_buffer@) { wrapped(file_buffer@) } else { file_buffer@ };
        lemma_cleared_prefix(s, 0);
        if cleared(s, 0) is Some { lemma_insert_pos(cleared(s, 0)->Some_0, 0); }
    }
//# end
// ===== the property as lemmas over these contracts ==================================================================
/// the boxes in front of the insert position are the same in both
proof fn lemma_same_before(s: Seq<u8>, w: Seq<u8>, p: int, q: int)
    requires 0 <= q < p <= s.len(), p <= w.len(), s.take(p) =~= w.take(p), insert_pos(s, q) == Some(p),
    ensures box_at(s, q) is Some, box_at(w, q) == box_at(s, q), box_at(s, q)->Some_0.c + box_at(s, q)->Some_0.l <= p,
        is_exif(w, box_at(s, q)->Some_0) == Some(false), is_exif(s, box_at(s, q)->Some_0) == Some(false),
{
    lemma_step(s, q);
    let b = box_at(s, q)->Some_0;
    lemma_insert_pos(s, b.c + b.l);
    assert(forall|k: int| 0 <= k < p ==> s[k] == #[trigger] w[k]) by { assert forall|k: int| 0 <= k < p implies s[k] == #[trigger] w[k] by { assert(s.take(p)[k] == w.take(p)[k]); } }
    assert(s.subrange(q + 4, q + 8) =~= w.subrange(q + 4, q + 8));
    if q + 16 <= p { assert(s.subrange(q + 8, q + 16) =~= w.subrange(q + 8, q + 16)); }
    assert(IsoBmffBoxType::JXL@[0] == 0x4a && IsoBmffBoxType::FTYP@[0] == 0x66 && EXIF@[0] == 0x45 && BROB_BOX@[0] == 0x62);
}
proof fn lemma_walk(s: Seq<u8>, w: Seq<u8>, p: int, q: int)
    requires 0 <= q <= p <= s.len(), p <= w.len(), s.take(p) =~= w.take(p), insert_pos(s, q) == Some(p),
    ensures found(w, q) == found(w, p), cleared(w, q) == cleared(w, p), cleared(s, q) == cleared(s, p), q < p || q == p,
        insert_pos(w, q) == insert_pos(w, p),
    decreases p - q
{
    if q < p {
        lemma_same_before(s, w, p, q);
        lemma_step(s, q); lemma_step(w, q);
        let b = box_at(s, q)->Some_0;
        lemma_walk(s, w, p, b.c + b.l);
    }
}
proof fn lemma_exif_box(c: Seq<u8>, p: int, x: Seq<u8>)
    requires 0 <= p <= c.len(), x.len() <= u32::MAX - 18,
    ensures ({ let w = written(c, p, x); let b = BoxAt { ty: EXIF@, c: p + 8, l: 10 + x.len() as int };
        &&& box_at(w, p) == Some(b) && is_exif(w, b) == Some(true) && payload(w, b) == Some(EXIF_HEADER@ + x)
        &&& cut(w, p, b.c + b.l) == c && w.take(p) =~= c.take(p) && w.len() == c.len() + 18 + x.len() }),
{
    let w = written(c, p, x);
    let n = (18 + x.len()) as u32;
    assert(exif_box(x).len() == 18 + x.len());
    assert(enc32(n, Endian::Big) =~= w.subrange(p, p + 4));
    assert(w[p] == enc32(n, Endian::Big)[0] && w[p + 1] == enc32(n, Endian::Big)[1] && w[p + 2] == enc32(n, Endian::Big)[2] && w[p + 3] == enc32(n, Endian::Big)[3]);
    lemma_be32(n);
    assert(w.subrange(p + 4, p + 8) =~= EXIF@);
    let y = w.subrange(p + 8, p + 18 + x.len() as int);
    assert(y =~= ISO_BMFF_EXIF_MINOR_VERSION@ + EXIF_HEADER@ + x);
    assert(y.skip(4) =~= EXIF_HEADER@ + x);
    assert(EXIF@[0] == 0x45 && BROB_BOX@[0] == 0x62);
    assert(from(w, p + 18 + x.len() as int) =~= c.skip(p));
    assert(w.take(p) =~= c.take(p));
    assert(cut(w, p, p + 18 + x.len() as int) =~= c);
}
proof fn lemma_be32(n: u32)
    ensures be32((n / 0x1000000) as u8, (n / 0x10000 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8) == n
{
    assert(((((n / 0x1000000) as int * 256 + (n / 0x10000 % 256) as int) * 256 + (n / 256 % 256) as int) * 256 + (n % 256) as int) == n as int) by(nonlinear_arith);
}
/// what was written is what is read, and clearing after a write gives what clearing before gave
pub proof fn theorem_after_write(c: Seq<u8>, x: Seq<u8>)
    requires is_container(c), !is_bare(c), x.len() <= u32::MAX - 18, insert_pos(c, 0) is Some,
    ensures ({ let w = written(c, insert_pos(c, 0)->Some_0, x);
        &&& is_container(w) && !is_bare(w)
        &&& found(w, 0) == Some(EXIF_HEADER@ + x)
        &&& cleared(w, 0) == cleared(c, 0) })
{
    let p = insert_pos(c, 0)->Some_0;
    lemma_insert_pos(c, 0);
    lemma_exif_box(c, p, x);
    let w = written(c, p, x);
    // the first box is the signature box, so the new one is behind it
    assert(ISO_BMFF_JXL_SIGNATURE@ =~= c.take(12));
    assert(c[0] == c.take(12)[0] && c[1] == c.take(12)[1] && c[2] == c.take(12)[2] && c[3] == c.take(12)[3]);
    lemma_step(c, 0);
    assert(c.subrange(4, 8) =~= c.take(12).subrange(4, 8));
    assert(c.subrange(4, 8) =~= IsoBmffBoxType::JXL@);
    lemma_insert_pos(c, 12);
    assert(p >= 12);
    assert(w.take(12) =~= c.take(12)) by { assert(w.take(12) =~= w.take(p).take(12)); assert(c.take(12) =~= c.take(p).take(12)); }
    assert(w[0] == c.take(12)[0]) by { assert(w[0] == w.take(12)[0]); }
    assert(ISO_BMFF_JXL_SIGNATURE@.is_prefix_of(w));
    if is_bare(w) { assert(w[0] == JXL_SIGNATURE@[0]); assert(false); }
    lemma_walk(c, w, p, 0);
    lemma_step(w, p);
}
/// a wrapped codestream is a container whose boxes are the signature, the file type and the untouched stream
pub proof fn theorem_wrapped(s: Seq<u8>)
    requires is_bare(s), s.len() <= u32::MAX - 8,
    ensures is_container(wrapped(s)), !is_bare(wrapped(s)), wrapped(s).skip(40) == s,
        cleared(wrapped(s), 0) == Some(wrapped(s)), insert_pos(wrapped(s), 0) == Some(32int),
{
    let w = wrapped(s);
    let n = (s.len() + 8) as u32;
    assert(w.skip(40) =~= s);
    assert(w.take(12) =~= ISO_BMFF_JXL_SIGNATURE@);
    assert(w[0] == w.take(12)[0] && w[3] == w.take(12)[3] && w[1] == w.take(12)[1] && w[2] == w.take(12)[2]);
    assert(ISO_BMFF_JXL_SIGNATURE@.is_prefix_of(w));
    if is_bare(w) { assert(w[0] == JXL_SIGNATURE@[0]); assert(false); }
    assert(w.subrange(4, 8) =~= IsoBmffBoxType::JXL@);
    assert(w.subrange(12, 32) =~= FTYP_BOX@);
    assert(w[12] == FTYP_BOX@[0] && w[13] == FTYP_BOX@[1] && w[14] == FTYP_BOX@[2] && w[15] == FTYP_BOX@[3]);
    assert(w.subrange(16, 20) =~= IsoBmffBoxType::FTYP@);
    assert(w.subrange(32, 36) =~= enc32(n, Endian::Big));
    assert(w[32] == enc32(n, Endian::Big)[0] && w[33] == enc32(n, Endian::Big)[1] && w[34] == enc32(n, Endian::Big)[2] && w[35] == enc32(n, Endian::Big)[3]);
    lemma_be32(n);
    assert(w.subrange(36, 40) =~= IsoBmffBoxType::JXLC@);
    assert(IsoBmffBoxType::JXL@[0] == 0x4a && IsoBmffBoxType::FTYP@[0] == 0x66 && IsoBmffBoxType::JXLC@[0] == 0x6a && EXIF@[0] == 0x45 && BROB_BOX@[0] == 0x62);
    lemma_step(w, 0); lemma_step(w, 12); lemma_step(w, 32); lemma_end(w);
}
//# helpers
fn main() {}
}
