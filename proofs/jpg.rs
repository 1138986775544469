//# include prelude.rs
verus! {
use crate::io::*;

// ===== vocabulary of the JPEG properties ===========================================================================
//# item src/jpg.rs const JPG_SIGNATURE
//# item src/jpg.rs const JPG_MARKER_PREFIX
//# item src/jpg.rs const JPG_APP1_MARKER
//# item src/general_file_io.rs const EXIF_HEADER

/// position of the first marker (its 0xFF) at or after i in entropy-coded data: a 0xFF that is not followed by
/// 0x00 (stuffing) or a restart marker
pub open spec fn ecs_end(s: Seq<u8>, i: int, prev: bool) -> Option<int>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None }
    else if prev {
        if s[i] == 0 || 0xd0 <= s[i] <= 0xd7 { ecs_end(s, i + 1, false) } else { Some(i - 1) }
    } else { ecs_end(s, i + 1, s[i] == 0xff) }
}
pub proof fn lemma_ecs_end(s: Seq<u8>, i: int, prev: bool)
    requires 0 <= i,
    ensures ecs_end(s, i, prev) matches Some(j) ==> (if prev { i - 1 } else { i }) <= j < s.len()
    decreases s.len() - i
{
    if i < s.len() { lemma_ecs_end(s, i + 1, if prev { false } else { s[i] == 0xff }); }
}

/// the segment whose marker byte is at i: where it ends (the length field counts itself)
pub open spec fn seg_end(s: Seq<u8>, i: int) -> int { i + 1 + be16(s[i + 1], s[i + 2]) as int }
pub open spec fn seg_ok(s: Seq<u8>, i: int) -> bool { i + 3 <= s.len() && be16(s[i + 1], s[i + 2]) >= 2 }

/// does the payload of the segment at i start with the prefix (None: any segment matches); None as a result: the data
/// ends inside the prefix, so this cannot be decided
pub open spec fn has_prefix(s: Seq<u8>, i: int, pre: Option<Seq<u8>>) -> Option<bool> {
    match pre {
        None => Some(true),
        Some(p) => if p.len() > be16(s[i + 1], s[i + 2]) - 2 { Some(false) }
                   else if i + 3 + p.len() > s.len() { None }
                   else { Some(s.subrange(i + 3, i + 3 + p.len()) =~= p) },
    }
}
pub open spec fn from(s: Seq<u8>, e: int) -> Seq<u8> { if e < s.len() { s.skip(e) } else { Seq::empty() } }
pub open spec fn cut(s: Seq<u8>, a: int, e: int) -> Seq<u8> { s.take(a) + from(s, e) }

/// the data with every matching segment removed; None if it is mangled
pub open spec fn cleared(s: Seq<u8>, i: int, prev: bool, m: u8, pre: Option<Seq<u8>>) -> Option<Seq<u8>>
    decreases s.len(), avail(s.len() as int, i)
{
    if i < 2 || i >= s.len() { Some(s) }
    else if !prev { cleared(s, i + 1, s[i] == 0xff, m, pre) }
    else if s[i] == 0xff { cleared(s, i + 1, true, m, pre) }
    else if s[i] == 0xd9 { Some(s) }
    else if !seg_ok(s, i) { None }
    else {
        let e = seg_end(s, i);
        if s[i] == m {
            match has_prefix(s, i, pre) {
                None => None,
                Some(true) => cleared(cut(s, i - 1, e), i - 1, false, m, pre),
                Some(false) => cleared(s, e, false, m, pre),
            }
        } else if s[i] == 0xda {
            match ecs_end(s, e, false) {
                None => Some(s),
                Some(j) => if j >= e { cleared(s, j, false, m, pre) } else { None },
            }
        } else { cleared(s, e, false, m, pre) }
    }
}

/// what reading finds: the payload of the first APP1 segment that starts with the EXIF identifier
pub open spec fn found(s: Seq<u8>, i: int, prev: bool) -> Option<Seq<u8>>
    decreases avail(s.len() as int, i)
{
    if i < 0 || i >= s.len() { None }
    else if !prev { found(s, i + 1, s[i] == 0xff) }
    else if s[i] == 0xff { found(s, i + 1, true) }
    else if s[i] == 0xd9 { None }
    else if !seg_ok(s, i) { None }
    else {
        let e = seg_end(s, i);
        if s[i] == 0xe1 {
            if e > s.len() { None }
            else if EXIF_HEADER@.is_prefix_of(s.subrange(i + 3, e)) { Some(s.subrange(i + 3, e)) }
            else { found(s, e, false) }
        } else if s[i] == 0xda {
            match ecs_end(s, e, false) {
                None => None,
                Some(j) => if j >= e { found(s, j, false) } else { None },
            }
        } else { found(s, e, false) }
    }
}

pub open spec fn is_jpeg(s: Seq<u8>) -> bool { s.len() >= 2 && s[0] == 0xff && s[1] == 0xd8 }
/// the APP1 segment that carries EXIF data x
pub open spec fn app1(x: Seq<u8>) -> Seq<u8> {
    seq![0xffu8, 0xe1u8] + enc16((8 + x.len()) as u16, Endian::Big) + EXIF_HEADER@ + x
}

// ===== functions under contract =====================================================================================
//# fn src/jpg.rs check_signature -> r
//# spec
    ensures r is Ok <==> is_jpeg(file_buffer@)
//# begin
    proof { if JPG_SIGNATURE@.is_prefix_of(file_buffer@) { assert(file_buffer@[0] == JPG_SIGNATURE@[0] && file_buffer@[1] == JPG_SIGNATURE@[1]); }
            if is_jpeg(file_buffer@) { assert(JPG_SIGNATURE@ =~= file_buffer@.take(2)); } }
//# end

//# fn src/jpg.rs skip_ecs -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(),
    ensures
        kept(old(cursor), final(cursor)),
        r is Ok ==> old(cursor).pos() >= 0 ==> ecs_end(old(cursor).bytes(), old(cursor).pos(), false) == Some(final(cursor).pos()),
        r is Err && r->Err_0.k == ErrorKind::UnexpectedEof && old(cursor).pos() >= 0 ==> ecs_end(old(cursor).bytes(), old(cursor).pos(), false) is None,
        old(cursor).faultless() && old(cursor).pos() >= 0 && r is Err ==> r->Err_0.k == ErrorKind::UnexpectedEof,
//# loop 0
        invariant
            kept(old(cursor), cursor),
            old(cursor).bytes().len() <= maxbuf(),
            old(cursor).pos() >= 0 ==> cursor.pos() >= old(cursor).pos() + (if previous_byte_was_marker_prefix { 1int } else { 0 }),
            old(cursor).pos() >= 0 ==> ecs_end(cursor.bytes(), old(cursor).pos(), false) == ecs_end(cursor.bytes(), cursor.pos(), previous_byte_was_marker_prefix),
        decreases cursor.bytes().len() - cursor.pos()
//# end

//# fn src/jpg.rs clear_segment -> r
//# spec
    requires
        old(file_buffer)@.len() <= maxbuf(),
        prefix_bytes is Some ==> prefix_bytes->Some_0@.len() <= 0xffff,
    ensures
        is_jpeg(old(file_buffer)@) ==> ({
            let want = cleared(old(file_buffer)@, 2, false, segment_marker, match prefix_bytes { Some(p) => Some(p@), None => None });
            &&& r is Ok <==> want is Some
            &&& r is Ok ==> final(file_buffer)@ == want->Some_0
        }),
        !is_jpeg(old(file_buffer)@) ==> r is Err && final(file_buffer)@ == old(file_buffer)@,
//# begin
    let ghost pre: Option<Seq<u8>> = match prefix_bytes { Some(p) => Some(p@), None => None };
    let ghost s0 = file_buffer@;
//# loop 0
        invariant
            cursor.rest() == final(file_buffer)@,
            is_jpeg(s0), s0 == old(file_buffer)@,
            prefix_bytes is Some ==> prefix_bytes->Some_0@.len() <= 0xffff,
            pre == (match prefix_bytes { Some(p) => Some(p@), None => None::<Seq<u8>> }),
            cursor.bytes().len() <= maxbuf(),
            cursor.pos() >= 2 + (if previous_byte_was_marker_prefix { 1int } else { 0 }),
            cleared(s0, 2, false, segment_marker, pre) == cleared(cursor.bytes(), cursor.pos(), previous_byte_was_marker_prefix, segment_marker, pre),
        decreases cursor.bytes().len(), avail(cursor.bytes().len() as int, cursor.pos())
//# loop 0 begin
        let ghost c0 = cursor.bytes();
        let ghost i0 = cursor.pos();
        proof { if i0 + 3 <= c0.len() { lemma_ecs_end(c0, seg_end(c0, i0), false); } }
//# loop 0 end
        proof {
            if cursor.bytes().len() != c0.len() { assert(cursor.bytes() =~= cut(c0, i0 - 1, seg_end(c0, i0))); }
            else { assert(cursor.bytes() =~= c0); }
        }
//# end


//# include util_insert.rs
//# fn src/jpg.rs encode_metadata_jpg -> r
//# spec
    requires exif_vec@.len() <= maxbuf(),
    ensures
        r is Ok <==> exif_vec@.len() + 8 <= 0xffff,
        r matches Ok(v) ==> v@ =~= app1(exif_vec@),
//# begin
    proof { assert(enc16(0xffe1, Endian::Big) =~= seq![0xffu8, 0xe1u8]); }
//# end

//# fn src/jpg.rs as_u8_vec -> r
//# spec
    requires general_encoded_metadata@.len() <= maxbuf(),
    ensures
        r is Ok <==> general_encoded_metadata@.len() + 8 <= 0xffff,
        r matches Ok(v) ==> v@ =~= app1(general_encoded_metadata@),
//# end

pub open spec fn exif_cleared(s: Seq<u8>) -> Option<Seq<u8>> { cleared(s, 2, false, 0xe1, Some(EXIF_HEADER@)) }

//# fn src/jpg.rs clear_metadata -> r
//# spec
    requires old(file_buffer)@.len() <= maxbuf(),
    ensures
        is_jpeg(old(file_buffer)@) ==> (r is Ok <==> exif_cleared(old(file_buffer)@) is Some),
        r is Ok ==> is_jpeg(old(file_buffer)@) && final(file_buffer)@ == exif_cleared(old(file_buffer)@)->Some_0,
//# end

//# include metadata_opaque.rs
/// the file with the EXIF data x: SOI, one APP1 segment, everything else
pub open spec fn written(c: Seq<u8>, x: Seq<u8>) -> Seq<u8> { c.take(2) + app1(x) + c.skip(2) }

pub proof fn lemma_cleared_keeps_soi(s: Seq<u8>, i: int, prev: bool, m: u8, pre: Option<Seq<u8>>)
    requires s.len() >= 2, i >= 2 + (if prev { 1int } else { 0 }),
    ensures cleared(s, i, prev, m, pre) matches Some(c) ==> 2 <= c.len() <= s.len() && c[0] == s[0] && c[1] == s[1],
    decreases s.len(), avail(s.len() as int, i)
{
    if i >= s.len() {}
    else if !prev { lemma_cleared_keeps_soi(s, i + 1, s[i] == 0xff, m, pre); }
    else if s[i] == 0xff { lemma_cleared_keeps_soi(s, i + 1, true, m, pre); }
    else if s[i] == 0xd9 {}
    else if !seg_ok(s, i) {}
    else {
        let e = seg_end(s, i);
        if s[i] == m {
            match has_prefix(s, i, pre) {
                None => {}
                Some(true) => { lemma_cleared_keeps_soi(cut(s, i - 1, e), i - 1, false, m, pre); }
                Some(false) => { lemma_cleared_keeps_soi(s, e, false, m, pre); }
            }
        } else if s[i] == 0xda {
            match ecs_end(s, e, false) {
                None => {}
                Some(j) => { if j >= e { lemma_cleared_keeps_soi(s, j, false, m, pre); } }
            }
        } else { lemma_cleared_keeps_soi(s, e, false, m, pre); }
    }
}

//# fn src/jpg.rs write_metadata -> r
//# spec
    requires old(file_buffer)@.len() <= maxbuf() / 4,
    ensures
        r is Ok <==> is_jpeg(old(file_buffer)@) && exif_cleared(old(file_buffer)@) is Some
            && metadata.encoding() is Some && metadata.encoding()->Some_0.len() + 8 <= 0xffff,
        r is Ok ==> final(file_buffer)@ == written(exif_cleared(old(file_buffer)@)->Some_0, metadata.encoding()->Some_0),
//# begin
    proof { if is_jpeg(file_buffer@) { lemma_cleared_keeps_soi(file_buffer@, 2, false, 0xe1, Some(EXIF_HEADER@)); } }
//# end

//# fn src/jpg.rs generic_read_metadata -> r
//# spec
    requires old(cursor).bytes().len() <= maxbuf(), old(cursor).pos() >= 0,
    ensures
        kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> found(old(cursor).bytes(), old(cursor).pos(), false) == Some(v@),
        old(cursor).faultless() && r is Err ==> found(old(cursor).bytes(), old(cursor).pos(), false) is None,
//# begin
    let ghost s = cursor.bytes();
    let ghost start = cursor.pos();
//# loop 0
        invariant
            kept(old(cursor), cursor), s == cursor.bytes(), start >= 0, start == old(cursor).pos(),
            s.len() <= maxbuf(),
            cursor.pos() >= 0,
            found(s, start, false) == found(s, cursor.pos(), previous_byte_was_marker_prefix),
        decreases avail(s.len() as int, cursor.pos())
//# loop 0 begin
        let ghost i0 = cursor.pos();
        proof { if i0 + 3 <= s.len() { lemma_ecs_end(s, seg_end(s, i0), false);
            if seg_ok(s, i0) { let p = s.subrange(i0 + 3, i0 + 3);  assert(p =~= Seq::<u8>::empty()); } } }
//# end

//# fn src/jpg.rs read_metadata -> r
//# spec
    requires file_buffer@.len() <= maxbuf(),
    ensures
        r matches Ok(v) ==> is_jpeg(file_buffer@) && found(file_buffer@, 2, false) == Some(v@),
        is_jpeg(file_buffer@) && r is Err ==> found(file_buffer@, 2, false) is None,
//# end

// ===== the properties as lemmas over these contracts ================================================================
/// P02: what was written is what is read
pub proof fn theorem_read_after_write(c: Seq<u8>, x: Seq<u8>)
    requires is_jpeg(c), x.len() + 8 <= 0xffff,
    ensures is_jpeg(written(c, x)), found(written(c, x), 2, false) == Some(EXIF_HEADER@ + x),
{
    let w = written(c, x);
    let n = (8 + x.len()) as u16;
    assert(w[2] == 0xff && w[3] == 0xe1 && w[4] == n / 256 && w[5] == n % 256);
    assert(be16(w[4], w[5]) == n);
    assert(w.subrange(6, 4 + n) =~= EXIF_HEADER@ + x);
    assert(EXIF_HEADER@.is_prefix_of(EXIF_HEADER@ + x));
    assert(found(w, 2, false) == found(w, 3, true));
    assert(seg_end(w, 3) == 4 + n);
}
/// P02: a later clear (and so a later write, which clears first) removes exactly the segment that was written
pub proof fn theorem_clear_after_write(c: Seq<u8>, x: Seq<u8>)
    requires is_jpeg(c), x.len() + 8 <= 0xffff,
    ensures exif_cleared(written(c, x)) == exif_cleared(c),
{
    lemma_written_head(c, x);
    let w = written(c, x);
    let pre = Some(EXIF_HEADER@);
    assert(cleared(w, 2, false, 0xe1, pre) == cleared(w, 3, true, 0xe1, pre));
    assert(cleared(w, 3, true, 0xe1, pre) == cleared(c, 2, false, 0xe1, pre));
}
proof fn lemma_written_head(c: Seq<u8>, x: Seq<u8>)
    requires is_jpeg(c), x.len() + 8 <= 0xffff,
    ensures ({ let w = written(c, x); let n = (8 + x.len()) as u16;
        &&& w.len() == c.len() + 10 + x.len() && w.take(2) =~= c.take(2) && is_jpeg(w)
        &&& w[2] == 0xff && w[3] == 0xe1 && w[4] == n / 256 && w[5] == n % 256 && be16(w[4], w[5]) == n
        &&& seg_end(w, 3) == 4 + n && w.subrange(6, 12) =~= EXIF_HEADER@ && cut(w, 2, 4 + n) =~= c }),
{
    let w = written(c, x);
    let n = (8 + x.len()) as u16;
    assert(w[2] == 0xff && w[3] == 0xe1 && w[4] == n / 256 && w[5] == n % 256);
    assert(be16(w[4], w[5]) == n);
    assert(seg_end(w, 3) == 4 + n);
    assert(w.subrange(6, 12) =~= EXIF_HEADER@);
    assert(cut(w, 2, 4 + n) =~= c) by {
        assert(w.take(2) =~= c.take(2));
        if 4 + n < w.len() { assert(w.skip(4 + n) =~= c.skip(2)); } else { assert(c.len() == 2); }
    }
}
//# helpers
fn main() {}
}
