//# include prelude.rs
//# include vecs.rs
//# rule clone of a list of numbers /\b(offset_data|byte_counts|length_data)\.clone\(\)/ => /vx_dup(\1)/
//# rule std::cmp::Ordering path /std::cmp::Ordering/ => /Ordering/
//# rule buffer of zeros -> contract-bearing allocation /vec!\[0u8;\s*(.+?)\s*\];/ => /vx_buffer(\1, &*data_cursor);/
//# rule for over zip -> counted loop /for \((\w+), (\w+)\) in (\w+)\.iter\(\)\.zip\((\w+)\.iter\(\)\)((?:\s|\x01\d+\x02)*)\{/ => /for vx_z in 0..vx_min(\3.len(), \4.len())\5{ let \1 = &\3[vx_z]; let \2 = &\4[vx_z];/
//# rule positions at which two lists agree -> contract-bearing count /(?s)(\w+)\.iter\(\)\s*\.zip\((\w+)\.iter\(\)\)\s*\.filter\(\|&\((\w+), (\w+)\)\|\s*\3 == \4\)\s*\.count\(\)/ => /vx_agree(&\1, &\2)/
//# rule match on the bytes of a list -> match on its slice /match (\w+)\[0\.\.2\]/ => /match vx_pair(&\1)/
//# rule two-byte slice pattern -> pair pattern /\[(0x\w\w), (0x\w\w)\](\s*=>)/ => /(\1, \2)\3/
//# rule comparison of a list with an array -> contract-bearing /(\w+_buffer|\w+_bytes) == (\[[^\]]*\]|EXIF_HEADER)/ => /vx_is(&\1, &\2)/
//# include meta_types.rs
//# include dirs.rs
//# include tagapi.rs
verus! {
use io::{Cursor, Read, Seek, Stream, Write};
use std::collections::HashSet;
/// a buffer: no larger than a directory entry or the input
pub fn vx_buffer(n: usize, c: &Cursor<&Vec<u8>>) -> (r: Vec<u8>)
    requires n <= 12 || n <= c.bytes().len()
    ensures r@.len() == n
{ vec![0u8; n] }
pub fn vx_agree(a: &Vec<u8>, b: &[u8; 4]) -> (r: usize) ensures r <= 4, a@.len() == 4 ==> (r == 4 <==> a@ == b@) {
    let mut k: usize = 0; let mut n: usize = 0;
    assert(a@.take(0) =~= b@.take(0));
    while k < a.len() && k < 4 invariant k <= a@.len(), k <= 4, n <= k, (n == k) <==> a@.take(k as int) == b@.take(k as int) decreases 4 - k
    { assert(a@.take(k + 1) =~= a@.take(k as int).push(a@[k as int])); assert(b@.take(k + 1) =~= b@.take(k as int).push(b@[k as int]));
      assert(a@.take(k + 1).take(k as int) =~= a@.take(k as int)); assert(b@.take(k + 1).take(k as int) =~= b@.take(k as int));
      assert(a@.take(k + 1)[k as int] == a@[k as int] && b@.take(k + 1)[k as int] == b@[k as int]);
      if a[k] == b[k] { n = n + 1; } k = k + 1; }
    assert(b@.take(4) =~= b@); if a.len() == 4 { assert(a@.take(4) =~= a@); }
    n
}
pub fn vx_pair(a: &Vec<u8>) -> (r: (u8, u8)) requires a@.len() >= 2 ensures r == (a@[0], a@[1]) { (a[0], a[1]) }
pub fn vx_is<const N: usize>(a: &Vec<u8>, b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@) {
    if a.len() != N { return false; }
    let mut k: usize = 0;
    while k < N invariant k <= N, a@.len() == N, forall|i: int| 0 <= i < k ==> a@[i] == b@[i] decreases N - k { if a[k] != b[k] { return false; } k = k + 1; }
    assert(a@ =~= b@); true
}
pub proof fn lemma_whole_components(f: ExifTagFormat, n: int, b: int) requires n >= 0, b == size_of_fmt(f) * n ensures b % size_of_fmt(f) == 0 { vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n, size_of_fmt(f)); assert(size_of_fmt(f) * n == n * size_of_fmt(f)) by (nonlinear_arith); }
pub proof fn lemma_below(s: Set<u32>, n: int)
    requires n >= 0, forall|x: u32| s.contains(x) ==> x < n
    ensures s.len() <= n
    decreases n
{
    if n > 0 {
        let m = (n - 1) as u32;
        if n <= 0x1_0000_0000 { assert forall|x: u32| s.remove(m).contains(x) implies x < n - 1 by {} lemma_below(s.remove(m), n - 1); }
        else { lemma_below(s, n - 1); }
    } else if s.len() > 0 { let x = s.choose(); assert(s.contains(x)); }
}
//# item src/ifd/mod.rs const IFD_ENTRY_LENGTH
//# item src/ifd/mod.rs const IFD_END_NO_LINK
//# item src/general_file_io.rs const EXIF_HEADER
/// the same data, and the position may have moved but stays in reach
pub open spec fn same(a: Cursor<&Vec<u8>>, b: Cursor<&Vec<u8>>) -> bool { a.inner == b.inner }
pub open spec fn in_reach(c: Cursor<&Vec<u8>>, begin: u64) -> bool { begin <= 0x1_0000_0000 && (c.pos() <= begin + u32::MAX || c.pos() <= c.bytes().len()) && c.bytes().len() <= io::maxbuf() }
// b: a and, behind it, directories with the number n, every one below the directory (g, n), none of which was there before
pub open spec fn below(a: Seq<Dir>, b: Seq<Dir>, g: ExifTagGroup, n: u32) -> bool {
    &&& a.len() <= b.len() && unique(b)
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    &&& forall|i: int| a.len() <= i < b.len() ==> ((#[trigger] b[i]).nr() == n && ascending(b[i].tags@) && depth(b[i].ty()) > depth(g) && (parent_of(b[i].ty()) matches Some(p) && (p == g || hasdir(b, p, n))))
}
// ... or with the directory (g, n) itself as well
pub open spec fn with_subs(a: Seq<Dir>, b: Seq<Dir>, g: ExifTagGroup, n: u32) -> bool {
    a == b || (a.len() < b.len() && unique(b) && below(a, b.drop_last(), g, n) && is_dir(b.last(), g, n) && ascending(b.last().tags@))
}
pub proof fn lemma_below_has(a: Seq<Dir>, b: Seq<Dir>, g: ExifTagGroup, n: u32)
    requires below(a, b, g, n), !hasdir(a, g, n)
    ensures !hasdir(b, g, n)
{ if hasdir(b, g, n) { let i = choose|i: int| 0 <= i < b.len() && is_dir(#[trigger] b[i], g, n); if i < a.len() { assert(is_dir(a[i], g, n)); } else { assert(depth(b[i].ty()) > depth(g)); } } }
pub proof fn lemma_has_push(b: Seq<Dir>, d: Dir, g: ExifTagGroup, n: u32)
    requires hasdir(b, g, n) ensures hasdir(b.push(d), g, n)
{ let i = choose|i: int| 0 <= i < b.len() && is_dir(#[trigger] b[i], g, n); assert(is_dir(b.push(d)[i], g, n)); }
pub proof fn lemma_has_prefix(a: Seq<Dir>, b: Seq<Dir>, g: ExifTagGroup, n: u32)
    requires hasdir(a, g, n), a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i]
    ensures hasdir(b, g, n)
{ let i = choose|i: int| 0 <= i < a.len() && is_dir(#[trigger] a[i], g, n); assert(b[i] == a[i]); assert(is_dir(b[i], g, n)); }
// a directory below one of those below
pub proof fn lemma_below_step(a: Seq<Dir>, b: Seq<Dir>, c: Seq<Dir>, g: ExifTagGroup, s: ExifTagGroup, n: u32)
    requires below(a, b, g, n), with_subs(b, c, s, n), parent_of(s) == Some(g)
    ensures below(a, c, g, n)
{
    if b != c {
        let m = c.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(m[i] == c[i]); assert(m[i] == b[i]); assert(b[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] c[i] == b[i] by { assert(m[i] == c[i]); assert(m[i] == b[i]); }
        assert forall|i: int| a.len() <= i < c.len() implies ((#[trigger] c[i]).nr() == n && ascending(c[i].tags@) && depth(c[i].ty()) > depth(g) && (parent_of(c[i].ty()) matches Some(p) && (p == g || hasdir(c, p, n)))) by {
            if i < b.len() { assert(c[i] == b[i]); let p = parent_of(b[i].ty())->0; if p != g { lemma_has_prefix(b, c, p, n); } }
            else if i < m.len() { assert(m[i] == c[i]); let p = parent_of(m[i].ty())->0; if p == s { assert(is_dir(c[c.len() - 1], s, n)); } else { lemma_has_prefix(m, c, p, n); } }
            else { assert(c[i] == c.last()); }
        }
    }
}
// what decoding yields for the directories with numbers below n
pub open spec fn tree(s: Seq<Dir>, n: u32) -> bool { unique(s) && parents(s) && all_ascending(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).nr() < n }
pub proof fn lemma_tree_step(a: Seq<Dir>, b: Seq<Dir>, n: u32)
    requires tree(a, n), with_subs(a, b, ExifTagGroup::GENERIC, n), n < u32::MAX
    ensures tree(b, (n + 1) as u32)
{
    if a != b {
        let m = b.drop_last();
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] b[i] == a[i] by { assert(m[i] == b[i]); assert(m[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies (parent_of((#[trigger] b[i]).ty()) matches Some(p) ==> hasdir(b, p, b[i].nr())) by {
            if i < a.len() { assert(b[i] == a[i]); match parent_of(a[i].ty()) { Some(p) => { lemma_has_prefix(a, b, p, a[i].nr()); } None => {} } }
            else if i < m.len() { assert(m[i] == b[i]); let p = parent_of(m[i].ty())->0; if p == ExifTagGroup::GENERIC { assert(is_dir(b[b.len() - 1], p, n)); } else { lemma_has_prefix(m, b, p, n); } }
            else { assert(b[i] == b.last()); }
        }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).nr() < n + 1 by { if i < a.len() { assert(b[i] == a[i]); } else if i < m.len() { assert(m[i] == b[i]); } else { assert(b[i] == b.last()); } }
        assert forall|i: int| 0 <= i < b.len() implies ascending((#[trigger] b[i]).tags@) by { if i < a.len() { assert(b[i] == a[i]); } else if i < m.len() { assert(m[i] == b[i]); } else { assert(b[i] == b.last()); } }
    }
}
impl ImageFileDirectory {
//# fn src/ifd/mod.rs check_data_available -> r
//# spec
    ensures r is Ok <==> (length == 0 || data_cursor.pos() + length <= data_cursor.bytes().len())
//# end
//# fn src/ifd/mod.rs decode_ifd -> r
//# attr
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
//# spec
    requires in_reach(*old(data_cursor), data_begin_position), unique(old(insert_into)@), !hasdir(old(insert_into)@, *group, generic_ifd_nr)
    ensures same(*final(data_cursor), *old(data_cursor)), r matches Ok(Some(_)) ==> old(data_cursor).pos() + 6 <= old(data_cursor).bytes().len(),
        r is Ok ==> with_subs(old(insert_into)@, final(insert_into)@, *group, generic_ifd_nr)
    decreases 3 - depth(*group)
//# begin
    let ghost c0 = *data_cursor; let ghost d0 = insert_into@;
    proof { fact_row(0, *group, ExifTagFormat::UNDEF); assert(IFD_END_NO_LINK@.len() == 4); }
//# loop 0
    invariant c0 == *old(data_cursor), same(*data_cursor, c0), in_reach(*data_cursor, data_begin_position), in_reach(c0, data_begin_position), c0.pos() + 6 <= c0.bytes().len(),
        data_cursor.pos() == c0.pos() + 2 + 12 * vx_n0, c0.pos() + 6 + 12 * number_of_entries <= c0.bytes().len(), vx_n0 <= vx_h0, vx_h0 == number_of_entries,
        d0 == old(insert_into)@, !hasdir(d0, *group, generic_ifd_nr), below(d0, insert_into@, *group, generic_ifd_nr)
    decreases vx_h0 - vx_n0
//# before /let raw_data;/
    proof { fact_row(hex_tag, *group, format); lemma_whole_components(format, hex_component_number as int, byte_count as int); }
//# before /if let TagType::IFD_OFFSET/
    proof { fact_struct(tag); }
    let ghost d1 = insert_into@;
//# before /data_cursor\.set_position\(backup_position\);\s+continue/
    proof { lemma_below_step(d0, d1, insert_into@, *group, subifd_group, generic_ifd_nr); }
//# before /insert_into\.push/
    proof { lemma_below_has(d0, insert_into@, *group, generic_ifd_nr); assert(ascending(tags@)); }
    let ghost d2 = insert_into@;
//# after /insert_into\.push\([^;]*;/
    proof { lemma_push_unique(d2, insert_into@.last(), *group, generic_ifd_nr); assert(insert_into@.drop_last() =~= d2); }
//# loop 1
    invariant c0 == *old(data_cursor), same(*data_cursor, c0), in_reach(*data_cursor, data_begin_position),
        d0 == old(insert_into)@, !hasdir(d0, *group, generic_ifd_nr), below(d0, insert_into@, *group, generic_ifd_nr)
//# end
}
impl Metadata {
//# fn src/metadata/mod.rs decode -> r
//# spec
    requires old(data_cursor).pos() == 0, old(data_cursor).bytes().len() <= u32::MAX
    ensures same(*final(data_cursor), *old(data_cursor)), r matches Ok((e, s)) ==> unique(s@) && parents(s@) && all_ascending(s@)
//# begin
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost c0 = *data_cursor; let ghost len = data_cursor.bytes().len();
//# loop 0
    invariant c0 == *old(data_cursor), same(*data_cursor, c0), data_start_position <= 6, len == c0.bytes().len(), len <= u32::MAX, 8 <= len,
        generic_ifd_nr == visited_offsets@.len(), generic_ifd_nr <= len + 1,
        tree(ifds@, generic_ifd_nr),
        ifd_offset_option is Some ==> forall|x: u32| visited_offsets@.contains(x) ==> x + 6 <= len,
    decreases len + 2 - visited_offsets@.len()
//# loop 0 begin
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { lemma_below(visited_offsets@, len - 5); }
    let ghost s0 = ifds@;
    proof { if hasdir(s0, ExifTagGroup::GENERIC, generic_ifd_nr) { let i = choose|i: int| 0 <= i < s0.len() && is_dir(#[trigger] s0[i], ExifTagGroup::GENERIC, generic_ifd_nr); assert(s0[i].nr() < generic_ifd_nr); } }
//# before /generic_ifd_nr \+= 1/
    proof { lemma_tree_step(s0, ifds@, generic_ifd_nr); }
//# end
//# fn src/metadata/mod.rs general_decoding_wrapper -> r
//# spec
    requires raw_pre_decode_general matches Ok(v) ==> v@.len() <= u32::MAX
    ensures r matches Ok(m) ==> wf(m.dirs()) && raw_pre_decode_general is Ok
//# before /return Ok\(data\)/
    proof { lemma_same_dirs(decoding_result->Ok_0.1@, data.dirs()); }
//# end
}
fn main() {}
}
