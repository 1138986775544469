//# include prelude.rs
//# include vecs.rs
//# rule derive(PartialOrd) comparison of directory kinds /(\w+\.get_ifd_type\(\))\s*<\s*(\w+\.get_ifd_type\(\))/ => /vx_lt(\1, \2)/
//# rule std::cmp::Ordering path /std::cmp::Ordering/ => /Ordering/
//# rule clone of a list of numbers /\b(offset_data|byte_counts|length_data)\.clone\(\)/ => /vx_dup(\1)/
//# rule clone of a list of tags /\bself\.tags\.clone\(\)/ => /vx_dup(&self.tags)/
//# rule extend with cloned elements /\.vx_extend\((\w+)\.get_tags\(\)\.iter\(\)\.cloned\(\)\)/ => /.vx_append(\1.get_tags())/
//# rule copy of a number through a reference /&current_offset\.clone\(\)/ => /&*current_offset/
//# rule reborrow of a mutable reference /to_u8_vec_macro!\(u32, current_offset,/ => /to_u8_vec_macro!(u32, &*current_offset,/
//# rule match on the clone of an enum /self\.endian\.clone\(\)/ => /vx_endian(&self.endian)/
//# rule Vec::from(array) -> contract-bearing /Vec::from\(/ => /vx_vec_from(/
//# include meta_types.rs
//# include tagapi.rs
verus! {
use io::{Cursor, Read, Seek, Write};
#[verifier::external_body]
pub fn vx_endian(e: &Endian) -> (r: Endian) ensures r == *e { unimplemented!() }
pub trait VxAppend<T> { fn vx_append(&mut self, o: &Vec<T>); }
impl VxAppend<ExifTag> for Vec<ExifTag> {
    fn vx_append(&mut self, o: &Vec<ExifTag>)
        ensures final(self)@ == old(self)@ + o@
    {
        let ghost s0 = self@;
        let mut k: usize = 0;
        while k < o.len() invariant k <= o@.len(), self@ =~= s0 + o@.take(k as int) decreases o@.len() - k
        { self.push(o[k].clone()); k = k + 1; }
        assert(o@.take(k as int) =~= o@);
    }
}
//# item src/ifd/mod.rs const IFD_ENTRY_LENGTH
//# item src/ifd/mod.rs const IFD_END_NO_LINK
// ---- what encoding writes: the exact bytes ---------------------------------------------------------------------------
pub open spec fn is_dir(d: Dir, g: ExifTagGroup, n: u32) -> bool { d.nr() == n && d.ty() == g }
pub open spec fn depth(g: ExifTagGroup) -> nat { match g { ExifTagGroup::GENERIC => 0, ExifTagGroup::EXIF => 1, ExifTagGroup::GPS => 1, ExifTagGroup::INTEROP => 2 } }
pub open spec fn first_dir(s: Seq<Dir>, g: ExifTagGroup, n: u32) -> Option<Dir> decreases s.len()
{ if s.len() == 0 { None } else { let r = first_dir(s.drop_last(), g, n); if r is Some { r } else if is_dir(s.last(), g, n) { Some(s.last()) } else { None } } }
pub proof fn lemma_first(s: Seq<Dir>, g: ExifTagGroup, n: u32, i: int)
    requires 0 <= i < s.len(), is_dir(s[i], g, n), forall|j: int| 0 <= j < i ==> !is_dir(#[trigger] s[j], g, n)
    ensures first_dir(s, g, n) == Some(s[i])
    decreases s.len()
{
    let d = s.drop_last();
    if i < d.len() {
        assert(d[i] == s[i]);
        assert forall|j: int| 0 <= j < i implies !is_dir(#[trigger] d[j], g, n) by { assert(d[j] == s[j]); }
        lemma_first(d, g, n, i);
    } else {
        assert forall|j: int| 0 <= j < d.len() implies !is_dir(#[trigger] d[j], g, n) by { assert(d[j] == s[j]); }
        lemma_no_first(d, g, n);
    }
}
pub proof fn lemma_no_first(s: Seq<Dir>, g: ExifTagGroup, n: u32)
    requires forall|j: int| 0 <= j < s.len() ==> !is_dir(#[trigger] s[j], g, n)
    ensures first_dir(s, g, n) is None
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|j: int| 0 <= j < s.drop_last().len() implies !is_dir(#[trigger] s.drop_last()[j], g, n) by { assert(s.drop_last()[j] == s[j]); }
        lemma_no_first(s.drop_last(), g, n);
        assert(!is_dir(s[s.len() - 1], g, n));
    }
}
pub open spec fn found(s: Seq<Dir>, g: ExifTagGroup, n: u32, i: int) -> bool { 0 <= i < s.len() && is_dir(s[i], g, n) && forall|j: int| 0 <= j < i ==> !is_dir(#[trigger] s[j], g, n) }
/// the first match of a search is the first directory
pub proof fn lemma_find(s: Seq<Dir>, g: ExifTagGroup, n: u32)
    ensures forall|i: int| 0 <= i < s.len() && is_dir(#[trigger] s[i], g, n) && (forall|j: int| 0 <= j < i ==> !is_dir(#[trigger] s[j], g, n)) ==> first_dir(s, g, n) == Some(s[i]),
        (forall|j: int| 0 <= j < s.len() ==> !is_dir(#[trigger] s[j], g, n)) ==> first_dir(s, g, n) is None
{
    assert forall|i: int| 0 <= i < s.len() && is_dir(#[trigger] s[i], g, n) && (forall|j: int| 0 <= j < i ==> !is_dir(#[trigger] s[j], g, n)) implies first_dir(s, g, n) == Some(s[i]) by { lemma_first(s, g, n, i); }
    if forall|j: int| 0 <= j < s.len() ==> !is_dir(#[trigger] s[j], g, n) { lemma_no_first(s, g, n); }
}
pub open spec fn sub_of(t: ExifTag) -> Option<ExifTagGroup> { match t { ExifTag::ExifOffset(_) => Some(ExifTagGroup::EXIF), ExifTag::GPSInfo(_) => Some(ExifTagGroup::GPS), ExifTag::InteropOffset(_) => Some(ExifTagGroup::INTEROP), _ => None } }
pub open spec fn is_data(t: ExifTag) -> bool { match t { ExifTag::StripOffsets(_, _) => true, ExifTag::StripByteCounts(_) => true, ExifTag::ThumbnailOffset(_, _) => true, ExifTag::ThumbnailLength(_) => true, _ => false } }
/// the entries that are written
pub open spec fn written() -> spec_fn(ExifTag) -> bool { |t: ExifTag| t.std_writable() || sub_of(t) is Some || is_data(t) }
/// the entries of a directory, links to other directories only as computed by the encoder, sorted
pub open spec fn relevant(info: Seq<Dir>, d: Dir) -> Seq<ExifTag> {
    stable(d.tags@.filter(|t: ExifTag| sub_of(t) is None) + (match first_dir(info, d.ty(), d.nr()) { Some(x) => x.tags@, None => Seq::empty() }), hexes())
}
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| 0u8) }
pub open spec fn pad(x: int) -> Seq<u8> { zeros((4 - x % 4) % 4) }
pub open spec fn cat(s: Seq<Vec<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last()@ } }
/// the addresses of consecutive strips from `off` on
pub open spec fn strip_at(s: Seq<Vec<u8>>, off: int, e: Endian) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { strip_at(s.drop_last(), off, e) + enc32((off + cat(s.drop_last()).len()) as u32, e) } }
pub open spec fn size_of(t: ExifTag) -> int { size_of_fmt(t.std_fmt()) * t.std_count() }
pub open spec fn head(t: ExifTag, e: Endian) -> Seq<u8> { enc16(t.std_hex(), e) + enc16(code_of(t.std_fmt()), e) + enc32(t.std_count() as u32, e) }
/// the value of an entry, and the data area after what the entry refers to was stored there
#[verifier::opaque]
pub open spec fn place(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, t: ExifTag, off: int, a: Seq<u8>) -> (Seq<u8>, Seq<u8>)
    decreases 3 - depth(g), 0nat
{
    match t {
        ExifTag::StripOffsets(_, d) => (strip_at(d@, off + a.len(), md.endian), a + cat(d@)),
        ExifTag::ThumbnailOffset(_, d) => (enc32((off + a.len()) as u32, md.endian), a + d@),
        _ => match sub_of(t) {
            Some(c) => match first_dir(md.image_file_directories@, c, nr) {
                Some(x) => if parent_of(c) == Some(g) && x.ty() == c { (enc32((off + a.len()) as u32, md.endian), a + enc_dir(md, info, x, off + a.len())) } else { (Seq::empty(), a) },
                None => (Seq::empty(), a) },
            None => (t.val(md.endian), a) } }
}
/// table and data area (which starts at `off`) of the first k entries
#[verifier::opaque]
pub open spec fn enc_entries(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, s: Seq<ExifTag>, off: int, k: int) -> (Seq<u8>, Seq<u8>)
    decreases 3 - depth(g), (if k > 0 { k as nat + 1 } else { 1nat })
{
    if k <= 0 { (Seq::empty(), pad(off)) } else {
        let (tab, a) = enc_entries(md, info, g, nr, s, off, k - 1);
        let t = s[k - 1];
        if !written()(t) { (tab, a) } else {
            let (v, a1) = place(md, info, g, nr, t, off, a);
            put(tab, a1, v, t, off, md.endian)
        }
    }
}
#[verifier::opaque]
pub open spec fn put(tab: Seq<u8>, a1: Seq<u8>, v: Seq<u8>, t: ExifTag, off: int, e: Endian) -> (Seq<u8>, Seq<u8>) {
    let a2 = a1 + pad(off + a1.len());
    if size_of(t) > 4 {
        let a3 = a2 + v + zeros(size_of(t) - v.len());
        (tab + (head(t, e) + enc32((off + a2.len()) as u32, e)), a3 + pad(off + a3.len()))
    } else { (tab + (head(t, e) + (v + zeros(4 - v.len()))), a2) }
}
pub proof fn lemma_put(tab: Seq<u8>, a1: Seq<u8>, v: Seq<u8>, t: ExifTag, off: int, e: Endian)
    requires v.len() <= size_of(t)
    ensures put(tab, a1, v, t, off, e).1.len() >= a1.len() + pad(off + a1.len()).len(), put(tab, a1, v, t, off, e).0.len() == tab.len() + 12,
        size_of(t) > 4 ==> put(tab, a1, v, t, off, e).1.len() >= size_of(t) + a1.len() + pad(off + a1.len()).len()
{ reveal(put); }
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) ensures a + (b + c) + d == a + (b + (c + d)) { assert(a + (b + c) + d =~= a + (b + (c + d))); }
pub open spec fn count_of(info: Seq<Dir>, d: Dir) -> int { relevant(info, d).filter(written()).len() as int }
#[verifier::opaque]
pub open spec fn enc_dir(md: Metadata, info: Seq<Dir>, d: Dir, base: int) -> Seq<u8>
    decreases 3 - depth(d.ty()), relevant(info, d).len() + 2
{
    let s = relevant(info, d);
    let (tab, a) = enc_entries(md, info, d.ty(), d.nr(), s, base + 6 + 12 * count_of(info, d), s.len() as int);
    enc16(count_of(info, d) as u16, md.endian) + tab + zeros(4) + a
}
pub open spec fn info_sound(md: Metadata, info: Seq<Dir>) -> bool {
    forall|k: int, j: int| 0 <= k < info.len() && 0 <= j < info[k].tags@.len() ==> sound_link(md, info[k], #[trigger] info[k].tags@[j])
}
pub open spec fn sound_link(md: Metadata, d: Dir, t: ExifTag) -> bool {
    exists|c: ExifTagGroup| #[trigger] is_offset_tag(t, c) && parent_of(c) == Some(d.ty()) && first_dir(md.image_file_directories@, c, d.nr()) is Some
}
pub open spec fn counts_fit(md: Metadata, info: Seq<Dir>) -> bool {
    forall|i: int| 0 <= i < md.image_file_directories@.len() ==> count_of(info, #[trigger] md.image_file_directories@[i]) <= 0xffff
}
// ---- lemmas
pub proof fn lemma_first_is(s: Seq<Dir>, g: ExifTagGroup, n: u32)
    ensures first_dir(s, g, n) matches Some(x) ==> is_dir(x, g, n) && s.contains(x)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first_is(s.drop_last(), g, n);
        if let Some(x) = first_dir(s.drop_last(), g, n) { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; assert(s[i] == x); }
        assert(s[s.len() - 1] == s.last());
    }
}
/// every link among the entries of a directory leads to a child directory that exists
pub proof fn lemma_links(md: Metadata, info: Seq<Dir>, d: Dir)
    requires info_sound(md, info)
    ensures forall|i: int| 0 <= i < relevant(info, d).len() && sub_of(#[trigger] relevant(info, d)[i]) is Some ==> sound_link(md, d, relevant(info, d)[i])
{
    let own = d.tags@.filter(|t: ExifTag| sub_of(t) is None);
    let ext = match first_dir(info, d.ty(), d.nr()) { Some(x) => x.tags@, None => Seq::empty() };
    lemma_stable(own + ext, hexes());
    lemma_filter_elems(d.tags@, |t: ExifTag| sub_of(t) is None);
    lemma_first_is(info, d.ty(), d.nr());
    let s = relevant(info, d);
    assert forall|i: int| 0 <= i < s.len() && sub_of(#[trigger] s[i]) is Some implies sound_link(md, d, s[i]) by {
        s.to_multiset_ensures(); (own + ext).to_multiset_ensures();
        assert(s.contains(s[i]));
        assert((own + ext).to_multiset().count(s[i]) > 0);
        assert((own + ext).contains(s[i]));
        let j = choose|j: int| 0 <= j < (own + ext).len() && (own + ext)[j] == s[i];
        if j < own.len() { assert(own[j] == s[i]); assert(sub_of(own[j]) is None); }
        else { let x = first_dir(info, d.ty(), d.nr())->Some_0; let k = choose|k: int| 0 <= k < info.len() && info[k] == x; assert(info[k].tags@[j - own.len()] == s[i]); }
    }
}
/// the definitions, one step at a time
pub proof fn lemma_entries(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, s: Seq<ExifTag>, off: int, k: int)
    ensures k <= 0 ==> enc_entries(md, info, g, nr, s, off, k) == (Seq::<u8>::empty(), pad(off)),
        k > 0 ==> ({ let (tab, a) = enc_entries(md, info, g, nr, s, off, k - 1); let t = s[k - 1]; let (v, a1) = place(md, info, g, nr, t, off, a);
            enc_entries(md, info, g, nr, s, off, k) == if !written()(t) { (tab, a) } else { put(tab, a1, v, t, off, md.endian) } })
{ reveal(enc_entries); reveal(place); reveal(enc_dir); }
pub proof fn lemma_place(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, t: ExifTag, off: int, a: Seq<u8>)
    ensures place(md, info, g, nr, t, off, a).1.len() >= a.len(),
        match t {
            ExifTag::StripOffsets(_, d) => place(md, info, g, nr, t, off, a) == (strip_at(d@, off + a.len(), md.endian), a + cat(d@)),
            ExifTag::ThumbnailOffset(_, d) => place(md, info, g, nr, t, off, a) == (enc32((off + a.len()) as u32, md.endian), a + d@),
            _ => match sub_of(t) {
                Some(c) => match first_dir(md.image_file_directories@, c, nr) {
                    Some(x) => parent_of(c) == Some(g) && x.ty() == c ==> place(md, info, g, nr, t, off, a) == (enc32((off + a.len()) as u32, md.endian), a + enc_dir(md, info, x, off + a.len())),
                    None => true },
                None => place(md, info, g, nr, t, off, a) == (t.val(md.endian), a) } }
{ reveal(enc_entries); reveal(place); reveal(enc_dir); }
pub proof fn lemma_area_grows(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, s: Seq<ExifTag>, off: int, k: int, n: int)
    requires 0 <= k <= n
    ensures enc_entries(md, info, g, nr, s, off, k).1.len() <= enc_entries(md, info, g, nr, s, off, n).1.len()
    decreases n
{ if k < n { lemma_area_grows(md, info, g, nr, s, off, k, n - 1); lemma_entries(md, info, g, nr, s, off, n); if written()(s[n - 1]) { lemma_place(md, info, g, nr, s[n - 1], off, enc_entries(md, info, g, nr, s, off, n - 1).1); reveal(put); } } }
pub proof fn lemma_cat_len(s: Seq<Vec<u8>>, k: int) requires 0 <= k <= s.len() ensures cat(s.take(k)).len() <= cat(s).len() decreases s.len()
{ if k < s.len() { lemma_cat_len(s.drop_last(), k); assert(s.drop_last().take(k) =~= s.take(k)); } else { assert(s.take(k) =~= s); } }
pub proof fn fact_codes(f: ExifTagFormat) ensures 1 <= size_of_fmt(f) <= 8, 1 <= code_of(f) <= 12 {}
pub proof fn lemma_count(t: ExifTag) requires size_of(t) <= u32::MAX ensures t.std_count() <= u32::MAX, t.std_count() * size_of_fmt(t.std_fmt()) == size_of(t)
{ fact_codes(t.std_fmt()); let c = t.std_count() as int; let z = size_of_fmt(t.std_fmt()); assert(c <= z * c && c * z == z * c) by (nonlinear_arith) requires 1 <= z, c >= 0; }
pub proof fn lemma_dir_len(md: Metadata, info: Seq<Dir>, d: Dir, base: int)
    requires info_sound(md, info)
    ensures enc_dir(md, info, d, base).len() == 6 + 12 * count_of(info, d) + enc_entries(md, info, d.ty(), d.nr(), relevant(info, d), base + 6 + 12 * count_of(info, d), relevant(info, d).len() as int).1.len()
{
    reveal(enc_entries); reveal(place); reveal(enc_dir);
    let s = relevant(info, d);
    lemma_links(md, info, d);
    lemma_table_len(md, info, d.ty(), d.nr(), s, base + 6 + 12 * count_of(info, d), s.len() as int);
    assert(s.take(s.len() as int) =~= s);
}
pub proof fn lemma_table_len(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, s: Seq<ExifTag>, off: int, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() && sub_of(#[trigger] s[i]) is Some ==> exists|d: Dir| d.ty() == g && d.nr() == nr && sound_link(md, d, s[i])
    ensures enc_entries(md, info, g, nr, s, off, k).0.len() == 12 * s.take(k).filter(written()).len()
    decreases k
{
    if k > 0 {
        lemma_table_len(md, info, g, nr, s, off, k - 1);
        assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
        lemma_filter_push(s.take(k - 1), s[k - 1], written());
        lemma_value_len(md, info, g, nr, s[k - 1], off, enc_entries(md, info, g, nr, s, off, k - 1).1);
        lemma_entries(md, info, g, nr, s, off, k);
        reveal(put);
    } else { lemma_filter_none(s.take(0), written()); lemma_entries(md, info, g, nr, s, off, k); }
}
pub proof fn lemma_strip_len(s: Seq<Vec<u8>>, off: int, e: Endian) ensures strip_at(s, off, e).len() == 4 * s.len() decreases s.len() { if s.len() > 0 { lemma_strip_len(s.drop_last(), off, e); } }
/// a value is not longer than its components
pub proof fn lemma_value_len(md: Metadata, info: Seq<Dir>, g: ExifTagGroup, nr: u32, t: ExifTag, off: int, a: Seq<u8>)
    requires sub_of(t) is Some ==> exists|d: Dir| d.ty() == g && d.nr() == nr && sound_link(md, d, t)
    ensures place(md, info, g, nr, t, off, a).0.len() <= size_of(t)
{
    reveal(enc_entries); reveal(place); reveal(enc_dir);
    fact_size(t, md.endian); fact_struct(t);
    match t { ExifTag::StripOffsets(_, d) => { lemma_strip_len(d@, off + a.len(), md.endian); } _ => {} }
}
impl Metadata {
    pub open spec fn dirs(&self) -> Seq<Dir> { self.image_file_directories@ }
//# fn src/metadata/get.rs get_ifds -> r
//# spec
    ensures *r == self.image_file_directories
//# end
//# fn src/metadata/get.rs get_endian -> r
//# spec
    ensures r == self.endian
//# end
}
impl ImageFileDirectory {
//# fn src/ifd/get.rs get_ifd_type_for_offset_tag -> r
//# spec
    ensures r == sub_of(*tag)
//# end
//# fn src/ifd/mod.rs encode_ifd -> r
//# attr
#[verifier::spinoff_prover]
#[verifier::rlimit(100)]
#[verifier::loop_isolation(true)]
//# spec
    requires info_sound(*data, old(ifds_with_offset_info_only)@), counts_fit(*data, old(ifds_with_offset_info_only)@), data.dirs().contains(*self),
        *old(current_offset) + enc_dir(*data, old(ifds_with_offset_info_only)@, *self, *old(current_offset) as int).len() <= u32::MAX
    ensures r is Ok, final(ifds_with_offset_info_only)@ == old(ifds_with_offset_info_only)@,
        final(encode_vec)@ == old(encode_vec)@ + enc_dir(*data, old(ifds_with_offset_info_only)@, *self, *old(current_offset) as int),
        *final(current_offset) == *old(current_offset) + enc_dir(*data, old(ifds_with_offset_info_only)@, *self, *old(current_offset) as int).len(),
        r->Ok_0.0 == *old(current_offset) + 2 + 12 * count_of(old(ifds_with_offset_info_only)@, *self),
        r->Ok_0.1@ == enc32(*old(current_offset), data.endian)
    decreases 3 - depth(self.ty())
//# before /encode_vec\.extend\(IFD_END_NO_LINK\.iter/
    proof { reveal(enc_entries); reveal(place); reveal(enc_dir); assert(IFD_END_NO_LINK@ =~= zeros(4)); }
//# begin
    let ghost info = ifds_with_offset_info_only@;
    let ghost base = *current_offset;
    let ghost ev0 = encode_vec@;
    let ghost s = relevant(info, *self);
    let ghost n = count_of(info, *self);
    let ghost off = base + 6 + 12 * n;
    proof { lemma_entries(*data, info, self.ty(), self.nr(), s, off, 0); lemma_area_grows(*data, info, self.ty(), self.nr(), s, off, 0, s.len() as int); lemma_links(*data, info, *self); lemma_dir_len(*data, info, *self, base as int); }
    proof { lemma_find(info, self.ty(), self.nr()); }
//# before /all_relevant_tags\.sort_by_key/
    let ghost vx_list = all_relevant_tags@;
//# before /let count_entries/
    proof {
        assert(all_relevant_tags@ == s) by {
            assert(vx_list =~= self.tags@.filter(|t: ExifTag| sub_of(t) is None) + (match first_dir(info, self.ty(), self.nr()) { Some(x) => x.tags@, None => Seq::<ExifTag>::empty() }));
        }
    }
//# before /let mut ifd_offset_area/
    proof { assert(count_entries == n); }
//# loop 0 index
    invariant vx_i0 <= s.len(), vx_e0@ == s, s == relevant(info, *self), n == count_of(info, *self), off == base + 6 + 12 * n, n <= 0xffff, count_entries == n,
        ifds_with_offset_info_only@ == info, info_sound(*data, info), counts_fit(*data, info), data.dirs().contains(*self),
        forall|i: int| 0 <= i < s.len() && sub_of(#[trigger] s[i]) is Some ==> sound_link(*data, *self, s[i]),
        off + enc_entries(*data, info, self.ty(), self.nr(), s, off, s.len() as int).1.len() <= u32::MAX,
        encode_vec@ == ev0 + (enc16(n as u16, data.endian) + enc_entries(*data, info, self.ty(), self.nr(), s, off, vx_i0 as int).0),
        ifd_offset_area@ == enc_entries(*data, info, self.ty(), self.nr(), s, off, vx_i0 as int).1,
        *current_offset == off + ifd_offset_area@.len(), ifd_offset == base, ifd_offset_vec@ == enc32(base, data.endian),
    decreases s.len() - vx_i0
//# loop 0 begin
    let ghost k = vx_i0 as int;
    let ghost tab = enc_entries(*data, info, self.ty(), self.nr(), s, off, k).0;
    let ghost a = ifd_offset_area@;
    let ghost ev1 = encode_vec@;
    let ghost t = s[k];
    let ghost pl = place(*data, info, self.ty(), self.nr(), t, off, a);
    proof {
        lemma_area_grows(*data, info, self.ty(), self.nr(), s, off, k + 1, s.len() as int);
        lemma_value_len(*data, info, self.ty(), self.nr(), t, off, a);
        lemma_place(*data, info, self.ty(), self.nr(), t, off, a); lemma_entries(*data, info, self.ty(), self.nr(), s, off, k + 1);
        fact_struct(t); fact_codes(t.std_fmt());
        lemma_put(tab, pl.1, pl.0, t, off, data.endian);
        if written()(t) { lemma_count(t); }
        if let Some(c) = sub_of(t) {
            let w = choose|w: ExifTagGroup| #[trigger] is_offset_tag(t, w) && parent_of(w) == Some(self.ty()) && first_dir(data.dirs(), w, self.nr()) is Some;
            assert(w == c);
            lemma_find(data.dirs(), c, self.nr()); lemma_first_is(data.dirs(), c, self.nr());
        }
    }
//# before /let value = match/
    proof { assert(written()(t)); assert(*tag == t); }
//# loop 1 index
    invariant vx_i1 <= vx_e1@.len(), t matches ExifTag::StripOffsets(_, d) && d@ == vx_e1@, value@ == strip_at(vx_e1@.take(vx_i1 as int), off + a.len(), data.endian), ifd_offset_area@ == a + cat(vx_e1@.take(vx_i1 as int)),
        *current_offset == off + ifd_offset_area@.len(), off + a.len() + cat(vx_e1@).len() <= u32::MAX,
    decreases vx_e1@.len() - vx_i1
//# loop 1 begin
    proof {
        lemma_cat_len(vx_e1@, vx_i1 as int + 1);
        assert(vx_e1@.take(vx_i1 + 1).drop_last() =~= vx_e1@.take(vx_i1 as int));
        assert(vx_e1@.take(vx_i1 + 1).last() == vx_e1@[vx_i1 as int]);
    }
//# loop 1 end
    proof { assert(ifd_offset_area@ =~= a + cat(vx_e1@.take(vx_i1 as int))); }
//# loop 1 after
    proof { assert(vx_e1@.take(vx_i1 as int) =~= vx_e1@); }
//# before /let alignment_count = \(4 - \*current_offset % 4\) % 4;\s*\*current_offset \+= alignment_count;\s*ifd_offset_area\.extend/
    proof { assert(t matches ExifTag::StripOffsets(_, d) ==> value@ == pl.0); assert(t matches ExifTag::ThumbnailOffset(_, d) ==> value@ == pl.0); assert(sub_of(t) is Some ==> value@ == pl.0); assert(value@ == pl.0); assert(ifd_offset_area@ == pl.1); assert(*current_offset == off + pl.1.len()); }
//# before /let byte_count/
    proof { assert(encode_vec@ =~= ev1 + head(t, data.endian)); assert(ifd_offset_area@ =~= pl.1 + pad(off + pl.1.len())); }
    let ghost a2 = ifd_offset_area@;
    let ghost evh = encode_vec@;
    proof { reveal(put); }
//# before /\}\s*else\s*\{\s*let pre_length/
    proof {
        let w = head(t, data.endian) + enc32((off + a2.len()) as u32, data.endian);
        assert(encode_vec@ =~= ev1 + w); lemma_assoc(ev0, enc16(n as u16, data.endian), tab, w);
        assert(ifd_offset_area@ =~= put(tab, pl.1, pl.0, t, off, data.endian).1);
    }
//# loop 2 iter
    it
//# loop 2
    invariant encode_vec@ =~= ev2 + zeros(it.index@)
//# loop 2 before
    let ghost ev2 = encode_vec@;
//# loop 2 after
    proof {
        let w = head(t, data.endian) + (pl.0 + zeros(4 - pl.0.len()));
        assert(encode_vec@ =~= ev1 + w); lemma_assoc(ev0, enc16(n as u16, data.endian), tab, w);
    }
//# end
}
// ---- all pages
impl Endian {
//# fn src/endian.rs header -> r
//# spec
    ensures r@ == header_of(*self)
//# end
}
pub open spec fn header_of(e: Endian) -> Seq<u8> { match e { Endian::Little => seq![0x49u8, 0x49, 0x2a, 0, 8, 0, 0, 0], Endian::Big => seq![0x4du8, 0x4d, 0, 0x2a, 0, 0, 0, 8] } }
#[verifier::external_body]
pub fn vx_vec_from(a: [u8; 8]) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
/// the pages 0..n written one after the other, and where the address of the next one goes
pub open spec fn whole(md: Metadata, info: Seq<Dir>, n: int) -> (Seq<u8>, int) decreases n {
    if n <= 0 { (header_of(md.endian), 4) } else {
        let (b, l) = whole(md, info, n - 1);
        match first_dir(md.dirs(), ExifTagGroup::GENERIC, (n - 1) as u32) {
            None => (b, l),
            Some(d) => (io::overwrite(b + enc_dir(md, info, d, b.len() as int), l, enc32(b.len() as u32, md.endian)), b.len() + 2 + 12 * count_of(info, d)) }
    }
}
pub open spec fn unique(s: Seq<Dir>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !((#[trigger] s[i]).nr() == (#[trigger] s[j]).nr() && s[i].ty() == s[j].ty()) }
pub open spec fn linked(x: Dir, c: ExifTagGroup) -> bool { exists|j: int| 0 <= j < x.tags@.len() && is_offset_tag(#[trigger] x.tags@[j], c) }
pub open spec fn has_link(info: Seq<Dir>, d: Dir) -> bool {
    parent_of(d.ty()) matches Some(g) ==> (first_dir(info, g, d.nr()) matches Some(x) && linked(x, d.ty()))
}
pub open spec fn info_ok(md: Metadata, info: Seq<Dir>) -> bool {
    &&& info_sound(md, info)
    &&& forall|k: int| 0 <= k < info.len() ==> strictly((#[trigger] info[k]).tags@)
    &&& forall|i: int| 0 <= i < md.dirs().len() ==> has_link(info, #[trigger] md.dirs()[i])
}
/// at most 65535 entries per directory, and everything below 4 GB
pub open spec fn encodable(md: Metadata) -> bool {
    &&& unique(md.dirs())
    &&& forall|info: Seq<Dir>, n: int| #[trigger] info_ok(md, info) && 0 <= n <= 0x1_0000_0000 ==> counts_fit(md, info) && (#[trigger] whole(md, info, n)).0.len() <= u32::MAX
}
pub proof fn lemma_one(s: Seq<Dir>, g: ExifTagGroup, n: u32)
    requires unique(s)
    ensures s.filter(|d: Dir| is_dir(d, g, n)) == (match first_dir(s, g, n) { Some(x) => seq![x], None => Seq::<Dir>::empty() })
    decreases s.len()
{
    let p = |d: Dir| is_dir(d, g, n);
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert(unique(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies !((#[trigger] d[i]).nr() == (#[trigger] d[j]).nr() && d[i].ty() == d[j].ty()) by { assert(d[i] == s[i] && d[j] == s[j]); } }
        lemma_one(d, g, n);
        lemma_first_is(d, g, n);
        if let Some(x) = first_dir(d, g, n) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); assert(s[s.len() - 1] == s.last()); }
        assert(Seq::<Dir>::empty().push(s.last()) =~= seq![s.last()]);
    }
}
pub proof fn lemma_whole_len(md: Metadata, info: Seq<Dir>, n: int, m: int)
    requires 0 <= n <= m, info_sound(md, info)
    ensures whole(md, info, n).0.len() <= whole(md, info, m).0.len(), 0 <= whole(md, info, n).1 <= whole(md, info, n).0.len() - 4
    decreases m
{
    if n < m { lemma_whole_len(md, info, n, m - 1); }
    if m > 0 {
        if n == m { lemma_whole_len(md, info, m - 1, m - 1); }
        let (b, l) = whole(md, info, m - 1);
        if let Some(d) = first_dir(md.dirs(), ExifTagGroup::GENERIC, (m - 1) as u32) { lemma_dir_len(md, info, d, b.len() as int); lemma_whole_len(md, info, m - 1, m - 1); }
    }
}
pub open spec fn all_strict(info: Seq<Dir>) -> bool { forall|k: int| 0 <= k < info.len() ==> strictly((#[trigger] info[k]).tags@) }
pub proof fn lemma_first_at(s: Seq<Dir>, g: ExifTagGroup, n: u32) -> (i: int)
    requires first_dir(s, g, n) is Some
    ensures found(s, g, n, i), first_dir(s, g, n) == Some(s[i])
    decreases s.len()
{
    let d = s.drop_last();
    if first_dir(d, g, n) is Some {
        let i = lemma_first_at(d, g, n);
        assert(s[i] == d[i]); assert forall|j: int| 0 <= j < i implies !is_dir(#[trigger] s[j], g, n) by { assert(s[j] == d[j]); }
        i
    } else {
        let i = s.len() - 1;
        assert forall|j: int| 0 <= j < i implies !is_dir(#[trigger] s[j], g, n) by { assert(s[j] == d[j]); lemma_none(d, g, n, j); }
        i
    }
}
pub proof fn lemma_none(s: Seq<Dir>, g: ExifTagGroup, n: u32, j: int)
    requires first_dir(s, g, n) is None, 0 <= j < s.len()
    ensures !is_dir(s[j], g, n)
    decreases s.len()
{ if j < s.len() - 1 { lemma_none(s.drop_last(), g, n, j); assert(s.drop_last()[j] == s[j]); } }
pub proof fn lemma_offset_hex(t: ExifTag, u: ExifTag, c: ExifTagGroup, w: ExifTagGroup)
    requires is_offset_tag(t, c), is_offset_tag(u, w)
    ensures t.hex() == u.hex() <==> c == w
{ fact_struct(t); fact_struct(u); }
pub proof fn lemma_set_elems(a: Seq<ExifTag>, b: Seq<ExifTag>, t: ExifTag)
    requires set_ok(a, b, t)
    ensures exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == t,
        forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == t || (exists|k: int| 0 <= k < a.len() && #[trigger] a[k] == b[j]),
        forall|k: int| 0 <= k < a.len() && (#[trigger] a[k]).hex() != t.hex() ==> exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[k]
{
    lemma_filter_elems(b, |x: ExifTag| x.hex() == t.hex());
    assert(at_hex(b, t.hex())[0] == t);
    assert(b.contains(at_hex(b, t.hex())[0]));
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] == t || (exists|k: int| 0 <= k < a.len() && #[trigger] a[k] == b[j]) by {
        let h = b[j].hex();
        lemma_filter_elems(b, |x: ExifTag| x.hex() == h); lemma_filter_elems(a, |x: ExifTag| x.hex() == h);
        assert(at_hex(b, h).contains(b[j]));
        let m = choose|m: int| 0 <= m < at_hex(b, h).len() && at_hex(b, h)[m] == b[j];
        if h != t.hex() { assert(a.contains(at_hex(a, h)[m])); }
    }
    assert forall|k: int| 0 <= k < a.len() && (#[trigger] a[k]).hex() != t.hex() implies exists|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[k] by {
        let h = a[k].hex();
        lemma_filter_elems(b, |x: ExifTag| x.hex() == h); lemma_filter_elems(a, |x: ExifTag| x.hex() == h);
        assert(at_hex(a, h).contains(a[k]));
        let m = choose|m: int| 0 <= m < at_hex(a, h).len() && at_hex(a, h)[m] == a[k];
        assert(b.contains(at_hex(b, h)[m]));
    }
}
/// setting a link in the k-th directory
pub open spec fn updated(md: Metadata, i0: Seq<Dir>, i1: Seq<Dir>, d: Dir) -> bool {
    info_sound(md, i1) && all_strict(i1) && has_link(i1, d) && forall|y: Dir| #[trigger] has_link(i0, y) ==> has_link(i1, y)
}
pub proof fn lemma_update_sound(md: Metadata, i0: Seq<Dir>, k: int, x: Dir, d: Dir, pg: ExifTagGroup, t: ExifTag)
    requires found(i0, pg, d.nr(), k), is_dir(x, pg, d.nr()), set_ok(i0[k].tags@, x.tags@, t), is_offset_tag(t, d.ty()), parent_of(d.ty()) == Some(pg), md.dirs().contains(d), info_sound(md, i0), all_strict(i0)
    ensures info_sound(md, i0.update(k, x))
{
    let i1 = i0.update(k, x);
    lemma_set_elems(i0[k].tags@, x.tags@, t);
    let m = choose|m: int| 0 <= m < md.dirs().len() && md.dirs()[m] == d;
    if first_dir(md.dirs(), d.ty(), d.nr()) is None { lemma_none(md.dirs(), d.ty(), d.nr(), m); }
        assert forall|q: int, j: int| 0 <= q < i1.len() && 0 <= j < i1[q].tags@.len() implies sound_link(md, i1[q], #[trigger] i1[q].tags@[j]) by {
            if q == k {
                if x.tags@[j] == t { assert(sound_link(md, x, t)) by { assert(is_offset_tag(t, d.ty())); } }
                else { let w = choose|w: int| 0 <= w < i0[k].tags@.len() && #[trigger] i0[k].tags@[w] == x.tags@[j]; assert(sound_link(md, i0[k], i0[k].tags@[w])); let c = choose|c: ExifTagGroup| #[trigger] is_offset_tag(x.tags@[j], c) && parent_of(c) == Some(i0[k].ty()) && first_dir(md.dirs(), c, i0[k].nr()) is Some; assert(is_offset_tag(x.tags@[j], c)); }
            } else { assert(sound_link(md, i0[q], i0[q].tags@[j])); }
        }
}
pub proof fn lemma_update_link(md: Metadata, i0: Seq<Dir>, k: int, x: Dir, d: Dir, pg: ExifTagGroup, t: ExifTag)
    requires found(i0, pg, d.nr(), k), is_dir(x, pg, d.nr()), set_ok(i0[k].tags@, x.tags@, t), is_offset_tag(t, d.ty()), parent_of(d.ty()) == Some(pg), md.dirs().contains(d), info_sound(md, i0), all_strict(i0)
    ensures has_link(i0.update(k, x), d), forall|y: Dir| #[trigger] has_link(i0, y) ==> has_link(i0.update(k, x), y)
{
    let i1 = i0.update(k, x);
    lemma_set_elems(i0[k].tags@, x.tags@, t);
    lemma_first(i1, pg, d.nr(), k);
    let j = choose|j: int| 0 <= j < x.tags@.len() && #[trigger] x.tags@[j] == t;
    assert(is_offset_tag(x.tags@[j], d.ty()));
    assert forall|y: Dir| #[trigger] has_link(i0, y) implies has_link(i1, y) by {
        if let Some(g) = parent_of(y.ty()) {
            let i = lemma_first_at(i0, g, y.nr());
            if i == k {
                lemma_first(i0, pg, d.nr(), k);
                let w = choose|w: int| 0 <= w < i0[k].tags@.len() && is_offset_tag(#[trigger] i0[k].tags@[w], y.ty());
                lemma_offset_hex(i0[k].tags@[w], t, y.ty(), d.ty());
                if y.ty() != d.ty() { let q = choose|q: int| 0 <= q < x.tags@.len() && #[trigger] x.tags@[q] == i0[k].tags@[w]; assert(is_offset_tag(x.tags@[q], y.ty())); }
            } else {
                assert(i1[i] == i0[i]);
                assert forall|q: int| 0 <= q < i implies !is_dir(#[trigger] i1[q], g, y.nr()) by { assert(!is_dir(i0[q], g, y.nr())); if q == k { assert(is_dir(i0[k], pg, d.nr())); } }
                lemma_first(i1, g, y.nr(), i);
            }
        }
    }
}
pub proof fn lemma_info_update(md: Metadata, i0: Seq<Dir>, k: int, x: Dir, d: Dir, pg: ExifTagGroup, t: ExifTag)
    requires found(i0, pg, d.nr(), k), is_dir(x, pg, d.nr()), set_ok(i0[k].tags@, x.tags@, t), is_offset_tag(t, d.ty()), parent_of(d.ty()) == Some(pg), md.dirs().contains(d), info_sound(md, i0), all_strict(i0)
    ensures updated(md, i0, i0.update(k, x), d)
{
    lemma_update_sound(md, i0, k, x, d, pg, t);
    lemma_update_link(md, i0, k, x, d, pg, t);
    assert(all_strict(i0.update(k, x)));
}
pub proof fn lemma_info_push(md: Metadata, i0: Seq<Dir>, x: Dir, d: Dir, pg: ExifTagGroup, t: ExifTag)
    requires first_dir(i0, pg, d.nr()) is None, is_dir(x, pg, d.nr()), x.tags@ == seq![t], is_offset_tag(t, d.ty()), parent_of(d.ty()) == Some(pg), md.dirs().contains(d), info_sound(md, i0), all_strict(i0)
    ensures updated(md, i0, i0.push(x), d)
{
    let i1 = i0.push(x);
    assert(i1.drop_last() =~= i0);
    let m = choose|m: int| 0 <= m < md.dirs().len() && md.dirs()[m] == d;
    if first_dir(md.dirs(), d.ty(), d.nr()) is None { lemma_none(md.dirs(), d.ty(), d.nr(), m); }
    assert(info_sound(md, i1)) by {
        assert forall|q: int, j: int| 0 <= q < i1.len() && 0 <= j < i1[q].tags@.len() implies sound_link(md, i1[q], #[trigger] i1[q].tags@[j]) by {
            if q < i0.len() { assert(sound_link(md, i0[q], i0[q].tags@[j])); } else { assert(is_offset_tag(t, d.ty())); assert(sound_link(md, x, t)); }
        }
    }
    assert(is_offset_tag(x.tags@[0], d.ty()));
    assert(first_dir(i1, pg, d.nr()) == Some(x));
}
/// what one round of the linking loop may do
pub proof fn lemma_info_steps(md: Metadata, i0: Seq<Dir>, d: Dir, pg: ExifTagGroup)
    requires parent_of(d.ty()) == Some(pg), md.dirs().contains(d), info_sound(md, i0), all_strict(i0)
    ensures forall|k: int, x: Dir, t: ExifTag| found(i0, pg, d.nr(), k) && is_dir(x, pg, d.nr()) && #[trigger] set_ok(i0[k].tags@, x.tags@, t) && is_offset_tag(t, d.ty()) ==> updated(md, i0, i0.update(k, x), d),
        forall|x: Dir, t: ExifTag| first_dir(i0, pg, d.nr()) is None && #[trigger] is_dir(x, pg, d.nr()) && x.tags@ == seq![t] && #[trigger] is_offset_tag(t, d.ty()) ==> updated(md, i0, i0.push(x), d)
{
    assert forall|k: int, x: Dir, t: ExifTag| found(i0, pg, d.nr(), k) && is_dir(x, pg, d.nr()) && #[trigger] set_ok(i0[k].tags@, x.tags@, t) && is_offset_tag(t, d.ty()) implies updated(md, i0, i0.update(k, x), d) by { lemma_info_update(md, i0, k, x, d, pg, t); }
    assert forall|x: Dir, t: ExifTag| first_dir(i0, pg, d.nr()) is None && #[trigger] is_dir(x, pg, d.nr()) && x.tags@ == seq![t] && #[trigger] is_offset_tag(t, d.ty()) implies updated(md, i0, i0.push(x), d) by { lemma_info_push(md, i0, x, d, pg, t); }
}
impl Metadata {
//# fn src/metadata/get.rs get_max_generic_ifd_number -> r
//# spec
    ensures forall|i: int| 0 <= i < self.dirs().len() && (#[trigger] self.dirs()[i]).ty() == ExifTagGroup::GENERIC ==> self.dirs()[i].nr() <= r
//# end
//# fn src/metadata/mod.rs encode -> r
//# attr
#[verifier::spinoff_prover]
//# spec
    requires encodable(*self)
    ensures r matches Ok(v) && exists|info: Seq<Dir>, n: int| #[trigger] info_ok(*self, info) && 0 <= n <= 0x1_0000_0000 && v@ == (#[trigger] whole(*self, info, n)).0
        && forall|i: int| 0 <= i < self.dirs().len() && (#[trigger] self.dirs()[i]).ty() == ExifTagGroup::GENERIC ==> self.dirs()[i].nr() < n
//# loop 0 index
    invariant vx_i0 <= self.dirs().len(), *vx_e0 == self.image_file_directories, ifds_with_offset_info_only@.len() == vx_i0, forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] ifds_with_offset_info_only@[k]).tags@.len() == 0,
    decreases self.dirs().len() - vx_i0
//# loop 1 index
    invariant vx_i1 <= self.dirs().len(), *vx_e1 == self.image_file_directories, info_sound(*self, ifds_with_offset_info_only@), all_strict(ifds_with_offset_info_only@),
        forall|i: int| 0 <= i < vx_i1 ==> has_link(ifds_with_offset_info_only@, #[trigger] self.dirs()[i]),
    decreases self.dirs().len() - vx_i1
//# loop 1 begin
    let ghost i0 = ifds_with_offset_info_only@;
    let ghost d = self.dirs()[vx_i1 as int];
    proof { if let Some(pg) = parent_of(d.ty()) { lemma_info_steps(*self, i0, d, pg); lemma_find(i0, pg, d.nr()); } }
//# loop 1 end
    proof {
        let i1 = ifds_with_offset_info_only@;
        if let Some(pg) = parent_of(d.ty()) {
            if first_dir(i0, pg, d.nr()) is None {
                let x = i1.last();
                assert(i1 =~= i0.push(x)); assert(is_dir(x, pg, d.nr())); assert(x.tags@ =~= seq![x.tags@[0]]); assert(is_offset_tag(x.tags@[0], d.ty()));
            } else {
                let k = lemma_first_at(i0, pg, d.nr());
                assert(i1 =~= i0.update(k, i1[k])); assert(is_dir(i1[k], pg, d.nr()));
                assert(exists|t: ExifTag| #[trigger] set_ok(i0[k].tags@, i1[k].tags@, t) && is_offset_tag(t, d.ty()));
            }
            assert(updated(*self, i0, i1, d));
        }
    }
//# loop 2 before
    let ghost info = ifds_with_offset_info_only@;
    proof { assert(info_ok(*self, info)); assert(whole(*self, info, 0x1_0000_0000).0.len() <= u32::MAX); }
//# loop 2
    invariant vx_n2 <= vx_h2, !vx_g2 ==> vx_n2 == vx_h2, ifds_with_offset_info_only@ == info, info_ok(*self, info), encodable(*self), whole(*self, info, 0x1_0000_0000).0.len() <= u32::MAX,
        encode_vec@ == whole(*self, info, if vx_g2 { vx_n2 as int } else { vx_h2 + 1 }).0, current_offset == encode_vec@.len(),
        index_of_previous_ifds_link_section matches Some(l) && l == whole(*self, info, if vx_g2 { vx_n2 as int } else { vx_h2 + 1 }).1,
    decreases vx_h2 - vx_n2, (if vx_g2 { 1int } else { 0int })
//# loop 2 begin
    let ghost k = vx_n2 as int;
    proof {
        lemma_whole_len(*self, info, k, 0x1_0000_0000); lemma_whole_len(*self, info, k + 1, 0x1_0000_0000); lemma_one(self.dirs(), ExifTagGroup::GENERIC, vx_n2); lemma_first_is(self.dirs(), ExifTagGroup::GENERIC, vx_n2);
        assert(whole(*self, info, 0).0.len() <= u32::MAX);
        if let Some(d) = first_dir(self.dirs(), ExifTagGroup::GENERIC, vx_n2) { lemma_dir_len(*self, info, d, encode_vec@.len() as int); }
    }
//# end
}
fn main() {}
}
