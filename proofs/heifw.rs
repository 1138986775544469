//# include heif_boxes.rs
//# flags --verify-module w
//# rule type of the iterator item /(\w+)\.splice\(\s*([\w.]+) as usize\s*\.\.\s*([\w.]+) as usize,\s*(\w+)\.iter\(\)\.copied\(\)\s*\)/ => /vx_splice(&mut \1, \2 as usize, \3 as usize, &\4)/
//# rule slice pattern of two -> length and elements /\((\w+), &\[(\w+), (\w+), \.\.\]\)(\s*)=> ([^\n]*),\n/ => /(\1, vx_s) if vx_s.len() >= 2 => { let (\2, \3) = (vx_s[0], vx_s[1]); \5 },\n/
//# rule slice pattern of four -> length and elements /\((\w+), &\[(\w+), (\w+), (\w+), (\w+), \.\.\]\)(\s*)=> ([^\n]*),\n/ => /(\1, vx_s) if vx_s.len() >= 4 => { let (\2, \3, \4, \5) = (vx_s[0], vx_s[1], vx_s[2], vx_s[3]); \7 },\n/
//# rule largest id of the items -> contract-bearing call /(\w+)\.items\.iter\(\)\.map\(\|item\| item\.item_id\)\.max\(\)/ => /vx_largest_info(&\1.items)/
//# rule from_be_bytes -> contract-bearing call /\b(u16|u32)::from_be_bytes\(/ => /vx_be_\1(/
pub mod w {
use super::*;
/// the encoder of the metadata itself is decided by P12/P13; here it is any function of the metadata
#[verifier::external_body] pub struct Metadata { p: () }
#[verifier::external_body] pub struct ImageFileDirectory { p: () }
impl Metadata {
    pub uninterp spec fn encoding(&self) -> Option<Seq<u8>>;
    pub uninterp spec fn dirs(&self) -> Seq<ImageFileDirectory>;
    pub open spec fn contents(&self) -> Seq<u8> { if self.dirs().len() == 0 { Seq::empty() } else { self.encoding()->0 } }
    #[verifier::external_body] pub fn encode(&self) -> (r: Result<Vec<u8>, io::Error>) ensures r is Ok <==> self.encoding() is Some, r matches Ok(v) ==> v@ == self.encoding()->Some_0 && v@.len() <= 0xffff_0000 { unimplemented!() }
    pub uninterp spec fn tag(&self, hex: u16) -> Option<ExifTag>;
    pub uninterp spec fn with(&self, t: ExifTag) -> Metadata;
    pub uninterp spec fn nothing() -> Metadata;
    pub open spec fn and(&self, t: Option<ExifTag>) -> Metadata { match t { Some(t) => self.with(t), None => *self } }
    #[verifier::external_body] pub fn general_decoding_wrapper(raw_pre_decode_general: Result<Vec<u8>, io::Error>) -> (r: Result<Metadata, io::Error>) ensures r matches Ok(m) ==> raw_pre_decode_general is Ok && decoding(raw_pre_decode_general->Ok_0@) == Some(m) { unimplemented!() }
    #[verifier::external_body] pub fn new() -> (r: Metadata) ensures r == Metadata::nothing() { unimplemented!() }
    #[verifier::external_body] pub fn get_tag_by_hex(&self, hex: u16, group: Option<u8>) -> (r: GetTagIterator) ensures r.first() == self.tag(hex) { unimplemented!() }
    #[verifier::external_body] pub fn set_tag(&mut self, input_tag: ExifTag) ensures *final(self) == old(self).with(input_tag) { unimplemented!() }
    #[verifier::external_body] pub fn get_ifds(&self) -> (r: &Vec<ImageFileDirectory>) ensures r@ == self.dirs() { unimplemented!() }
}
#[verifier::external_body] pub struct ExifTag { p: () }
impl ExifTag { #[verifier::external_body] pub fn clone(&self) -> (r: ExifTag) ensures r == *self { unimplemented!() } }
/// the tags of a number, in any directory (P15)
#[verifier::external_body] pub struct GetTagIterator { p: () }
impl GetTagIterator {
    pub uninterp spec fn first(&self) -> Option<ExifTag>;
    #[verifier::external_body] pub fn next<'a>(&mut self) -> (r: Option<&'a ExifTag>) ensures r is Some <==> old(self).first() is Some, r matches Some(x) ==> old(self).first() == Some(*x) { unimplemented!() }
}
/// the metadata that the bytes decode to (P13, P14)
pub uninterp spec fn decoding(x: Seq<u8>) -> Option<Metadata>;
/// clearing keeps Orientation, XResolution, YResolution and ResolutionUnit
pub open spec fn remaining(m: Metadata) -> Metadata { Metadata::nothing().and(m.tag(0x0112)).and(m.tag(0x011a)).and(m.tag(0x011b)).and(m.tag(0x0128)) }
pub fn vx_vec<'a, 'b>(c: &'a mut io::Cursor<&'b mut Vec<u8>>) -> (r: &'a mut Vec<u8>)
    ensures r@ == old(c).inner@, final(r)@ == final(c).inner@, final(c).p == old(c).p, *final(final(c).inner) == *final(old(c).inner)
{ &mut *c.inner }
// ===== positions of the boxes =======================================================================================
pub proof fn lemma_flat_add(a: Seq<AnyBox>, b: Seq<AnyBox>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); lemma_empty(flat(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_flat_add(a, b.drop_last());
        lemma_assoc(flat(a), flat(b.drop_last()), b.last().ser());
    }
}
pub proof fn lemma_flat_one(b: AnyBox) ensures flat(seq![b]) == b.ser() { assert(seq![b].drop_last() =~= Seq::<AnyBox>::empty()); reveal_with_fuel(flat, 2); assert(Seq::<u8>::empty() + b.ser() =~= b.ser()); }
pub open spec fn all_wf0(s: Seq<AnyBox>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf0() }
pub proof fn lemma_wf0(s: Seq<AnyBox>) requires all_wf(s) ensures all_wf0(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).wf0() by { assert(s[i].wf()); axiom_any(s[i]); } }
/// a box is what it contains (AnyBox is a pointer to one of the implementors)
#[verifier::external_body] pub proof fn axiom_same(a: AnyBox, b: AnyBox) requires a.k() == b.k() ensures a == b {}
/// where a box starts
pub open spec fn cum(s: Seq<AnyBox>, i: int) -> int { flat(s.take(i)).len() as int }
pub proof fn lemma_cum(s: Seq<AnyBox>, i: int) requires 0 <= i < s.len()
    ensures flat(s.take(i + 1)) == flat(s.take(i)) + s[i].ser(), cum(s, i + 1) == cum(s, i) + s[i].ser().len(), flat(s) == flat(s.take(i)) + s[i].ser() + flat(s.skip(i + 1)), cum(s, i + 1) <= flat(s).len()
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    lemma_flat_push(s.take(i), s[i]);
    lemma_flat_add(s.take(i + 1), s.skip(i + 1));
    assert(s.take(i + 1) + s.skip(i + 1) =~= s);
}
/// another box in the place of one
pub proof fn lemma_update(s: Seq<AnyBox>, i: int, b: AnyBox) requires 0 <= i < s.len()
    ensures flat(s.update(i, b)) == flat(s.take(i)) + b.ser() + flat(s.skip(i + 1)), flat(s.update(i, b)).len() == flat(s).len() - s[i].ser().len() + b.ser().len(), all_wf(s) && b.wf() ==> all_wf(s.update(i, b))
{
    let u = s.update(i, b);
    lemma_cum(s, i); lemma_cum(u, i);
    assert(u.take(i) =~= s.take(i)); assert(u.skip(i + 1) =~= s.skip(i + 1));
}
pub proof fn lemma_insert(s: Seq<AnyBox>, i: int, b: AnyBox) requires 0 <= i <= s.len()
    ensures flat(s.insert(i, b)).len() == flat(s).len() + b.ser().len(), all_wf(s) && b.wf() ==> all_wf(s.insert(i, b))
{
    let u = s.insert(i, b);
    assert(u =~= s.take(i) + seq![b] + s.skip(i));
    lemma_flat_add(s.take(i) + seq![b], s.skip(i)); lemma_flat_add(s.take(i), seq![b]); lemma_flat_one(b);
    lemma_flat_add(s.take(i), s.skip(i)); assert(s.take(i) + s.skip(i) =~= s);
    if all_wf(s) && b.wf() { assert forall|k: int| 0 <= k < u.len() implies (#[trigger] u[k]).wf() by { if k < i { assert(s[k].wf()); } else if k > i { assert(s[k - 1].wf()); } } }
}
pub proof fn lemma_same_first(s: Seq<AnyBox>, i: int, b: AnyBox, t: BoxType) requires 0 <= i < s.len(), b.header().box_type == s[i].header().box_type ensures first(s.update(i, b), t) == first(s, t)
{
    let u = s.update(i, b);
    lemma_first(s, t); lemma_first(u, t);
    let (p, q) = (first(s, t), first(u, t));
    assert forall|j: int| 0 <= j < s.len() implies (#[trigger] u[j]).header().box_type == s[j].header().box_type by {}
    if p < q { assert(u[p].header().box_type == s[p].header().box_type); }
    if q < p { assert(u[q].header().box_type == s[q].header().box_type); }
}
impl MetaBox {
//# fn src/heif/boxes/meta.rs get_header_mut in MetaBox -> r
//# spec
    ensures *r == old(self).header, *final(self) == (MetaBox { header: *final(r), ..*old(self) })
//# end
//# fn src/heif/boxes/meta.rs get_item_location_box_mut in MetaBox -> r
//# spec
    requires old(self).wf0()
    ensures r is Ok <==> old(self).iloc() is Some, r matches Ok(x) ==> x.wf() && old(self).iloc() == Some(*x) && *final(self) == (MetaBox { other_boxes: final(self).other_boxes, ..*old(self) })
            && final(self).other_boxes@ == old(self).other_boxes@.update(first(old(self).other_boxes@, BoxType::iloc), final(self).other_boxes@[first(old(self).other_boxes@, BoxType::iloc)])
            && final(self).other_boxes@[first(old(self).other_boxes@, BoxType::iloc)].k() == K::Iloc(*final(x)),
        r is Err ==> final(self).other_boxes@ =~= old(self).other_boxes@
//# begin
    broadcast use axiom_any;
    proof { lemma_first(self.other_boxes@, BoxType::iloc); }
//# end
}
impl IsoBox {
//# fn src/heif/boxes/iso.rs get_header in IsoBox -> r
//# spec
    ensures *r == self.header
//# end
//# fn src/heif/boxes/iso.rs get_data in IsoBox -> r
//# spec
    ensures r@ == self.data@
//# end
}
impl ItemReferenceBox {
//# fn src/heif/boxes/item_reference.rs get_header in ItemReferenceBox -> r
//# spec
    ensures *r == self.header
//# end
}
/// the boxes of the meta box with an item for EXIF: at most one more, of the type iref
pub open spec fn entered(o0: Seq<AnyBox>, o1: Seq<AnyBox>) -> bool { o1 == o0 || exists|i: int, b: AnyBox| 0 <= i <= o0.len() && b.header().box_type == BoxType::iref && o1 == #[trigger] o0.insert(i, b) }
#[verifier::external_body] pub fn vx_be_u32(bytes: [u8; 4]) -> (r: u32) ensures r == be32(bytes[0], bytes[1], bytes[2], bytes[3]) { u32::from_be_bytes(bytes) }
#[verifier::external_body] pub fn vx_be_u16(bytes: [u8; 2]) -> (r: u16) ensures r == be16(bytes[0], bytes[1]) { u16::from_be_bytes(bytes) }
impl MetaBox {
/// the item that the pitm box names
pub open spec fn pitm(&self) -> Option<u32> { let i = first(self.other_boxes@, BoxType::pitm); if i < self.other_boxes@.len() && self.other_boxes@[i].k() is Iso {
    let (v, d) = (self.other_boxes@[i].header().version->0, self.other_boxes@[i].k()->Iso_0.data@);
    if v == 0 && d.len() >= 2 { Some(be16(d[0], d[1]) as u32) } else if v != 0 && d.len() >= 4 { Some(be32(d[0], d[1], d[2], d[3])) } else { None } } else { None } }
//# fn src/heif/boxes/meta.rs get_primary_item_id in MetaBox -> r
//# spec
    requires self.wf0()
    ensures r == self.pitm()
//# begin
    proof { lemma_first(self.other_boxes@, BoxType::pitm); let i = first(self.other_boxes@, BoxType::pitm); if i < self.other_boxes@.len() { assert(self.other_boxes@[i].wf()); axiom_any(self.other_boxes@[i]); } }
//# end
//# fn src/heif/boxes/meta.rs create_new_item_reference_box_if_none_exists_yet in MetaBox -> r
//# spec
    requires old(self).wf0()
    ensures r matches Ok(d) ==> d <= 64 && d == flat(final(self).other_boxes@).len() - flat(old(self).other_boxes@).len() && *final(self) == (MetaBox { other_boxes: final(self).other_boxes, ..*old(self) }) && final(self).wf0()
        && entered(old(self).other_boxes@, final(self).other_boxes@)
//# begin
    proof { lemma_first(self.other_boxes@, BoxType::iinf); }
    let ghost s0 = self.other_boxes@;
//# after /self\.other_boxes\.insert\([^;]*;/
    proof {
        let i = first(s0, BoxType::iinf);
        let b = self.other_boxes@[i];
        axiom_any(b);
        assert(self.other_boxes@ =~= s0.insert(i, b));
        lemma_insert(s0, i, b);
        assert(b.header().box_type == BoxType::iref);
        assert(b.wf());
        assert(new_iref_box_size == 12);
        assert(b.ser().len() == 12);
        assert(all_wf(self.other_boxes@));
    }
//# end
}
/// the number of bytes in front of the TIFF header, and those bytes
pub open spec fn headed(h: Seq<u8>) -> bool { h.len() >= 4 && h.len() == 4 + num_at(h, 0) }
/// another meta box in the place of the meta box
pub open spec fn swapped(a: HeifContainer, b: HeifContainer, m: MetaBox) -> bool { b.trailing == a.trailing && 0 <= a.mi() < a.boxes@.len() && b.boxes@ == a.boxes@.update(a.mi(), b.boxes@[a.mi()]) && b.boxes@[a.mi()].k() == K::Meta(m) }
pub proof fn lemma_swapped(a: HeifContainer, b: HeifContainer, m0: MetaBox, m: MetaBox)
    requires a.meta() == Some(m0), swapped(a, b, m), m.header.box_type == m0.header.box_type
    ensures b.mi() == a.mi(), b.meta() == Some(m), all_wf0(a.boxes@) && m.wf0() ==> all_wf0(b.boxes@), all_wf(a.boxes@) && m.wf() ==> all_wf(b.boxes@), b.boxes@.len() == a.boxes@.len()
{
    let i = a.mi();
    lemma_first(a.boxes@, BoxType::meta);
    lemma_same_first(a.boxes@, i, b.boxes@[i], BoxType::meta);
    axiom_any(b.boxes@[i]);
    if all_wf0(a.boxes@) && m.wf0() { assert forall|k: int| 0 <= k < b.boxes@.len() implies (#[trigger] b.boxes@[k]).wf0() by { if k != i { assert(a.boxes@[k].wf0()); } } }
    if all_wf(a.boxes@) && m.wf() { assert forall|k: int| 0 <= k < b.boxes@.len() implies (#[trigger] b.boxes@[k]).wf() by { if k != i { assert(a.boxes@[k].wf()); } } }
}
impl HeifContainer {
/// the place of the meta box
pub open spec fn mi(&self) -> int { first(self.boxes@, BoxType::meta) }
//# fn src/heif/container.rs get_meta_box_mut in HeifContainer -> r
//# spec
    requires all_wf0(old(self).boxes@)
    ensures r is Ok <==> old(self).meta() is Some, r matches Ok(x) ==> x.wf0() && old(self).meta() == Some(*x) && swapped(*old(self), *final(self), *final(x)),
        r is Err ==> final(self).boxes@ =~= old(self).boxes@ && final(self).trailing == old(self).trailing
//# begin
    broadcast use axiom_any;
    proof { lemma_first(self.boxes@, BoxType::meta); }
//# end
//# fn src/heif/container.rs get_start_address_for_new_exif_area in HeifContainer -> r
//# spec
    requires all_wf(self.boxes@), flat(self.boxes@).len() <= maxbuf()
    ensures r matches Ok(p) ==> p <= flat(self.boxes@).len()
//# loop 0 iter
    it
//# loop 0
        invariant all_wf(self.boxes@), flat(self.boxes@).len() <= maxbuf(), it.seq().len() == self.boxes@.len(), forall|k: int| 0 <= k < self.boxes@.len() ==> *(#[trigger] it.seq()[k]) == self.boxes@[k], byte_count == cum(self.boxes@, it.index@)
//# loop 0 begin
            proof { broadcast use axiom_any; assert(self.boxes@[it.index@].wf()); lemma_cum(self.boxes@, it.index@); }
//# end
//# fn src/heif/container.rs get_meta_box_range in HeifContainer -> r
//# spec
    requires all_wf(self.boxes@), flat(self.boxes@).len() <= maxbuf()
    ensures r matches Ok(x) ==> self.mi() < self.boxes@.len() && x.0 == cum(self.boxes@, self.mi()) && x.1 == cum(self.boxes@, self.mi() + 1), r is Err ==> self.mi() == self.boxes@.len()
//# begin
    proof { lemma_first(self.boxes@, BoxType::meta); }
//# loop 0 iter
    it
//# loop 0
        invariant all_wf(self.boxes@), flat(self.boxes@).len() <= maxbuf(), it.seq().len() == self.boxes@.len(), forall|k: int| 0 <= k < self.boxes@.len() ==> *(#[trigger] it.seq()[k]) == self.boxes@[k], byte_count == cum(self.boxes@, it.index@), forall|j: int| 0 <= j < it.index@ ==> (#[trigger] self.boxes@[j]).header().box_type != BoxType::meta
//# loop 0 begin
            proof { broadcast use axiom_any; assert(self.boxes@[it.index@].wf()); lemma_cum(self.boxes@, it.index@); lemma_first(self.boxes@, BoxType::meta); }
//# end
/// what the EXIF area starts with: the offset of the TIFF header and what lies in front of that, or a new one
pub open spec fn area_head(&self, id: u32, b: Seq<u8>) -> Seq<u8> { let (s, n) = self.extent(id)->0; if n > 0 { b.subrange(s, s + 4 + num_at(b, s)) } else { seq![0u8, 0, 0, 6] + EXIF_HEADER@ } }
//# fn src/heif/container.rs construct_new_exif_data_area in HeifContainer -> r
//# spec
    requires all_wf(self.boxes@), old(cursor).bytes().len() <= maxbuf()
    ensures r matches Ok(x) ==> self.exif_id() is Some && self.extent(self.exif_id()->0) is Some && headed(self.area_head(self.exif_id()->0, old(cursor).bytes())) && x.1 == x.0@.len() - (self.extent(self.exif_id()->0)->0).1
        && x.0@ == self.area_head(self.exif_id()->0, old(cursor).bytes()) + metadata.contents()
//# before /let mut local_cursor/
    let ghost x = exif_buffer@;
    proof { lemma_at0(x, 0); assert(x =~= cursor.bytes().subrange(start as int, start + length)); }
//# before /exif_buffer\.truncate/
    proof { lemma_num(exif_tiff_header_offset as u32, x, 0); }
//# before /let delta/
    proof { vec_bounded(&new_exif_buffer); }
//# before /return Ok\(\(/
    proof { let h = self.area_head(exif_item_id, old(cursor).bytes()); if length > 0 { let x = old(cursor).bytes(); assert(h[0] == x[start as int] && h[1] == x[start + 1] && h[2] == x[start + 2] && h[3] == x[start + 3]); assert(num_at(h, 0) == num_at(x, start as int)); } else { assert(be32(0, 0, 0, 6) == 6) by (compute); } }
    assert(new_exif_buffer@ =~= self.area_head(exif_item_id, old(cursor).bytes()) + metadata.contents());
//# end
}
// ===== what a write does ============================================================================================
/// an iterator over the elements of a Vec, to change them: the elements still to come, and what they will be
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxIterMut<'a, T> { it: core::slice::IterMut<'a, T> }
impl<'a, T> VxIterMut<'a, T> {
    pub uninterp spec fn was(&self) -> Seq<T>;
    pub uninterp spec fn will(&self) -> Seq<T>;
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a mut T>)
        ensures final(self).was() == old(self).was(), final(self).will() == old(self).will(), match r {
            Some(x) => old(self).at() < old(self).was().len() && *x == old(self).was()[old(self).at()] && *final(x) == old(self).will()[old(self).at()] && final(self).at() == old(self).at() + 1,
            None => old(self).at() >= old(self).was().len() && final(self).at() == old(self).at() }
    { unimplemented!() }
}
#[verifier::external_body] pub fn vx_iter_mut<'a, T>(v: &'a mut Vec<T>) -> (r: VxIterMut<'a, T>) ensures r.was() == old(v)@, r.will() == final(v)@, final(v)@.len() == old(v)@.len(), r.at() == 0 { unimplemented!() }
#[verifier::external_body] pub fn vx_splice(v: &mut Vec<u8>, a: usize, b: usize, x: &Vec<u8>) requires a <= b <= old(v)@.len() ensures final(v)@ == old(v)@.take(a as int) + x@ + old(v)@.skip(b as int) { unimplemented!() }
/// at most isize::MAX bytes, and an entry takes at least one
#[verifier::external_body] pub proof fn vec_bounded_infos(v: &Vec<ItemInfoEntryBox>) ensures v@.len() <= maxbuf() {}
#[verifier::external_body] pub fn vx_largest_info(v: &Vec<ItemInfoEntryBox>) -> (r: Option<u32>) ensures r is None <==> v@.len() == 0, r matches Some(x) ==> forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).item_id <= x { unimplemented!() }
/// the last box of a type among the first n (-1 if there is none)
pub open spec fn last_of(s: Seq<AnyBox>, n: int, t: BoxType) -> int decreases n { if n <= 0 { -1 } else if s[n - 1].header().box_type == t { n - 1 } else { last_of(s, n - 1, t) } }
pub proof fn lemma_last(s: Seq<AnyBox>, n: int, t: BoxType) requires 0 <= n <= s.len()
    ensures -1 <= last_of(s, n, t) < n, last_of(s, n, t) >= 0 ==> s[last_of(s, n, t)].header().box_type == t, forall|j: int| last_of(s, n, t) < j < n ==> (#[trigger] s[j]).header().box_type != t
    decreases n
{ if n > 0 { lemma_last(s, n - 1, t); } }
/// ISO/IEC 14496-12 allows at most one
pub open spec fn one(s: Seq<AnyBox>, t: BoxType) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).header().box_type == t && (#[trigger] s[j]).header().box_type == t ==> i == j }
pub proof fn lemma_len2(a: Seq<u8>, b: Seq<u8>) ensures (a + b).len() == a.len() + b.len() {}
pub open spec fn wide(w: u8) -> int { if w == 4 { 4 } else if w == 8 { 8 } else { 0 } }
pub proof fn lemma_field_len(v: u64, w: u8) ensures field(v, w).len() == wide(w) {}
pub proof fn lemma_extent_len(a: ItemLocationEntryExtentEntry, v: u8, o: u8, l: u8, i: u8) ensures a.sero(v, o, l, i).len() == (if indexed(v, i) { wide(i) } else { 0 }) + wide(o) + wide(l)
{ lemma_field_len(a.extent_index->0, i); lemma_field_len(a.extent_offset, o); lemma_field_len(a.extent_length, l); }
pub proof fn lemma_extents_len(a: Seq<ItemLocationEntryExtentEntry>, b: Seq<ItemLocationEntryExtentEntry>, v: u8, o: u8, l: u8, i: u8) requires a.len() == b.len() ensures extents_ser(a, v, o, l, i).len() == extents_ser(b, v, o, l, i).len() decreases a.len()
{
    if a.len() > 0 {
        lemma_extents_len(a.drop_last(), b.drop_last(), v, o, l, i);
        lemma_extent_len(a.last(), v, o, l, i); lemma_extent_len(b.last(), v, o, l, i);
        lemma_len2(extents_ser(a.drop_last(), v, o, l, i), a.last().sero(v, o, l, i)); lemma_len2(extents_ser(b.drop_last(), v, o, l, i), b.last().sero(v, o, l, i));
    }
}
pub proof fn lemma_entry_len(a: ItemLocationEntry, b: ItemLocationEntry, v: u8, o: u8, l: u8, bo: u8, i: u8) requires a.extents@.len() == b.extents@.len() ensures a.sero(v, o, l, bo, i).len() == b.sero(v, o, l, bo, i).len()
{ lemma_extents_len(a.extents@, b.extents@, v, o, l, i); assert(a.head(v, bo).len() == b.head(v, bo).len()); }
pub proof fn lemma_locs_len(a: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, v: u8, o: u8, l: u8, bo: u8, i: u8)
    requires a.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).extents@.len() == b[k].extents@.len()
    ensures locs(a, v, o, l, bo, i).len() == locs(b, v, o, l, bo, i).len() decreases a.len()
{
    if a.len() > 0 {
        assert forall|k: int| 0 <= k < a.len() - 1 implies (#[trigger] a.drop_last()[k]).extents@.len() == b.drop_last()[k].extents@.len() by { assert(a[k].extents@.len() == b[k].extents@.len()); }
        lemma_locs_len(a.drop_last(), b.drop_last(), v, o, l, bo, i);
        assert(a[a.len() - 1].extents@.len() == b[a.len() - 1].extents@.len());
        lemma_entry_len(a.last(), b.last(), v, o, l, bo, i);
        let (p, q) = (a.last().sero(v, o, l, bo, i), b.last().sero(v, o, l, bo, i));
        lemma_len2(locs(a.drop_last(), v, o, l, bo, i), p); lemma_len2(locs(b.drop_last(), v, o, l, bo, i), q);
    }
}
/// moving the items does not change the size of the table
pub proof fn lemma_moved_len(a: ItemLocationBox, b: ItemLocationBox, start: int, end: int, delta: int, id: Option<u32>)
    requires a.same_but_items(&b), items_moved(a.items@, b.items@, start, end, delta, id)
    ensures a.ser().len() == b.ser().len()
{
    assert forall|k: int| 0 <= k < a.items@.len() implies (#[trigger] a.items@[k]).extents@.len() == b.items@[k].extents@.len() by { assert(item_moved(&a.items@[k], &b.items@[k], start, end, delta, id)); }
    lemma_locs_len(a.items@, b.items@, a.v(), a.offset_size, a.length_size, a.base_offset_size, a.index_size);
}
pub open spec fn clear_of(s: int, l: int, a: int, b: int) -> bool { s + l <= a || b <= s }
/// the bytes that an item consists of are the same as before (unless they lie in the meta box or the header of the box that EXIF lies in)
pub open spec fn item_kept(a: &ItemLocationEntry, b: &ItemLocationEntry, f0: Seq<u8>, f1: Seq<u8>, ms: int, me: int, hs: int, he: int) -> bool {
    if !a.here() { *b == *a } else { a.like(b) && forall|k: int| 0 <= k < a.extents@.len() && clear_of(a.start(k), (#[trigger] a.extents@[k]).extent_length as int, ms, me) && clear_of(a.start(k), a.extents@[k].extent_length as int, hs, he) && a.start(k) + a.extents@[k].extent_length <= f0.len()
        ==> b.start(k) + a.extents@[k].extent_length <= f1.len() && f1.subrange(b.start(k), b.start(k) + a.extents@[k].extent_length) == f0.subrange(a.start(k), a.start(k) + a.extents@[k].extent_length) }
}
/// y: the file with a meta box that is d bytes longer; x: y with other bytes in the meta box and the header of one box; f1: x with the area in the place of what was from pos to end
pub proof fn lemma_bytes(f0: Seq<u8>, y: Seq<u8>, x: Seq<u8>, f1: Seq<u8>, ms: int, me: int, d: int, hs: int, he: int, pos: int, end: int, area: Seq<u8>, s: int, l: int, s2: int)
    requires 0 <= ms <= me <= f0.len(), me + d >= ms, y.len() == f0.len() + d, y.take(ms) == f0.take(ms), y.skip(me + d) == f0.skip(me),
        x.len() == y.len(), forall|i: int| 0 <= i < x.len() && !(ms <= i < me + d) && !(hs <= i < he) ==> #[trigger] x[i] == y[i],
        0 <= pos <= end <= x.len(), f1 == x.take(pos) + area + x.skip(end),
        0 <= s, 0 <= l, s + l <= f0.len(), clear_of(s, l, ms, me), ({ let s1 = if s >= me { s + d } else { s }; clear_of(s1, l, hs, he) && clear_of(s1, l, pos, end) && s2 == (if s1 >= end { s1 + area.len() - (end - pos) } else { s1 }) })
    ensures s2 + l <= f1.len(), f1.subrange(s2, s2 + l) == f0.subrange(s, s + l), 0 <= s2
{
    let s1 = if s >= me { s + d } else { s };
    assert(0 <= s2 && s2 + l <= f1.len());
    let (u, w) = (f1.subrange(s2, s2 + l), f0.subrange(s, s + l));
    assert forall|i: int| 0 <= i < l implies #[trigger] u[i] == w[i] by {
        assert(u[i] == f1[s2 + i]);
        assert(w[i] == f0[s + i]);
        if s1 >= end { assert(f1[s2 + i] == x.skip(end)[s1 - end + i]); } else { assert(f1[s2 + i] == x.take(pos)[s1 + i]); }
        assert(!(ms <= s1 + i < me + d));
        assert(!(hs <= s1 + i < he));
        assert(0 <= s1 + i < x.len());
        assert(f1[s2 + i] == x[s1 + i]);
        assert(f1[s2 + i] == x[s1 + i]);
        assert(x[s1 + i] == y[s1 + i]);
        if s >= me { assert(y[s1 + i] == y.skip(me + d)[s - me + i]); assert(f0.skip(me)[s - me + i] == f0[s + i]); } else { assert(y[s1 + i] == y.take(ms)[s + i]); assert(f0.take(ms)[s + i] == f0[s + i]); }
        if s >= me { assert(y.skip(me + d)[s - me + i] == f0.skip(me)[s - me + i]); } else { assert(y.take(ms)[s + i] == f0.take(ms)[s + i]); }
    }
    assert(u =~= w);
}
pub proof fn lemma_cum_mono(s: Seq<AnyBox>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures cum(s, i) <= cum(s, j) <= flat(s).len() decreases j - i
{ if i < j { lemma_cum_mono(s, i, j - 1); lemma_cum(s, j - 1); } else { lemma_flat_add(s.take(i), s.skip(i)); assert(s.take(i) + s.skip(i) =~= s); } }
/// another box in the place of one: the bytes around it stay
pub proof fn lemma_replace(s: Seq<AnyBox>, i: int, b: AnyBox, tr: Seq<u8>) requires 0 <= i < s.len()
    ensures ({ let (u, d) = (s.update(i, b), b.ser().len() - s[i].ser().len()); let (f, y) = (flat(s) + tr, flat(u) + tr);
        cum(u, i) == cum(s, i) && cum(u, i + 1) == cum(s, i + 1) + d && y.len() == f.len() + d && y.take(cum(s, i)) == f.take(cum(s, i)) && y.skip(cum(s, i + 1) + d) == f.skip(cum(s, i + 1)) && cum(s, i) <= cum(s, i + 1) <= flat(s).len()
        && (forall|j: int| 0 <= j <= i ==> #[trigger] cum(u, j) == cum(s, j)) && (forall|j: int| i < j <= s.len() ==> #[trigger] cum(u, j) == cum(s, j) + d)
        && y.subrange(cum(s, i), cum(s, i) + b.ser().len()) == b.ser() && f.subrange(cum(s, i), cum(s, i + 1)) == s[i].ser() })
{
    let u = s.update(i, b);
    lemma_cum(s, i); lemma_cum(u, i);
    assert(u.take(i) =~= s.take(i)); assert(u.skip(i + 1) =~= s.skip(i + 1));
    let (f, y) = (flat(s) + tr, flat(u) + tr);
    let (a, z) = (flat(s.take(i)), flat(s.skip(i + 1)));
    assert(f =~= a + s[i].ser() + z + tr); assert(y =~= a + b.ser() + z + tr);
    assert(y.take(cum(s, i)) =~= a); assert(f.take(cum(s, i)) =~= a);
    assert(y.skip((a + b.ser()).len() as int) =~= z + tr); assert(f.skip(cum(s, i + 1)) =~= z + tr);
    assert(y.subrange(cum(s, i), cum(s, i) + b.ser().len()) =~= b.ser()); assert(f.subrange(cum(s, i), cum(s, i + 1)) =~= s[i].ser());
    assert forall|j: int| 0 <= j <= i implies #[trigger] cum(u, j) == cum(s, j) by { assert(u.take(j) =~= s.take(j)); }
    assert forall|j: int| i < j <= s.len() implies #[trigger] cum(u, j) == cum(s, j) + b.ser().len() - s[i].ser().len() by { lemma_update(s.take(j), i, b); assert(u.take(j) =~= s.take(j).update(i, b)); }
}
pub open spec fn shifted(a: &ItemLocationEntry, b: &ItemLocationEntry, me: int, d: int) -> bool {
    if !a.here() { *b == *a } else { a.like(b) && forall|k: int| 0 <= k < a.extents@.len() ==> b.start(k) == (if #[trigger] a.start(k) >= me { a.start(k) + d } else { a.start(k) }) }
}
pub proof fn lemma_item(a: ItemLocationEntry, a1: ItemLocationEntry, b: ItemLocationEntry, f0: Seq<u8>, y: Seq<u8>, x: Seq<u8>, f1: Seq<u8>, ms: int, me: int, d: int, h0: int, h: int, hl: int, pos: int, end: int, area: Seq<u8>, id: u32)
    requires 0 <= ms <= me <= f0.len(), me + d >= ms, y.len() == f0.len() + d, y.take(ms) == f0.take(ms), y.skip(me + d) == f0.skip(me),
        x.len() == y.len(), forall|i: int| 0 <= i < x.len() && !(ms <= i < me + d) && !(h <= i < h + hl) ==> #[trigger] x[i] == y[i],
        0 <= pos <= end <= x.len(), pos < u64::MAX, f1 == x.take(pos) + area + x.skip(end),
        0 <= hl, (h0 + hl <= ms && h == h0) || (me <= h0 && h == h0 + d),
        shifted(&a, &a1, me, d), a.item_id != id, item_moved(&a1, &b, pos, end, area.len() - (end - pos), Some(id))
    ensures item_kept(&a, &b, f0, f1, ms, me, h0, h0 + hl)
{
    if a.here() {
        assert(a1.here());
        assert forall|k: int| 0 <= k < a.extents@.len() && clear_of(a.start(k), (#[trigger] a.extents@[k]).extent_length as int, ms, me) && clear_of(a.start(k), a.extents@[k].extent_length as int, h0, h0 + hl) && a.start(k) + a.extents@[k].extent_length <= f0.len()
            implies b.start(k) + a.extents@[k].extent_length <= f1.len() && f1.subrange(b.start(k), b.start(k) + a.extents@[k].extent_length) == f0.subrange(a.start(k), a.start(k) + a.extents@[k].extent_length) by {
            assert(a1.extents@[k].extent_length == a.extents@[k].extent_length);
            assert(a1.start(k) == (if a.start(k) >= me { a.start(k) + d } else { a.start(k) }));
            lemma_bytes(f0, y, x, f1, ms, me, d, h, h + hl, pos, end, area, a.start(k), a.extents@[k].extent_length as int, b.start(k));
        }
    }
}
pub open spec fn spliced(x: Seq<u8>, p: int, e: int, area: Seq<u8>) -> Seq<u8> { x.take(p) + area + x.skip(e) }
pub proof fn lemma_spliced(x: Seq<u8>, p: int, e: int, area: Seq<u8>, z: Seq<u8>) requires 0 <= p <= e <= x.len() ensures spliced(x, p, e, area) + z == spliced(x + z, p, e, area)
{ assert(spliced(x, p, e, area) + z =~= spliced(x + z, p, e, area)); }
/// the box that EXIF lies in, with the size that it has afterwards
pub open spec fn host(b4: Seq<AnyBox>, b5: Seq<AnyBox>, m: int, pos: int, end: int, delta: int) -> bool {
    0 <= m < b4.len() && b5 == b4.update(m, b5[m]) && b5[m].k() == k_with(b4[m].k(), b5[m].header()) && b4[m].header().box_type != BoxType::meta && b4[m].header().resized(&b5[m].header(), delta) && b5[m].header().ser().len() == b4[m].header().ser().len()
    && b5[m].wf0() && cum(b4, m) + b4[m].header().header_size <= pos <= end <= cum(b4, m + 1)
}
pub proof fn lemma_iso_resized(a: IsoBox, h: BoxHeader) requires h == (BoxHeader { box_size: h.box_size, ..a.header }), h.wf(), a.wf() ensures ({ let b = IsoBox { header: h, ..a }; b.wf() && b.body() == a.body() }) {}
pub proof fn lemma_meta_resized(a: MetaBox, h: BoxHeader) requires h == (BoxHeader { box_size: h.box_size, ..a.header }), h.wf(), a.wf0() ensures ({ let b = MetaBox { header: h, ..a }; b.wf0() && b.body() == a.body() }) {}
pub proof fn lemma_iinf_resized(a: ItemInfoBox, h: BoxHeader) requires h == (BoxHeader { box_size: h.box_size, ..a.header }), h.wf(), a.wf0() ensures ({ let b = ItemInfoBox { header: h, ..a }; b.wf0() && b.body() == a.body() }) {}
pub proof fn lemma_iloc_resized(a: ItemLocationBox, h: BoxHeader) requires h == (BoxHeader { box_size: h.box_size, ..a.header }), h.wf(), a.wf0() ensures ({ let b = ItemLocationBox { header: h, ..a }; b.wf0() && b.body() == a.body() }) {}
pub proof fn lemma_iref_resized(a: ItemReferenceBox, h: BoxHeader) requires h == (BoxHeader { box_size: h.box_size, ..a.header }), h.wf(), a.wf0() ensures ({ let b = ItemReferenceBox { header: h, ..a }; b.wf0() && b.body() == a.body() }) {}
pub proof fn lemma_parts(a: AnyBox) ensures a.ser() == a.header().ser() + k_body(a.k()) { axiom_any(a); match a.k() { K::Iso(x) => {}, K::Meta(x) => {}, K::Iinf(x) => {}, K::Iloc(x) => {}, K::Iref(x) => {} } }
pub proof fn lemma_resized(a: AnyBox, b: AnyBox, delta: int)
    requires a.wf0(), b.k() == k_with(a.k(), b.header()), a.header().resized(&b.header(), delta), b.header().wf(), b.header().ser().len() == a.header().ser().len()
    ensures b.wf0(), k_body(b.k()) == k_body(a.k()), b.ser().len() == a.ser().len(), b.ser() == b.header().ser() + k_body(a.k()), a.ser() == a.header().ser() + k_body(a.k())
{
    lemma_parts(a); lemma_parts(b); axiom_any(a); axiom_any(b);
    let h = b.header();
    match a.k() { K::Iso(x) => lemma_iso_resized(x, h), K::Meta(x) => lemma_meta_resized(x, h), K::Iinf(x) => lemma_iinf_resized(x, h), K::Iloc(x) => lemma_iloc_resized(x, h), K::Iref(x) => lemma_iref_resized(x, h) }
    lemma_len2(a.header().ser(), k_body(a.k())); lemma_len2(b.header().ser(), k_body(a.k()));
}
pub open spec fn single(m: MetaBox) -> bool { one(m.other_boxes@, BoxType::iloc) && one(m.other_boxes@, BoxType::iinf) }
#[verifier::prophetic] pub open spec fn held_iloc(s: Seq<AnyBox>, f: Seq<AnyBox>, n: int, x: Option<&mut ItemLocationBox>) -> bool { let i = last_of(s, n, BoxType::iloc); match x { Some(b) => i >= 0 && s[i].k() == K::Iloc(*b) && f[i].k() == K::Iloc(*final(b)), None => i >= 0 ==> f[i].k() == s[i].k() } }
#[verifier::prophetic] pub open spec fn held_iinf(s: Seq<AnyBox>, f: Seq<AnyBox>, n: int, x: Option<&mut ItemInfoBox>) -> bool { let i = last_of(s, n, BoxType::iinf); match x { Some(b) => i >= 0 && s[i].k() == K::Iinf(*b) && f[i].k() == K::Iinf(*final(b)), None => i >= 0 ==> f[i].k() == s[i].k() } }
#[verifier::prophetic] pub open spec fn held_iref(s: Seq<AnyBox>, f: Seq<AnyBox>, n: int, x: Option<&mut ItemReferenceBox>) -> bool { let i = last_of(s, n, BoxType::iref); match x { Some(b) => i >= 0 && s[i].k() == K::Iref(*b) && f[i].k() == K::Iref(*final(b)), None => i >= 0 ==> f[i].k() == s[i].k() } }
pub open spec fn others(s: Seq<AnyBox>, f: Seq<AnyBox>, n: int) -> bool { forall|j: int| 0 <= j < n && j != last_of(s, n, BoxType::iloc) && j != last_of(s, n, BoxType::iinf) && j != last_of(s, n, BoxType::iref) ==> (#[trigger] f[j]).k() == s[j].k() }
pub proof fn lemma_swapped_twice(a: HeifContainer, b: HeifContainer, c: HeifContainer, m0: MetaBox, m1: MetaBox, m2: MetaBox)
    requires a.meta() == Some(m0), swapped(a, b, m1), m1.header.box_type == m0.header.box_type, swapped(b, c, m2)
    ensures swapped(a, c, m2)
{ lemma_swapped(a, b, m0, m1); assert(c.boxes@ =~= a.boxes@.update(a.mi(), c.boxes@[a.mi()])); }
pub proof fn lemma_member(s: Seq<AnyBox>, i: int) requires all_wf(s), 0 <= i < s.len() ensures k_wf(s[i].k()), k_wf0(s[i].k()), s[i].ser() == k_ser(s[i].k()) { assert(s[i].wf()); axiom_any(s[i]); }
pub proof fn lemma_wf_at(s: Seq<AnyBox>, i: int) requires all_wf(s), 0 <= i < s.len() ensures s[i].wf(), s[i].wf0(), all_wf0(s) { assert(s[i].wf()); axiom_any(s[i]); lemma_wf0(s); }
pub proof fn lemma_last0(s: Seq<AnyBox>, f: Seq<AnyBox>) ensures last_of(s, 0, BoxType::iloc) == -1, last_of(s, 0, BoxType::iinf) == -1, last_of(s, 0, BoxType::iref) == -1, others(s, f, 0) {}
pub proof fn lemma_last_step(s: Seq<AnyBox>, n: int, t: BoxType) requires 0 <= n ensures last_of(s, n + 1, t) == (if s[n].header().box_type == t { n } else { last_of(s, n, t) }) {}
pub open spec fn three(o1: Seq<AnyBox>, o2: Seq<AnyBox>, a: ItemLocationBox, b: ItemLocationBox, c: ItemInfoBox, d: ItemInfoBox, e: ItemReferenceBox, f: ItemReferenceBox) -> bool {
    let n = o1.len() as int; let (li, ii, ri) = (last_of(o1, n, BoxType::iloc), last_of(o1, n, BoxType::iinf), last_of(o1, n, BoxType::iref));
    o2.len() == n && others(o1, o2, n) && li >= 0 && ii >= 0 && ri >= 0 && o1[li].k() == K::Iloc(a) && o2[li].k() == K::Iloc(b) && o1[ii].k() == K::Iinf(c) && o2[ii].k() == K::Iinf(d) && o1[ri].k() == K::Iref(e) && o2[ri].k() == K::Iref(f)
}
pub open spec fn same_types(o1: Seq<AnyBox>, o2: Seq<AnyBox>) -> bool { o1.len() == o2.len() && forall|j: int| 0 <= j < o1.len() ==> (#[trigger] o2[j]).header().box_type == o1[j].header().box_type }
pub open spec fn plain(b: AnyBox) -> bool { b.header().box_type != BoxType::iloc && b.header().box_type != BoxType::iinf && b.header().box_type != BoxType::iref }
pub open spec fn others_same(o1: Seq<AnyBox>, o2: Seq<AnyBox>) -> bool { forall|j: int| 0 <= j < o1.len() && plain(o1[j]) ==> (#[trigger] o2[j]).k() == o1[j].k() }
pub proof fn lemma_first_types(o1: Seq<AnyBox>, o2: Seq<AnyBox>, t: BoxType) requires same_types(o1, o2) ensures first(o1, t) == first(o2, t)
{
    lemma_first(o1, t); lemma_first(o2, t);
    let (p, q) = (first(o1, t), first(o2, t));
    if p < q { assert(o2[p].header().box_type == o1[p].header().box_type); }
    if q < p { assert(o2[q].header().box_type == o1[q].header().box_type); }
}
pub proof fn lemma_one(s: Seq<AnyBox>, t: BoxType) requires one(s, t), last_of(s, s.len() as int, t) >= 0 ensures first(s, t) == last_of(s, s.len() as int, t)
{ lemma_first(s, t); lemma_last(s, s.len() as int, t); let (i, j) = (first(s, t), last_of(s, s.len() as int, t)); if i < s.len() { assert(s[i].header().box_type == t && s[j].header().box_type == t); } else { assert(s[j].header().box_type != t); } }
pub proof fn lemma_three(o1: Seq<AnyBox>, o2: Seq<AnyBox>, a: ItemLocationBox, b: ItemLocationBox, c: ItemInfoBox, d: ItemInfoBox, e: ItemReferenceBox, f: ItemReferenceBox)
    requires three(o1, o2, a, b, c, d, e, f), all_wf(o1), b.wf(), d.wf(), f.wf(), a.header.box_type == b.header.box_type, c.header.box_type == d.header.box_type, e.header.box_type == f.header.box_type
    ensures all_wf(o2), flat(o2).len() == flat(o1).len() + (b.ser().len() - a.ser().len()) + (d.ser().len() - c.ser().len()) + (f.ser().len() - e.ser().len()), same_types(o1, o2), others_same(o1, o2)
{
    let n = o1.len() as int; let (li, ii, ri) = (last_of(o1, n, BoxType::iloc), last_of(o1, n, BoxType::iinf), last_of(o1, n, BoxType::iref));
    lemma_last(o1, n, BoxType::iloc); lemma_last(o1, n, BoxType::iinf); lemma_last(o1, n, BoxType::iref);
    assert(li != ii && li != ri && ii != ri);
    let u1 = o1.update(li, o2[li]); let u2 = u1.update(ii, o2[ii]); let u3 = u2.update(ri, o2[ri]);
    axiom_any(o2[li]); axiom_any(o2[ii]); axiom_any(o2[ri]); axiom_any(o1[li]); axiom_any(o1[ii]); axiom_any(o1[ri]);
    lemma_update(o1, li, o2[li]); lemma_update(u1, ii, o2[ii]); lemma_update(u2, ri, o2[ri]);
    assert forall|j: int| 0 <= j < n implies #[trigger] o2[j] == u3[j] by { if j != li && j != ii && j != ri { assert(o2[j].k() == o1[j].k()); axiom_same(o2[j], o1[j]); } }
    assert(o2 =~= u3);
}
pub proof fn lemma_iloc_grown(a: ItemLocationBox, x: ItemLocationBox, b: ItemLocationBox, d: int, start: int, end: int, delta: int)
    requires a.wf(), x.wf0(), b.wf0(), a.header.resized(&x.header, d), d == x.ser().len() - a.ser().len(), x.same_but_items(&b), items_moved(x.items@, b.items@, start, end, delta, None)
    ensures b.wf(), b.ser().len() == a.ser().len() + d, a.header.box_type == b.header.box_type
{ lemma_moved_len(x, b, start, end, delta, None); }
pub proof fn lemma_iinf_grown(a: ItemInfoBox, b: ItemInfoBox, d: int) requires a.wf(), b.wf0(), a.header.resized(&b.header, d), d == b.ser().len() - a.ser().len() ensures b.wf(), a.header.box_type == b.header.box_type {}
pub proof fn lemma_iref_grown(a: ItemReferenceBox, b: ItemReferenceBox, d: int) requires a.wf(), b.wf0(), a.header.resized(&b.header, d), d == b.ser().len() - a.ser().len() ensures b.wf(), a.header.box_type == b.header.box_type {}
/// the items after the meta box got longer by d bytes
pub open spec fn items_grown(a: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, me: int, d: int) -> bool { a.len() <= b.len() && forall|j: int| 0 <= j < a.len() ==> shifted(&a[j], &#[trigger] b[j], me, d) }
/// what a file without EXIF becomes first: one with an empty item for it (and a file with EXIF stays as it is)
pub open spec fn grown(c0: HeifContainer, c3: HeifContainer, o1: Seq<AnyBox>, d: int, id: u32) -> bool {
    let (m0, m3) = (c0.meta()->0, c3.meta()->0);
    all_wf(c3.boxes@) && c0.meta() is Some && c3.meta() is Some && swapped(c0, c3, m3) && c3.mi() == c0.mi() && d >= 0 && d == c3.boxes@[c0.mi()].ser().len() - c0.boxes@[c0.mi()].ser().len()
    && m3.handler_box == m0.handler_box && m0.header.resized(&m3.header, d) && entered(m0.other_boxes@, o1) && same_types(o1, m3.other_boxes@) && others_same(o1, m3.other_boxes@)
    && (c0.exif_id() is Some ==> d == 0 && c0 == c3 && c0.exif_id() == Some(id))
    && (c0.exif_id() is None && single(m0) ==> grown_single(c0, c3, d, id))
}
pub proof fn lemma_same_items(a: Seq<ItemLocationEntry>, me: int) ensures items_grown(a, a, me, 0) {}
pub proof fn lemma_not_grown(c: HeifContainer, id: u32) requires all_wf(c.boxes@), c.exif_id() == Some(id) ensures c.meta() is Some, grown(c, c, c.meta()->0.other_boxes@, 0, id)
{
    lemma_first(c.boxes@, BoxType::meta);
    let i = c.mi();
    assert(c.boxes@[i].wf()); axiom_any(c.boxes@[i]);
    assert(c.boxes@.update(i, c.boxes@[i]) =~= c.boxes@);
}
pub proof fn lemma_exif_push(s: Seq<ItemInfoEntryBox>, e: ItemInfoEntryBox) requires first_exif(s) == s.len(), e.is_exif() ensures first_exif(s.push(e)) == s.len()
{
    let u = s.push(e);
    lemma_first_exif(s); lemma_first_exif(u);
    if first_exif(u) < s.len() { assert(u[first_exif(u)] == s[first_exif(u)]); }
    assert(u[s.len() as int].is_exif());
}
pub proof fn lemma_shifted(a: Seq<ItemLocationEntry>, x: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, ms: int, me: int, d: int) requires x.drop_last() == a, x.len() == a.len() + 1, items_moved(x, b, ms, me, d, None) ensures items_grown(a, b, me, d), b.len() == a.len() + 1, item_moved(&x.last(), &b.last(), ms, me, d, None)
{
    assert(item_moved(&x[a.len() as int], &b[a.len() as int], ms, me, d, None));
    assert forall|j: int| 0 <= j < a.len() implies shifted(&a[j], &#[trigger] b[j], me, d) by { assert(x[j] == x.drop_last()[j]); assert(item_moved(&x[j], &b[j], ms, me, d, None)); if a[j].here() { assert forall|k: int| 0 <= k < a[j].extents@.len() implies b[j].start(k) == (if #[trigger] a[j].start(k) >= me { a[j].start(k) + d } else { a[j].start(k) }) by { assert(x[j].extents@[k] == a[j].extents@[k]); } } }
}
/// a lookup in the boxes of the meta box finds the only box of the type
pub proof fn lemma_entered_one(o0: Seq<AnyBox>, o1: Seq<AnyBox>, t: BoxType) requires entered(o0, o1), one(o0, t), t != BoxType::iref, last_of(o1, o1.len() as int, t) >= 0
    ensures one(o1, t), first(o1, t) == last_of(o1, o1.len() as int, t), first(o0, t) < o0.len(), o0[first(o0, t)] == o1[first(o1, t)]
{
    let n = o1.len() as int;
    lemma_last(o1, n, t);
    let q = last_of(o1, n, t);
    if o1 == o0 { lemma_one(o0, t); }
    else {
        let (i, b) = choose|i: int, b: AnyBox| 0 <= i <= o0.len() && b.header().box_type == BoxType::iref && o1 == #[trigger] o0.insert(i, b);
        assert forall|j: int| 0 <= j < n && (#[trigger] o1[j]).header().box_type == t implies (if j < i { o0[j] == o1[j] } else { j > i && o0[j - 1] == o1[j] }) by {}
        assert forall|j: int, k: int| 0 <= j < n && 0 <= k < n && (#[trigger] o1[j]).header().box_type == t && (#[trigger] o1[k]).header().box_type == t implies j == k by {
            let (j0, k0) = (if j < i { j } else { j - 1 }, if k < i { k } else { k - 1 });
            assert(o0[j0].header().box_type == t && o0[k0].header().box_type == t);
        }
        lemma_one(o1, t);
        let q0 = if q < i { q } else { q - 1 };
        assert(o0[q0] == o1[q]);
        lemma_first(o0, t);
        let p0 = first(o0, t);
        if p0 < o0.len() { assert(o0[p0].header().box_type == t && o0[q0].header().box_type == t); } else { assert(o0[q0].header().box_type != t); }
    }
}
pub open spec fn iloc_entered(a: ItemLocationBox, b: ItemLocationBox, id: u32, ms: int, me: int, d: int) -> bool {
    (forall|k: int| 0 <= k < a.items@.len() ==> (#[trigger] a.items@[k]).item_id < id) && items_grown(a.items@, b.items@, me, d) && b.items@.len() == a.items@.len() + 1
    && b.items@.last().item_id == id && b.items@.last().here() && b.items@.last().extents@.len() == 1 && b.items@.last().extents@[0].extent_length == 0
}
pub open spec fn iinf_entered(a: ItemInfoBox, b: ItemInfoBox, id: u32) -> bool {
    b.items@.len() == a.items@.len() + 1 && b.items@.drop_last() == a.items@ && b.items@.last().item_id == id && b.items@.last().is_exif()
}
pub proof fn lemma_meta_box(b: AnyBox, m: MetaBox) requires b.k() == K::Meta(m) ensures b.ser() == m.ser(), b.wf() == m.wf(), b.wf0() == m.wf0(), b.header() == m.header { axiom_any(b); }
pub proof fn lemma_meta_len(a: MetaBox, b: MetaBox, d: int)
    requires a.wf(), b.handler_box == a.handler_box, all_wf(b.other_boxes@), a.header.resized(&b.header, d), b.header.wf(), b.header.ser().len() == a.header.ser().len(), flat(b.other_boxes@).len() == flat(a.other_boxes@).len() + d
    ensures b.wf(), b.ser().len() == a.ser().len() + d
{
    hide(BoxHeader::ser); hide(HandlerBox::ser); hide(all_wf); hide(BoxHeader::wf); hide(HandlerBox::wf); hide(flat);
    let (x, y, h) = (a.header.ser(), b.header.ser(), a.handler_box.ser());
    lemma_len2(x, a.body()); lemma_len2(y, b.body());
    lemma_len2(h, flat(a.other_boxes@)); lemma_len2(h, flat(b.other_boxes@));
    assert(a.ser() == x + a.body()); assert(b.ser() == y + b.body());
    assert(a.header.box_size != 0) by { lemma_header_len(a.header); }
}
pub proof fn lemma_header_len(h: BoxHeader) requires h.wf() ensures h.ser().len() >= 8 {}
pub open spec fn grown_single(c0: HeifContainer, c3: HeifContainer, d: int, id: u32) -> bool {
    let (m0, m3) = (c0.meta()->0, c3.meta()->0);
    c3.exif_id() == Some(id) && c3.extent(id) is Some && (c3.extent(id)->0).1 == 0 && m0.iloc() is Some && m3.iloc() is Some && m0.iinf() is Some && m3.iinf() is Some && items_grown(m0.iloc()->0.items@, m3.iloc()->0.items@, cum(c0.boxes@, c0.mi() + 1), d)
        && m3.iloc()->0.items@.len() == m0.iloc()->0.items@.len() + 1 && (forall|j: int| 0 <= j < m0.iloc()->0.items@.len() ==> (#[trigger] m0.iloc()->0.items@[j]).item_id != id) && m3.iinf()->0.items@.drop_last() == m0.iinf()->0.items@
}
pub proof fn lemma_grown_single(c0: HeifContainer, c3: HeifContainer, m0: MetaBox, m1: MetaBox, m3: MetaBox, d: int, id: u32, ms: int, a: ItemLocationBox, b: ItemLocationBox, c: ItemInfoBox, e: ItemInfoBox, f: ItemReferenceBox, g: ItemReferenceBox)
    requires c0.meta() == Some(m0), c3.meta() == Some(m3), c0.exif_id() is None, entered(m0.other_boxes@, m1.other_boxes@), three(m1.other_boxes@, m3.other_boxes@, a, b, c, e, f, g), single(m0), same_types(m1.other_boxes@, m3.other_boxes@),
        iloc_entered(a, b, id, ms, cum(c0.boxes@, c0.mi() + 1), d), iinf_entered(c, e, id)
    ensures grown_single(c0, c3, d, id)
{
    hide(ItemInfoEntryBox::is_exif); hide(shifted);
    let (o0, o1, o2) = (m0.other_boxes@, m1.other_boxes@, m3.other_boxes@);
    lemma_entered_one(o0, o1, BoxType::iloc); lemma_entered_one(o0, o1, BoxType::iinf);
    lemma_first_types(o1, o2, BoxType::iloc); lemma_first_types(o1, o2, BoxType::iinf);
    lemma_last(o1, o1.len() as int, BoxType::iloc); lemma_last(o1, o1.len() as int, BoxType::iinf);
    assert(m0.iloc() == Some(a)); assert(m3.iloc() == Some(b)); assert(m0.iinf() == Some(c)); assert(m3.iinf() == Some(e));
    assert(e.items@ =~= c.items@.push(e.items@.last()));
    lemma_first_exif(c.items@);
    lemma_exif_push(c.items@, e.items@.last());
    assert forall|j: int| 0 <= j < a.items@.len() implies (#[trigger] b.items@[j]).item_id != id by { reveal(shifted); assert(shifted(&a.items@[j], &b.items@[j], cum(c0.boxes@, c0.mi() + 1), d)); assert(a.items@[j].item_id < id); }
    lemma_first_id(b.items@, id);
    assert(b.items@[a.items@.len() as int].item_id == id);
    assert(first_id(b.items@, id) == a.items@.len());
}
pub proof fn lemma_grown(c0: HeifContainer, c2: HeifContainer, c3: HeifContainer, m1: MetaBox, h3: BoxHeader, d1: int, d: int, id: u32, ms: int, a: ItemLocationBox, b: ItemLocationBox, c: ItemInfoBox, e: ItemInfoBox, f: ItemReferenceBox, g: ItemReferenceBox)
    requires all_wf(c0.boxes@), c0.meta() is Some, c0.exif_id() is None, c2.meta() is Some, swapped(c0, c2, c2.meta()->0), swapped(c2, c3, MetaBox { header: h3, ..c2.meta()->0 }), c2.mi() == c0.mi(),
        m1 == (MetaBox { other_boxes: m1.other_boxes, ..c0.meta()->0 }), entered(c0.meta()->0.other_boxes@, m1.other_boxes@), m1.wf0(), d1 == flat(m1.other_boxes@).len() - flat(c0.meta()->0.other_boxes@).len(),
        c2.meta()->0 == (MetaBox { other_boxes: c2.meta()->0.other_boxes, ..m1 }), three(m1.other_boxes@, c2.meta()->0.other_boxes@, a, b, c, e, f, g), d >= 0, d == d1 + (b.ser().len() - a.ser().len()) + (e.ser().len() - c.ser().len()) + (g.ser().len() - f.ser().len()),
        m1.header.resized(&h3, d), h3.wf(), h3.ser().len() == m1.header.ser().len(),
        b.wf(), e.wf(), g.wf(), a.header.box_type == b.header.box_type, c.header.box_type == e.header.box_type, f.header.box_type == g.header.box_type,
        iloc_entered(a, b, id, ms, cum(c0.boxes@, c0.mi() + 1), d), iinf_entered(c, e, id)
    ensures grown(c0, c3, m1.other_boxes@, d, id)
{
    hide(BoxHeader::ser); hide(HandlerBox::ser); hide(BoxHeader::wf); hide(HandlerBox::wf); hide(ItemLocationBox::ser); hide(ItemInfoBox::ser); hide(ItemReferenceBox::ser); hide(ItemLocationBox::wf); hide(ItemInfoBox::wf); hide(ItemReferenceBox::wf); hide(grown_single); hide(MetaBox::iloc); hide(MetaBox::iinf);
    let (m0, m2) = (c0.meta()->0, c2.meta()->0);
    let m3 = MetaBox { header: h3, ..m2 };
    let i = c0.mi();
    lemma_first(c0.boxes@, BoxType::meta);
    assert(c0.boxes@[i].wf());
    assert(c0.boxes@[i].k() == K::Meta(m0));
    lemma_meta_box(c0.boxes@[i], m0); lemma_meta_box(c3.boxes@[i], m3);
    lemma_three(m1.other_boxes@, m2.other_boxes@, a, b, c, e, f, g);
    lemma_meta_len(m0, m3, d);
    assert(c3.boxes@ =~= c0.boxes@.update(i, c3.boxes@[i]));
    lemma_swapped(c0, c3, m0, m3);
    if single(m0) { lemma_grown_single(c0, c3, m0, m1, m3, d, id, ms, a, b, c, e, f, g); }
}
/// one item with another length, the others at their new places: a table of the same size
pub open spec fn relocated_items(a: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, pos: int, end: int, delta: int, id: u32) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).item_id != id ==> item_moved(&a[j], &b[j], pos, end, delta, Some(id))
}
pub proof fn lemma_set_length(a: Seq<ItemLocationEntry>, x: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, id: u32, len: u64, pos: int, end: int, delta: int)
    requires set_length(a, x, id, len), items_moved(x, b, pos, end, delta, Some(id))
    ensures relocated_items(a, b, pos, end, delta, id), a.len() == x.len(), forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).extents@.len() == x[k].extents@.len(),
        ({ let i = first_id(a, id); first_id(b, id) == i && i < a.len() && b[i].here() == a[i].here() && b[i].extents@.len() == 1 && a[i].extents@.len() == 1 && b[i].start(0) == a[i].start(0) && b[i].extents@[0].extent_length == len })
{
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).item_id == id && (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).item_id != id)
        && a[i].extents@.len() == 1 && x =~= a.update(i, x[i])
        && ({ let (u, y) = (a[i], x[i]); u.item_id == y.item_id && u.reserved_and_construction_method == y.reserved_and_construction_method && u.data_reference_index == y.data_reference_index && u.extent_count == y.extent_count && u.base_offset == y.base_offset && y.extents@ =~= seq![ItemLocationEntryExtentEntry { extent_length: len, ..u.extents@[0] }] });
    lemma_first_id(a, id); lemma_first_id(b, id);
    assert(item_moved(&x[i], &b[i], pos, end, delta, Some(id)));
    assert(b[i] == x[i]);
    assert forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).item_id != id implies item_moved(&a[j], &b[j], pos, end, delta, Some(id)) by { assert(x[j] == a[j]); assert(item_moved(&x[j], &b[j], pos, end, delta, Some(id))); }
    assert forall|j: int| 0 <= j < i implies (#[trigger] b[j]).item_id != id by { assert(a[j].item_id != id); assert(x[j] == a[j]); assert(item_moved(&x[j], &b[j], pos, end, delta, Some(id))); }
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).extents@.len() == x[k].extents@.len() by {}
}
pub proof fn lemma_relocated_len(a: ItemLocationBox, x: ItemLocationBox, b: ItemLocationBox, pos: int, end: int, delta: int, id: u32)
    requires a.wf(), b.wf0(), a.same_but_items(&x), x.same_but_items(&b), a.items@.len() == x.items@.len(), forall|k: int| 0 <= k < a.items@.len() ==> (#[trigger] a.items@[k]).extents@.len() == x.items@[k].extents@.len(), items_moved(x.items@, b.items@, pos, end, delta, Some(id))
    ensures b.wf(), a.ser().len() == b.ser().len(), a.header == b.header
{
    lemma_locs_len(a.items@, x.items@, a.v(), a.offset_size, a.length_size, a.base_offset_size, a.index_size);
    lemma_moved_len(x, b, pos, end, delta, Some(id));
}
pub proof fn lemma_same_header(h: BoxHeader) requires h.wf() ensures h.resized(&h, 0) {}
pub open spec fn relocated(c3: HeifContainer, c4: HeifContainer, id: u32, pos: int, end: int, delta: int, len: int) -> bool {
    let (m3, m4) = (c3.meta()->0, c4.meta()->0);
    c4.meta() is Some && all_wf(c4.boxes@) && swapped(c3, c4, m4) && c4.mi() == c3.mi() && c4.boxes@[c3.mi()].ser().len() == c3.boxes@[c3.mi()].ser().len() && m4.handler_box == m3.handler_box && m4.header == m3.header
    && same_types(m3.other_boxes@, m4.other_boxes@) && others_same(m3.other_boxes@, m4.other_boxes@) && m4.iinf() == m3.iinf() && c4.exif_id() == c3.exif_id() && c4.extent(id) == Some((pos, len))
    && m3.iloc() is Some && m4.iloc() is Some && relocated_items(m3.iloc()->0.items@, m4.iloc()->0.items@, pos, end, delta, id)
}
pub proof fn lemma_relocated(c3: HeifContainer, c4: HeifContainer, m3: MetaBox, m4: MetaBox, a: ItemLocationBox, x: ItemLocationBox, b: ItemLocationBox, id: u32, pos: int, end: int, delta: int, len: u64, old_len: int)
    requires all_wf(c3.boxes@), c3.meta() == Some(m3), m3.iloc() == Some(a), swapped(c3, c4, m4), m4 == (MetaBox { other_boxes: m4.other_boxes, ..m3 }), ({ let i = first(m3.other_boxes@, BoxType::iloc); m4.other_boxes@ == m3.other_boxes@.update(i, m4.other_boxes@[i]) && m4.other_boxes@[i].k() == K::Iloc(b) }),
        set_length(a.items@, x.items@, id, len), a.same_but_items(&x), x.same_but_items(&b), b.wf0(), items_moved(x.items@, b.items@, pos, end, delta, Some(id)), c3.extent(id) == Some((pos, old_len))
    ensures relocated(c3, c4, id, pos, end, delta, len as int)
{
    hide(BoxHeader::ser); hide(HandlerBox::ser); hide(BoxHeader::wf); hide(HandlerBox::wf); hide(ItemLocationBox::ser); hide(set_length); hide(items_moved); hide(relocated_items); hide(flat);
    let i = first(m3.other_boxes@, BoxType::iloc);
    let (o3, o4, p) = (m3.other_boxes@, m4.other_boxes@, c3.mi());
    lemma_first(o3, BoxType::iloc); lemma_first(c3.boxes@, BoxType::meta);
    lemma_member(c3.boxes@, p); lemma_member(o3, i);
    lemma_meta_box(c3.boxes@[p], m3); lemma_meta_box(c4.boxes@[p], m4);
    lemma_set_length(a.items@, x.items@, b.items@, id, len, pos, end, delta);
    lemma_relocated_len(a, x, b, pos, end, delta, id);
    axiom_any(o4[i]);
    lemma_update(o3, i, o4[i]);
    lemma_same_header(m3.header);
    lemma_meta_len(m3, m4, 0);
    lemma_swapped(c3, c4, m3, m4);
    assert(o4[i].header().box_type == o3[i].header().box_type);
    assert(same_types(o3, o4));
    lemma_first_types(o3, o4, BoxType::iloc); lemma_first_types(o3, o4, BoxType::iinf);
    lemma_first(o3, BoxType::iinf);
    assert(m4.iloc() == Some(b));
    assert(m4.iinf() == m3.iinf());
    assert(others_same(o3, o4));
}
/// the bytes outside of a box that is replaced by one of the same size
pub proof fn lemma_outside(s: Seq<AnyBox>, i: int, b: AnyBox, tr: Seq<u8>) requires 0 <= i < s.len(), b.ser().len() == s[i].ser().len()
    ensures ({ let u = s.update(i, b); let (f, y) = (flat(s) + tr, flat(u) + tr); y.len() == f.len() && (forall|k: int| 0 <= k < f.len() && !(cum(s, i) <= k < cum(s, i + 1)) ==> #[trigger] y[k] == f[k]) && (forall|j: int| 0 <= j <= s.len() ==> #[trigger] cum(u, j) == cum(s, j))
        && 0 <= cum(s, i) <= cum(s, i + 1) <= f.len() && y.subrange(cum(s, i), cum(s, i + 1)) == b.ser() && f.subrange(cum(s, i), cum(s, i + 1)) == s[i].ser() })
{
    lemma_replace(s, i, b, tr);
    let u = s.update(i, b); let (f, y) = (flat(s) + tr, flat(u) + tr); let (p, q) = (cum(s, i), cum(s, i + 1));
    lemma_cum(s, i);
    assert forall|k: int| 0 <= k < f.len() && !(p <= k < q) implies #[trigger] y[k] == f[k] by { if k < p { assert(y[k] == y.take(p)[k]); assert(f[k] == f.take(p)[k]); } else { assert(y[k] == y.skip(q)[k - q]); assert(f[k] == f.skip(q)[k - q]); } }
}
/// only the header of a box changes
pub proof fn lemma_hosted(s: Seq<AnyBox>, u: Seq<AnyBox>, m: int, pos: int, end: int, delta: int, tr: Seq<u8>) requires host(s, u, m, pos, end, delta), all_wf(s)
    ensures ({ let (f, y) = (flat(s) + tr, flat(u) + tr); let hl = s[m].header().header_size as int; y.len() == f.len() && (forall|k: int| 0 <= k < f.len() && !(cum(s, m) <= k < cum(s, m) + hl) ==> #[trigger] y[k] == f[k]) && (forall|j: int| 0 <= j <= s.len() ==> #[trigger] cum(u, j) == cum(s, j)) && 0 <= hl && cum(s, m) + hl <= cum(s, m + 1) <= f.len() }),
        u.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] u[j]).header().box_type == s[j].header().box_type
{
    lemma_wf_at(s, m);
    axiom_any(u[m]);
    let (a, b) = (s[m], u[m]);
    assert(b.header().wf()) by { match b.k() { K::Iso(x) => {}, K::Meta(x) => {}, K::Iinf(x) => {}, K::Iloc(x) => {}, K::Iref(x) => {} } }
    axiom_any(a);
    assert(a.header().wf()) by { match a.k() { K::Iso(x) => {}, K::Meta(x) => {}, K::Iinf(x) => {}, K::Iloc(x) => {}, K::Iref(x) => {} } }
    lemma_resized(a, b, delta);
    lemma_outside(s, m, b, tr);
    let (f, y) = (flat(s) + tr, flat(u) + tr); let (p, q) = (cum(s, m), cum(s, m + 1)); let hl = s[m].header().header_size as int;
    lemma_len2(a.header().ser(), k_body(a.k())); lemma_cum(s, m);
    assert(hl == a.header().ser().len());
    assert(u =~= s.update(m, b));
    assert forall|k: int| 0 <= k < f.len() && !(p <= k < p + hl) implies #[trigger] y[k] == f[k] by {
        if p <= k < q { assert(y[k] == y.subrange(p, q)[k - p]); assert(f[k] == f.subrange(p, q)[k - p]); assert(b.ser()[k - p] == k_body(a.k())[k - p - hl]); assert(a.ser()[k - p] == k_body(a.k())[k - p - hl]); }
    }
}
/// what a write makes of a file: the EXIF area is the head and the contents; around it, every byte is what the boxes c1 are written as; c1: the boxes c0 with (where there was none) an item for EXIF,
/// the size of the box m that the EXIF area lies in, and the new places of the items
pub open spec fn wrote(c0: HeifContainer, c1: HeifContainer, f0: Seq<u8>, f1: Seq<u8>, contents: Seq<u8>, id: u32, o1: Seq<AnyBox>, m: int, pos: int, end: int, head: Seq<u8>) -> bool {
    let (m0, m1, mi, n, h) = (c0.meta()->0, c1.meta()->0, c0.mi(), c0.boxes@.len() as int, c0.boxes@[m].header());
    let area = head + contents;
    &&& c0.meta() is Some && c1.meta() is Some && c1.trailing == c0.trailing && c1.boxes@.len() == n && c1.mi() == mi && 0 <= m < n && m != mi
    &&& forall|j: int| 0 <= j < n && j != mi && j != m ==> #[trigger] c1.boxes@[j] == c0.boxes@[j]
    &&& h.resized(&c1.boxes@[m].header(), area.len() - (end - pos)) && c1.boxes@[m].k() == k_with(c0.boxes@[m].k(), c1.boxes@[m].header())
    &&& m1.wf() && m1.handler_box == m0.handler_box && entered(m0.other_boxes@, o1) && same_types(o1, m1.other_boxes@) && others_same(o1, m1.other_boxes@)
    &&& 0 <= pos <= end && f1 == spliced(c1.ser(), pos, end, area) && cum(c1.boxes@, m) + h.header_size <= pos && end <= cum(c1.boxes@, m + 1)
    &&& headed(head) && c1.exif_id() == Some(id) && c1.extent(id) == Some((pos, area.len() as int)) && (c0.exif_id() is Some ==> c0.exif_id() == Some(id) && head == c0.area_head(id, f0) && m0.iinf() == m1.iinf()) && (c0.exif_id() is None ==> head == seq![0u8, 0, 0, 6] + EXIF_HEADER@ && m0.iinf() is Some && m1.iinf() is Some && m1.iinf()->0.items@.drop_last() == m0.iinf()->0.items@)
    &&& m0.iloc() is Some && m1.iloc() is Some && items_kept(m0.iloc()->0.items@, m1.iloc()->0.items@, id, f0, f1, cum(c0.boxes@, mi), cum(c0.boxes@, mi + 1), cum(c0.boxes@, m), cum(c0.boxes@, m) + h.header_size)
}
pub open spec fn items_kept(a: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, id: u32, f0: Seq<u8>, f1: Seq<u8>, ms: int, me: int, hs: int, he: int) -> bool {
    a.len() <= b.len() && forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).item_id != id ==> item_kept(&a[j], &b[j], f0, f1, ms, me, hs, he)
}
pub open spec fn written(c0: HeifContainer, c1: HeifContainer, f0: Seq<u8>, f1: Seq<u8>, contents: Seq<u8>) -> bool { exists|id: u32, o1: Seq<AnyBox>, m: int, pos: int, end: int, head: Seq<u8>| #[trigger] wrote(c0, c1, f0, f1, contents, id, o1, m, pos, end, head) }
/// reading finds the EXIF header and the contents
pub proof fn lemma_read_back(c0: HeifContainer, c1: HeifContainer, f0: Seq<u8>, f1: Seq<u8>, contents: Seq<u8>) requires written(c0, c1, f0, f1, contents) ensures c1.exif_data(f1) == Some(EXIF_HEADER@ + contents)
{
    let (id, o1, m, pos, end, head) = choose|id: u32, o1: Seq<AnyBox>, m: int, pos: int, end: int, head: Seq<u8>| #[trigger] wrote(c0, c1, f0, f1, contents, id, o1, m, pos, end, head);
    let area = head + contents; let x = c1.ser();
    lemma_cum_mono(c1.boxes@, m + 1, c1.boxes@.len() as int);
    assert(f1.len() == x.len() - (end - pos) + area.len());
    assert(f1.subrange(pos, pos + area.len()) =~= area);
    assert(f1[pos] == head[0]) by { assert(f1.subrange(pos, pos + area.len())[0] == area[0]); }
    assert(f1[pos + 1] == head[1]) by { assert(f1.subrange(pos, pos + area.len())[1] == area[1]); }
    assert(f1[pos + 2] == head[2]) by { assert(f1.subrange(pos, pos + area.len())[2] == area[2]); }
    assert(f1[pos + 3] == head[3]) by { assert(f1.subrange(pos, pos + area.len())[3] == area[3]); }
    assert(num_at(f1, pos) == num_at(head, 0));
    assert(f1.subrange(pos + head.len(), pos + area.len()) =~= contents);
    if contents.len() == 0 { assert(EXIF_HEADER@ + contents =~= EXIF_HEADER@); }
}
pub proof fn lemma_mi_other(c4: HeifContainer, c5: HeifContainer, m: int, pos: int, end: int, delta: int, id: u32) requires host(c4.boxes@, c5.boxes@, m, pos, end, delta), c4.meta() is Some, all_wf(c4.boxes@) ensures m != c4.mi(), c5.mi() == c4.mi(), c5.meta() == c4.meta(), c5.exif_id() == c4.exif_id(), c5.extent(id) == c4.extent(id), c5.boxes@[c4.mi()] == c4.boxes@[c4.mi()]
{
    lemma_hosted(c4.boxes@, c5.boxes@, m, pos, end, delta, Seq::empty());
    assert(same_types(c4.boxes@, c5.boxes@));
    lemma_first_types(c4.boxes@, c5.boxes@, BoxType::meta);
    lemma_first(c4.boxes@, BoxType::meta);
}
pub proof fn lemma_items_kept(a: Seq<ItemLocationEntry>, x: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, f0: Seq<u8>, y: Seq<u8>, z: Seq<u8>, f1: Seq<u8>, ms: int, me: int, d: int, h0: int, h: int, hl: int, pos: int, end: int, area: Seq<u8>, id: u32)
    requires 0 <= ms <= me <= f0.len(), me + d >= ms, y.len() == f0.len() + d, y.take(ms) == f0.take(ms), y.skip(me + d) == f0.skip(me),
        z.len() == y.len(), forall|i: int| 0 <= i < z.len() && !(ms <= i < me + d) && !(h <= i < h + hl) ==> #[trigger] z[i] == y[i],
        0 <= pos <= end <= z.len(), pos < u64::MAX, f1 == spliced(z, pos, end, area),
        0 <= hl, (h0 + hl <= ms && h == h0) || (me <= h0 && h == h0 + d),
        items_grown(a, x, me, d), relocated_items(x, b, pos, end, area.len() - (end - pos), id)
    ensures items_kept(a, b, id, f0, f1, ms, me, h0, h0 + hl)
{
    hide(item_kept); hide(item_moved);
    assert forall|j: int| 0 <= j < a.len() && (#[trigger] a[j]).item_id != id implies item_kept(&a[j], &b[j], f0, f1, ms, me, h0, h0 + hl) by {
        assert(shifted(&a[j], &x[j], me, d));
        assert(x[j].item_id == a[j].item_id);
        lemma_item(a[j], x[j], b[j], f0, y, z, f1, ms, me, d, h0, h, hl, pos, end, area, id);
    }
}
/// the bytes outside of the meta box and the header of the box that EXIF lies in
pub proof fn lemma_bytes_around(c0: HeifContainer, c3: HeifContainer, c4: HeifContainer, c5: HeifContainer, m: int, d: int, pos: int, end: int, delta: int)
    requires 0 <= c0.mi() < c0.boxes@.len(), c3.trailing == c0.trailing, c4.trailing == c0.trailing, c5.trailing == c0.trailing, c3.boxes@ == c0.boxes@.update(c0.mi(), c3.boxes@[c0.mi()]), c4.boxes@ == c3.boxes@.update(c0.mi(), c4.boxes@[c0.mi()]),
        c4.boxes@[c0.mi()].ser().len() == c3.boxes@[c0.mi()].ser().len(), d == c3.boxes@[c0.mi()].ser().len() - c0.boxes@[c0.mi()].ser().len(), d >= 0, host(c4.boxes@, c5.boxes@, m, pos, end, delta), all_wf(c4.boxes@), m != c0.mi()
    ensures ({ let (f0, y, z) = (c0.ser(), c3.ser(), c5.ser()); let (ms, me) = (cum(c0.boxes@, c0.mi()), cum(c0.boxes@, c0.mi() + 1)); let (h0, h, hl) = (cum(c0.boxes@, m), cum(c4.boxes@, m), c4.boxes@[m].header().header_size as int);
        0 <= ms <= me <= f0.len() && y.len() == f0.len() + d && y.take(ms) == f0.take(ms) && y.skip(me + d) == f0.skip(me) && z.len() == y.len() && (forall|i: int| 0 <= i < z.len() && !(ms <= i < me + d) && !(h <= i < h + hl) ==> #[trigger] z[i] == y[i])
        && 0 <= hl && ((h0 + hl <= ms && h == h0) || (me <= h0 && h == h0 + d)) && cum(c5.boxes@, m) == h && cum(c5.boxes@, m + 1) == cum(c4.boxes@, m + 1) && end <= z.len() })
{
    let (mi, tr) = (c0.mi(), c0.trailing@);
    let (s0, s3, s4, s5) = (c0.boxes@, c3.boxes@, c4.boxes@, c5.boxes@);
    lemma_replace(s0, mi, s3[mi], tr);
    lemma_outside(s3, mi, s4[mi], tr);
    lemma_hosted(s4, s5, m, pos, end, delta, tr);
    lemma_cum_mono(s0, 0, mi); 
    assert(s0.take(0) =~= Seq::empty());
    if m < mi { lemma_cum_mono(s0, m + 1, mi); assert(cum(s3, m) == cum(s0, m)); assert(cum(s3, m + 1) == cum(s0, m + 1)); assert(cum(s4, m) == cum(s3, m)); assert(cum(s4, m + 1) == cum(s3, m + 1)); }
    else { lemma_cum_mono(s0, mi + 1, m); assert(cum(s3, m) == cum(s0, m) + d); assert(cum(s4, m) == cum(s3, m)); }
    assert(cum(s3, mi) == cum(s0, mi)); assert(cum(s3, mi + 1) == cum(s0, mi + 1) + d);
    assert(cum(s5, m) == cum(s4, m)); assert(cum(s5, m + 1) == cum(s4, m + 1));
    let (y, x4, z) = (c3.ser(), c4.ser(), c5.ser()); let (h, hl) = (cum(s4, m), s4[m].header().header_size as int); let (ms, me) = (cum(s0, mi), cum(s0, mi + 1));
    assert(c0.ser() == flat(s0) + tr);
    assert forall|i: int| 0 <= i < z.len() && !(ms <= i < me + d) && !(h <= i < h + hl) implies #[trigger] z[i] == y[i] by { assert(z[i] == x4[i]); assert(x4[i] == y[i]); }
}
pub proof fn lemma_written(c0: HeifContainer, c3: HeifContainer, c4: HeifContainer, c5: HeifContainer, o1: Seq<AnyBox>, d: int, id: u32, f0: Seq<u8>, f1: Seq<u8>, contents: Seq<u8>, m: int, pos: int, end: int, head: Seq<u8>)
    requires all_wf(c0.boxes@), f0 == c0.ser(), grown(c0, c3, o1, d, id), c0.exif_id() is Some || single(c0.meta()->0), relocated(c3, c4, id, pos, end, head.len() + contents.len() - (end - pos), (head.len() + contents.len()) as int),
        host(c4.boxes@, c5.boxes@, m, pos, end, head.len() + contents.len() - (end - pos)), c5.trailing == c0.trailing, f1 == spliced(c5.ser(), pos, end, head + contents), 0 <= pos <= end, pos < u64::MAX, headed(head), head == c3.area_head(id, f0)
    ensures written(c0, c5, f0, f1, contents)
{
    hide(BoxHeader::ser); hide(HandlerBox::ser); hide(BoxHeader::wf); hide(HandlerBox::wf); hide(all_wf); hide(flat); hide(single); hide(entered); hide(items_grown); hide(relocated_items); hide(items_kept); hide(MetaBox::iloc); hide(MetaBox::iinf); hide(MetaBox::wf0); hide(host); hide(HeifContainer::meta); hide(HeifContainer::exif_id); hide(HeifContainer::extent); hide(MetaBox::ser); hide(first); hide(cum);
    let (mi, delta) = (c0.mi(), head.len() + contents.len() - (end - pos));
    let (m0, m3, m4) = (c0.meta()->0, c3.meta()->0, c4.meta()->0);
    let area = head + contents;
    assert(area.len() == head.len() + contents.len());
    lemma_mi_other(c4, c5, m, pos, end, delta, id);
    lemma_bytes_around(c0, c3, c4, c5, m, d, pos, end, delta);
    reveal(grown_single);
    if c0.exif_id() is Some { lemma_same_items(m0.iloc()->0.items@, cum(c0.boxes@, mi + 1)); }
    lemma_items_kept(m0.iloc()->0.items@, m3.iloc()->0.items@, m4.iloc()->0.items@, f0, c3.ser(), c5.ser(), f1, cum(c0.boxes@, mi), cum(c0.boxes@, mi + 1), d, cum(c0.boxes@, m), cum(c4.boxes@, m), c4.boxes@[m].header().header_size as int, pos, end, area, id);
    assert(c4.boxes@[m] == c0.boxes@[m]);
    lemma_meta_wf(c4, m4);
    lemma_host(c4.boxes@, c5.boxes@, m, pos, end, delta);
    lemma_same_types2(o1, m3.other_boxes@, m4.other_boxes@);
    assert(wrote(c0, c5, f0, f1, contents, id, o1, m, pos, end, head));
}
pub proof fn lemma_meta_wf(c: HeifContainer, m: MetaBox) requires all_wf(c.boxes@), c.meta() == Some(m) ensures m.wf() { lemma_first(c.boxes@, BoxType::meta); lemma_member(c.boxes@, c.mi()); }
pub proof fn lemma_same_types2(a: Seq<AnyBox>, b: Seq<AnyBox>, c: Seq<AnyBox>) requires same_types(a, b), same_types(b, c), others_same(a, b), others_same(b, c) ensures same_types(a, c), others_same(a, c)
{
    assert forall|j: int| 0 <= j < a.len() implies (#[trigger] c[j]).header().box_type == a[j].header().box_type by { assert(b[j].header().box_type == a[j].header().box_type); }
    assert forall|j: int| 0 <= j < a.len() && plain(a[j]) implies (#[trigger] c[j]).k() == a[j].k() by { assert(b[j].k() == a[j].k()); assert(plain(b[j])); }
}
pub proof fn lemma_host(b4: Seq<AnyBox>, b5: Seq<AnyBox>, m: int, pos: int, end: int, delta: int) requires host(b4, b5, m, pos, end, delta)
    ensures 0 <= m < b4.len(), b5 == b4.update(m, b5[m]), b5[m].k() == k_with(b4[m].k(), b5[m].header()), b4[m].header().resized(&b5[m].header(), delta), cum(b4, m) + b4[m].header().header_size <= pos <= end <= cum(b4, m + 1) {}
pub proof fn lemma_flat0(s: Seq<AnyBox>) ensures flat(s.take(0)) == Seq::<u8>::empty() { assert(s.take(0) =~= Seq::empty()); }
pub proof fn lemma_grown_facts(c0: HeifContainer, c3: HeifContainer, o1: Seq<AnyBox>, d: int, id: u32) requires grown(c0, c3, o1, d, id)
    ensures all_wf(c3.boxes@), all_wf0(c3.boxes@), c3.meta() is Some, c3.trailing == c0.trailing, c3.boxes@.len() == c0.boxes@.len(), flat(c3.boxes@).len() + c3.trailing@.len() == c0.ser().len() + d, c0.exif_id() is Some || single(c0.meta()->0) ==> c3.exif_id() == Some(id)
{ lemma_wf0(c3.boxes@); lemma_update(c0.boxes@, c0.mi(), c3.boxes@[c0.mi()]); reveal(grown_single); }
pub proof fn lemma_relocated_facts(c3: HeifContainer, c4: HeifContainer, id: u32, pos: int, end: int, delta: int, len: int) requires relocated(c3, c4, id, pos, end, delta, len)
    ensures all_wf(c4.boxes@), c4.trailing == c3.trailing, c4.boxes@.len() == c3.boxes@.len() {}
/// what writing does to the container c0 of the file f0
pub open spec fn did(c0: HeifContainer, c1: HeifContainer, f0: Seq<u8>, f1: Seq<u8>, x: Seq<u8>) -> bool {
    all_wf(c0.boxes@) && c0.ser() == f0 && (c0.exif_id() is Some || single(c0.meta()->0) ==> written(c0, c1, f0, f1, x) && c1.exif_data(f1) == Some(EXIF_HEADER@ + x))
}
impl HeifContainer {
//# fn src/heif/container.rs generic_write_metadata in HeifContainer -> r
//# attr
    #[verifier::allow_complex_invariants]
//# spec
    requires all_wf(old(self).boxes@), old(self).ser() == old(file_buffer)@
    ensures r is Ok ==> did(*old(self), *final(self), old(file_buffer)@, final(file_buffer)@, metadata.contents()),
        r is Err ==> final(file_buffer)@ == old(file_buffer)@
//# begin
    hide(BoxHeader::ser); hide(HandlerBox::ser); hide(BoxHeader::wf); hide(HandlerBox::wf); hide(ItemLocationBox::ser); hide(ItemInfoBox::ser); hide(ItemReferenceBox::ser); hide(ItemLocationBox::wf); hide(ItemInfoBox::wf); hide(ItemReferenceBox::wf); hide(grown_single); hide(MetaBox::iloc); hide(MetaBox::iinf);
    hide(all_wf); hide(all_wf0); hide(grown); hide(others); hide(same_types); hide(others_same); hide(MetaBox::ser); hide(MetaBox::wf); hide(HeifContainer::meta); hide(HeifContainer::exif_id); hide(single); hide(entered); hide(iloc_entered); hide(iinf_entered); hide(last_of); hide(first); hide(flat); hide(items_moved); hide(relocated); hide(set_length); hide(written); hide(HeifContainer::extent); hide(headed); hide(HeifContainer::area_head);
    let ghost c0 = *self;
    let ghost mut d: int = 0;
    let ghost mut og: Seq<AnyBox> = Seq::empty();
    proof { vec_bounded(file_buffer); lemma_wf0(self.boxes@); if c0.exif_id() is Some { lemma_not_grown(c0, c0.exif_id()->0); og = c0.meta()->0.other_boxes@; } }
//# after /let mut iref_size_delta[^;]*;/
            let ghost (c1, d1) = (*self, iref_size_delta as int);
            let ghost m1 = c1.boxes@[c0.mi()].k()->Meta_0;
            proof { lemma_swapped(c0, c1, c0.meta()->0, m1); og = m1.other_boxes@; }
//# before /let \(new_iloc_id, iloc_size_delta\)/
            let ghost (a0, c_0, f0, fw, n) = (*iloc, *iinf, *iref, vx_m0.will(), o1.len() as int);
            let ghost (li, ii, ri) = (last_of(o1, n, BoxType::iloc), last_of(o1, n, BoxType::iinf), last_of(o1, n, BoxType::iref));
            proof { vec_bounded_infos(&iinf.items); assert(o1[li].k() == K::Iloc(a0)); assert(o1[ii].k() == K::Iinf(c_0)); assert(o1[ri].k() == K::Iref(f0)); lemma_last(o1, o1.len() as int, BoxType::iloc); lemma_last(o1, o1.len() as int, BoxType::iinf); lemma_last(o1, o1.len() as int, BoxType::iref); lemma_member(o1, last_of(o1, o1.len() as int, BoxType::iloc)); lemma_member(o1, last_of(o1, o1.len() as int, BoxType::iinf)); lemma_member(o1, last_of(o1, o1.len() as int, BoxType::iref)); }
//# before /iloc\.move_extents\(meta_start/
            let ghost x0 = *iloc;
//# after /iloc\.move_extents\(meta_start[^;]*;/
            let ghost (c2, b0, e0, g0) = (*self, *iloc, *iinf, *iref);
            let ghost m2 = c2.boxes@[c0.mi()].k()->Meta_0;
            proof {
                lemma_swapped(c1, c2, m1, m2); lemma_swapped_twice(c0, c1, c2, c0.meta()->0, m1, m2);
                assert(m2.other_boxes@ == fw);
                assert(fw[li].k() == K::Iloc(b0)); assert(fw[ii].k() == K::Iinf(e0)); assert(fw[ri].k() == K::Iref(g0));
                assert(three(o1, m2.other_boxes@, a0, b0, c_0, e0, f0, g0));
                d = meta_size_delta as int;
                reveal(iloc_entered); reveal(iinf_entered);
                assert(new_location(&x0.items@.last(), new_iloc_id, new_exif_start, 0));
                lemma_shifted(a0.items@, x0.items@, b0.items@, meta_start as int, meta_end as int, d);
                lemma_iloc_grown(a0, x0, b0, iloc_size_delta as int, meta_start as int, meta_end as int, d);
                lemma_iinf_grown(c_0, e0, iinf_size_delta as int);
                lemma_iref_grown(f0, g0, d - iloc_size_delta - iinf_size_delta - d1);
                lemma_three(o1, m2.other_boxes@, a0, b0, c_0, e0, f0, g0);
                assert(m2.wf0());
            }
//# after /change_box_size\(meta_size_delta\)\?;/
            proof {
                let h3 = self.boxes@[c0.mi()].k()->Meta_0.header;
                lemma_grown(c0, c2, *self, m1, h3, d1, d, new_iloc_id, meta_start as int, a0, b0, c_0, e0, f0, g0);
            }
//# before /let exif_item_id/
    let ghost (c3, ok) = (*self, c0.exif_id() is Some || single(c0.meta()->0));
    proof { assert(grown(c0, c3, og, d, id->Ok_0)); lemma_grown_facts(c0, c3, og, d, id->Ok_0); }
//# after /let iloc = self\.get_meta_box_mut[^;]*;/
    let ghost il3 = *iloc;
    proof { assert(il3.wf0()) by { reveal(ItemLocationBox::wf); } }
//# after /iloc\.set_extent_length[^;]*;/
    let ghost ilx = *iloc;
//# after /iloc\.move_extents\(old_exif_pos[^;]*;/
    let ghost (c4, il4, m3) = (*self, *iloc, c3.meta()->0);
    let ghost m4 = c4.boxes@[c3.mi()].k()->Meta_0;
    proof {
        lemma_relocated(c3, c4, m3, m4, il3, ilx, il4, exif_item_id, old_exif_pos as int, end_of_old_exif as int, delta as int, new_exif_area@.len() as u64, old_exif_len as int);
        lemma_relocated_facts(c3, c4, exif_item_id, old_exif_pos as int, end_of_old_exif as int, delta as int, new_exif_area@.len() as int);
    }
//# loop 0 before
            let ghost o1 = meta_mut_ref.other_boxes@;
            proof { lemma_last0(o1, o1); assert forall|f: Seq<AnyBox>| #[trigger] others(o1, f, 0) by { lemma_last0(o1, f); } }
//# loop 0 cursor
                invariant_except_break o1 == vx_m0.was(), vx_m0.will() == vx_w0, 0 <= vx_m0.at() <= o1.len(), vx_m0.will().len() == o1.len(), all_wf(o1),
                    held_iloc(o1, vx_m0.will(), vx_m0.at(), iloc_opt), held_iinf(o1, vx_m0.will(), vx_m0.at(), iinf_opt), held_iref(o1, vx_m0.will(), vx_m0.at(), iref_opt), others(o1, vx_m0.will(), vx_m0.at())
                ensures o1 == vx_m0.was(), vx_m0.will() == vx_w0, vx_m0.at() == o1.len(), vx_m0.will().len() == o1.len(),
                    held_iloc(o1, vx_m0.will(), vx_m0.at(), iloc_opt), held_iinf(o1, vx_m0.will(), vx_m0.at(), iinf_opt), held_iref(o1, vx_m0.will(), vx_m0.at(), iref_opt), others(o1, vx_m0.will(), vx_m0.at())
                decreases o1.len() - vx_m0.at()
//# loop 0 begin
                let ghost (n, gl, gi, gr) = (vx_m0.at() - 1, iloc_opt, iinf_opt, iref_opt);
//# loop 0 end
                proof {
                    let (s, f) = (o1, vx_m0.will());
                    lemma_last(s, n, BoxType::iloc); lemma_last(s, n, BoxType::iinf); lemma_last(s, n, BoxType::iref);
                    if s[n].header().box_type == BoxType::iloc { match gl { Some(b) => { assert(*final(b) == *b); }, None => {} } }
                    if s[n].header().box_type == BoxType::iinf { match gi { Some(b) => { assert(*final(b) == *b); }, None => {} } }
                    if s[n].header().box_type == BoxType::iref { match gr { Some(b) => { assert(*final(b) == *b); }, None => {} } }
                    lemma_last_step(s, n, BoxType::iloc); lemma_last_step(s, n, BoxType::iinf); lemma_last_step(s, n, BoxType::iref);
                    reveal(others);
                    if plain(s[n]) { assert(f[n].k() == s[n].k()); }
                    assert(others(s, f, n + 1));
                }
//# loop 1 before
        let ghost b4 = self.boxes@;
        let ghost mut m: int = -1;
        proof { lemma_flat0(b4); }
        let ghost (pos, end, area) = (old_exif_pos as int, end_of_old_exif as int, new_exif_area@);
//# loop 1
            invariant vx_i1 <= self.boxes@.len(), self.boxes@.len() == b4.len(), all_wf(b4), self.trailing == c0.trailing, pos == old_exif_pos, end == end_of_old_exif, pos <= end, area == new_exif_area@,
                !new_exif_written ==> self.boxes@ == b4 && new_file_buffer@ == flat(b4.take(vx_i1 as int)),
                new_exif_written ==> m < vx_i1 && host(b4, self.boxes@, m, pos, end, delta as int) && end <= flat(self.boxes@.take(vx_i1 as int)).len() && new_file_buffer@ == spliced(flat(self.boxes@.take(vx_i1 as int)), pos, end, area)
            decreases self.boxes@.len() - vx_i1
//# loop 1 begin
            let ghost (i, b5, n0) = (vx_i1 as int, self.boxes@, new_file_buffer@);
            proof { lemma_wf_at(b4, i); lemma_cum(b5, i); lemma_cum(b4, i); vec_bounded(&new_file_buffer); }
//# before /let box_start/
            proof { vec_bounded(&serialized); axiom_any(b5[i]); }
//# before /continue;/
                proof { assert(self.boxes@ =~= b5); if new_exif_written { lemma_spliced(flat(b5.take(i)), pos, end, area, b5[i].ser()); } }
//# before /new_file_buffer\.extend\(iso_box\.serialize/
            proof { lemma_resized(b5[i], *iso_box, delta as int); }
//# loop 1 end
            proof {
                m = i;
                let u = self.boxes@;
                assert(u =~= b5.update(i, u[i]));
                assert(u.take(i) =~= b5.take(i));
                lemma_cum(u, i);
            }
//# before /new_file_buffer\.extend\(&self\.trailing/
    proof { assert(self.boxes@.take(self.boxes@.len() as int) =~= self.boxes@); lemma_spliced(flat(self.boxes@), pos, end, area, self.trailing@); }
//# before /\*file_buffer = new_file_buffer/
    proof {
        vec_bounded(&new_file_buffer);
        if ok {
            lemma_written(c0, c3, c4, *self, og, d, exif_item_id, old(file_buffer)@, new_file_buffer@, metadata.contents(), m, pos, end, c3.area_head(exif_item_id, old(file_buffer)@));
            lemma_read_back(c0, *self, old(file_buffer)@, new_file_buffer@, metadata.contents());
        }
    }
//# end
//# fn src/heif/container.rs generic_clear_metadata in HeifContainer -> r
//# sub /cursor\.get_mut\(\)/ => /vx_vec(&mut cursor)/
//# spec
    requires all_wf(old(self).boxes@), old(self).ser() == old(file_buffer)@
    ensures r is Ok ==> old(self).exif_data(old(file_buffer)@) is Some && decoding(old(self).exif_data(old(file_buffer)@)->0) is Some && ({
            let c = remaining(decoding(old(self).exif_data(old(file_buffer)@)->0)->0).contents();
            written(*old(self), *final(self), old(file_buffer)@, final(file_buffer)@, c) && final(self).exif_data(final(file_buffer)@) == Some(EXIF_HEADER@ + c) }),
        r is Err ==> final(file_buffer)@ == old(file_buffer)@
//# begin
    proof { vec_bounded(file_buffer); }
//# end
}
/// what one of the two operations leaves of a file
pub open spec fn outcome(f0: Seq<u8>, f1: Seq<u8>, x: Seq<u8>) -> bool {
    exists|c0: HeifContainer, c1: HeifContainer| #[trigger] did(c0, c1, f0, f1, x)
}
/// ... of a file with EXIF data
pub open spec fn cleared(f0: Seq<u8>, f1: Seq<u8>) -> bool {
    exists|c0: HeifContainer, c1: HeifContainer, m: Metadata| #[trigger] all_wf(c0.boxes@) && c0.ser() == f0 && c0.exif_data(f0) is Some && decoding(c0.exif_data(f0)->0) == Some(m) && #[trigger] written(c0, c1, f0, f1, remaining(m).contents()) && c1.exif_data(f1) == Some(EXIF_HEADER@ + remaining(m).contents())
}
//# fn src/heif/mod.rs write_metadata -> r
//# sub /cursor\.get_mut\(\)/ => /vx_vec(&mut cursor)/
//# spec
    ensures r is Ok ==> outcome(old(file_buffer)@, final(file_buffer)@, metadata.contents()), r is Err ==> final(file_buffer)@ == old(file_buffer)@
//# begin
    let ghost f0 = file_buffer@;
    proof { vec_bounded(file_buffer); }
//# before /return container/
    let ghost c0 = container;
    proof { assert(f0.skip(0) =~= f0); }
//# end
//# fn src/heif/mod.rs clear_metadata -> r
//# sub /cursor\.get_mut\(\)/ => /vx_vec(&mut cursor)/
//# spec
    ensures r is Ok ==> cleared(old(file_buffer)@, final(file_buffer)@), r is Err ==> final(file_buffer)@ == old(file_buffer)@
//# begin
    let ghost f0 = file_buffer@;
    proof { vec_bounded(file_buffer); }
//# before /return container/
    let ghost c0 = container;
    proof { assert(f0.skip(0) =~= f0); }
//# end
} // mod w
}
fn main() {}
