verus! {
use core::cmp::Ordering;
//# elem ImageFileDirectory image_file_directories ifds_with_offset_info_only get_ifds insert_into
//# elem ExifTag tags all_relevant_tags
pub struct uR64 { pub nominator: u32, pub denominator: u32 }
pub struct iR64 { pub nominator: i32, pub denominator: i32 }
//# item src/exif_tag_format.rs type INT8U
//# item src/exif_tag_format.rs type STRING
//# item src/exif_tag_format.rs type INT16U
//# item src/exif_tag_format.rs type INT32U
//# item src/exif_tag_format.rs type RATIONAL64U
//# item src/exif_tag_format.rs type INT8S
//# item src/exif_tag_format.rs type UNDEF
//# item src/exif_tag_format.rs type INT16S
//# item src/exif_tag_format.rs type INT32S
//# item src/exif_tag_format.rs type RATIONAL64S
//# item src/exif_tag_format.rs type FLOAT
//# item src/exif_tag_format.rs type DOUBLE
#[derive(Clone, Copy, PartialEq, Eq)]
//# item src/ifd/mod.rs enum ExifTagGroup
impl vstd::std_specs::cmp::PartialEqSpecImpl for ExifTagGroup {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ExifTagGroup) -> bool { *self == *other }
}
// derive(PartialOrd) on an enum without fields: declaration order
pub open spec fn rank(g: ExifTagGroup) -> int { g as int }
pub fn vx_lt(a: ExifTagGroup, b: ExifTagGroup) -> (r: bool) ensures r == (rank(a) < rank(b)) { (a as u8) < (b as u8) }
//# item @exif_tag enum ExifTag
//# item src/ifd/mod.rs struct ImageFileDirectory s/([\{,]\s*)(\w+:)/\1pub \2/
//# item src/metadata/mod.rs struct Metadata s/([\{,]\s*)(\w+:)/\1pub \2/
pub type Dir = ImageFileDirectory;
impl Clone for ExifTag {      // derive(Clone)
    #[verifier::external_body]
    fn clone(&self) -> (r: ExifTag) ensures r == *self { unimplemented!() }
}
impl ExifTag {
//# specfn @exif_tag as_u16 in ExifTag as hex
//# specfn @exif_tag get_group in ExifTag as grp
//# fn @exif_tag as_u16 in ExifTag -> r
//# attr
#[verifier::when_used_as_spec(hex)]
//# spec
    ensures r == self.hex()
//# end
//# fn @exif_tag get_group in ExifTag -> r
//# attr
#[verifier::when_used_as_spec(grp)]
//# spec
    ensures r == self.grp()
//# end
}
pub open spec fn hexes() -> spec_fn(ExifTag) -> u16 { |t: ExifTag| t.hex() }
// the entries with one number
pub open spec fn at_hex(s: Seq<ExifTag>, h: u16) -> Seq<ExifTag> { s.filter(|t: ExifTag| t.hex() == h) }
pub open spec fn ascending(s: Seq<ExifTag>) -> bool { sorted_by(s, hexes()) }
pub open spec fn strictly(s: Seq<ExifTag>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).hex() < (#[trigger] s[j]).hex() }
impl ImageFileDirectory {
    pub open spec fn ty(&self) -> ExifTagGroup { self.ifd_type }
    pub open spec fn nr(&self) -> u32 { self.belongs_to_generic_ifd_nr }
    pub open spec fn tg(&self) -> &Vec<ExifTag> { &self.tags }
//# fn src/ifd/get.rs get_tags -> r
//# attr
#[verifier::when_used_as_spec(tg)]
//# spec
    ensures r == self.tg()
//# end
//# fn src/ifd/get.rs get_generic_ifd_nr -> r
//# attr
#[verifier::when_used_as_spec(nr)]
//# spec
    ensures r == self.nr()
//# end
//# fn src/ifd/get.rs get_ifd_type -> r
//# attr
#[verifier::when_used_as_spec(ty)]
//# spec
    ensures r == self.ty()
//# end
//# fn src/ifd/mod.rs new_with_tags -> r
//# spec
    ensures r.tags == tags, r.ty() == group, r.nr() == nr
//# end
//# fn src/ifd/get.rs get_offset_tag_for_parent_ifd -> r
//# spec
    ensures match parent_of(self.ty()) { None => r is None, Some(g) => r matches Some((pg, t)) && pg == g && is_offset_tag(t, self.ty()) }
//# end
//# fn src/ifd/mod.rs sort_tags
//# spec
    ensures final(self).ty() == old(self).ty(), final(self).nr() == old(self).nr(),
        ascending(final(self).tags@), final(self).tags@.len() == old(self).tags@.len(), final(self).tags@.to_multiset() == old(self).tags@.to_multiset(),
        forall|h: u16| #[trigger] at_hex(final(self).tags@, h) == at_hex(old(self).tags@, h)
//# bottom
    proof { lemma_sorted(old(self).tags@, self.tags@, |tag: ExifTag| tag.hex()); }
//# end
//# fn src/ifd/set.rs set_tag
//# spec
    ensures final(self).ty() == old(self).ty(), final(self).nr() == old(self).nr(),
        set_ok(old(self).tags@, final(self).tags@, input_tag)
//# begin
    let ghost t0 = self.tags@; let ghost t = input_tag;
//# bottom
    proof { lemma_set(t0, self.tags@, t); }
//# end
//# fn src/ifd/set.rs remove_tag
//# spec
    ensures final(self).ty() == old(self).ty(), final(self).nr() == old(self).nr(),
        remove_ok(old(self).tags@, final(self).tags@, tag_hex)
//# begin
    let ghost t0 = self.tags@;
//# bottom
    proof { lemma_remove(t0, self.tags@, tag_hex); }
//# end
}
// P15: exactly one entry for the set number, the given one; every other number keeps its entries; sorted
pub open spec fn set_ok(a: Seq<ExifTag>, b: Seq<ExifTag>, t: ExifTag) -> bool {
    &&& at_hex(b, t.hex()) == seq![t]
    &&& forall|h: u16| h != t.hex() ==> #[trigger] at_hex(b, h) == at_hex(a, h)
    &&& ascending(b)
    &&& (strictly(a) ==> strictly(b))
}
pub open spec fn remove_ok(a: Seq<ExifTag>, b: Seq<ExifTag>, h0: u16) -> bool {
    &&& at_hex(b, h0) == Seq::<ExifTag>::empty()
    &&& forall|h: u16| h != h0 ==> #[trigger] at_hex(b, h) == at_hex(a, h)
    &&& ascending(b)
    &&& (strictly(a) ==> strictly(b))
}
pub open spec fn parent_of(g: ExifTagGroup) -> Option<ExifTagGroup> {
    match g { ExifTagGroup::GENERIC => None, ExifTagGroup::EXIF => Some(ExifTagGroup::GENERIC), ExifTagGroup::GPS => Some(ExifTagGroup::GENERIC), ExifTagGroup::INTEROP => Some(ExifTagGroup::EXIF) }
}
pub open spec fn is_offset_tag(t: ExifTag, g: ExifTagGroup) -> bool {
    match g { ExifTagGroup::EXIF => t matches ExifTag::ExifOffset(v) && v@.len() == 0, ExifTagGroup::GPS => t matches ExifTag::GPSInfo(v) && v@.len() == 0,
        ExifTagGroup::INTEROP => t matches ExifTag::InteropOffset(v) && v@.len() == 0, _ => false }
}
pub proof fn lemma_sorted(a: Seq<ExifTag>, b: Seq<ExifTag>, p: spec_fn(ExifTag) -> u16)
    requires sorted_by(b, p), forall|k: u16| #[trigger] keys_of(b, p, k) == keys_of(a, p, k), forall|x: ExifTag| #[trigger] p(x) == x.hex()
    ensures ascending(b), forall|h: u16| #[trigger] at_hex(b, h) == at_hex(a, h)
{
    assert(p =~= hexes());
    assert forall|h: u16| #[trigger] at_hex(b, h) == at_hex(a, h) by {
        assert(keys_of(b, p, h) == keys_of(a, p, h));
        assert((|x: ExifTag| p(x) == h) =~= (|t: ExifTag| t.hex() == h));
    }
}
// strictly ascending = ascending and no number twice
pub proof fn lemma_strict(s: Seq<ExifTag>)
    ensures strictly(s) <==> ascending(s) && forall|h: u16| #[trigger] at_hex(s, h).len() <= 1
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        let l = s.last();
        lemma_strict(d);
        assert forall|h: u16| #[trigger] at_hex(s, h) == (if l.hex() == h { at_hex(d, h).push(l) } else { at_hex(d, h) }) by {}
        if strictly(s) {
            assert(strictly(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).hex() < (#[trigger] d[j]).hex() by { assert(d[i] == s[i] && d[j] == s[j]); } }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] hexes()(s[i]) <= #[trigger] hexes()(s[j]) by { assert(s[i].hex() < s[j].hex()); }
            assert forall|i: int| 0 <= i < d.len() implies !(|t: ExifTag| t.hex() == l.hex())(#[trigger] d[i]) by { assert(s[i] == d[i]); assert(s[s.len() - 1] == l); }
            lemma_filter_none(d, |t: ExifTag| t.hex() == l.hex());
            assert(at_hex(d, l.hex()).len() == 0);
            assert forall|h: u16| #[trigger] at_hex(s, h).len() <= 1 by { assert(at_hex(d, h).len() <= 1); }
        }
        if ascending(s) && forall|h: u16| #[trigger] at_hex(s, h).len() <= 1 {
            assert(ascending(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] hexes()(d[i]) <= #[trigger] hexes()(d[j]) by { assert(d[i] == s[i] && d[j] == s[j]); assert(hexes()(s[i]) <= hexes()(s[j])); } }
            assert forall|h: u16| #[trigger] at_hex(d, h).len() <= 1 by { assert(at_hex(s, h).len() <= 1); }
            assert(strictly(d));
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).hex() < (#[trigger] s[j]).hex() by {
                if j < d.len() { assert(d[i] == s[i] && d[j] == s[j]); }
                else {
                    assert(s[j] == l && d[i] == s[i]);
                    assert(hexes()(s[i]) <= hexes()(s[j]));
                    if s[i].hex() == l.hex() {
                        lemma_filter_elems(d, |t: ExifTag| t.hex() == l.hex());
                        assert((|t: ExifTag| t.hex() == l.hex())(d[i]));
                        assert(at_hex(d, l.hex()).contains(d[i]));
                        assert(at_hex(s, l.hex()).len() <= 1);
                    }
                }
            }
        }
    }
}
pub proof fn lemma_hex_add(a: Seq<ExifTag>, t: ExifTag, h: u16)
    ensures at_hex(a.push(t), h) == (if t.hex() == h { at_hex(a, h).push(t) } else { at_hex(a, h) })
{ lemma_filter_push(a, t, |t: ExifTag| t.hex() == h); }
// entries with a number after dropping those with number h0
pub proof fn lemma_hex_drop(a: Seq<ExifTag>, h0: u16, h: u16)
    ensures at_hex(a.filter(|t: ExifTag| t.hex() != h0), h) == (if h == h0 { Seq::<ExifTag>::empty() } else { at_hex(a, h) })
{
    let p = |t: ExifTag| t.hex() != h0;
    let q = |t: ExifTag| t.hex() == h;
    lemma_filter_filter(a, p, q);
    let pq = |x: ExifTag| p(x) && q(x);
    if h == h0 { assert forall|i: int| 0 <= i < a.len() implies !pq(#[trigger] a[i]) by {} lemma_filter_none(a, pq); }
    else { assert forall|i: int| 0 <= i < a.len() implies pq(#[trigger] a[i]) == q(a[i]) by {} lemma_filter_same(a, pq, q); }
}
pub proof fn lemma_set(a: Seq<ExifTag>, b: Seq<ExifTag>, t: ExifTag)
    requires ascending(b), forall|h: u16| #[trigger] at_hex(b, h) == at_hex(a.filter(|tag: ExifTag| tag.hex() != t.hex()).push(t), h)
    ensures set_ok(a, b, t)
{
    let f = a.filter(|tag: ExifTag| tag.hex() != t.hex());
    assert((|tag: ExifTag| tag.hex() != t.hex()) =~= (|x: ExifTag| x.hex() != t.hex()));
    assert forall|h: u16| #[trigger] at_hex(b, h) == (if h == t.hex() { seq![t] } else { at_hex(a, h) }) by {
        lemma_hex_add(f, t, h); lemma_hex_drop(a, t.hex(), h);
        assert(Seq::<ExifTag>::empty().push(t) =~= seq![t]);
    }
    lemma_strict(a); lemma_strict(b);
    if strictly(a) { assert forall|h: u16| #[trigger] at_hex(b, h).len() <= 1 by { assert(at_hex(a, h).len() <= 1); } }
}
pub proof fn lemma_remove(a: Seq<ExifTag>, b: Seq<ExifTag>, h0: u16)
    requires ascending(b), forall|h: u16| #[trigger] at_hex(b, h) == at_hex(a.filter(|tag: ExifTag| tag.hex() != h0), h)
    ensures remove_ok(a, b, h0)
{
    assert((|tag: ExifTag| tag.hex() != h0) =~= (|x: ExifTag| x.hex() != h0));
    assert forall|h: u16| #[trigger] at_hex(b, h) == (if h == h0 { Seq::<ExifTag>::empty() } else { at_hex(a, h) }) by { lemma_hex_drop(a, h0, h); }
    lemma_strict(a); lemma_strict(b);
    if strictly(a) { assert forall|h: u16| #[trigger] at_hex(b, h).len() <= 1 by { assert(at_hex(a, h).len() <= 1); } }
}
} // verus!
