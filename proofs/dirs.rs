//# rule derive(PartialOrd) comparison of directory kinds /(\w+\.get_ifd_type\(\))\s*<\s*(\w+\.get_ifd_type\(\))/ => /vx_lt(\1, \2)/
verus! {
// ---- P16: the directories of a metadata value
pub open spec fn dlt(a: Dir, b: Dir) -> bool { a.nr() < b.nr() || (a.nr() == b.nr() && rank(a.ty()) < rank(b.ty())) }
pub open spec fn same_id(a: Dir, b: Dir) -> bool { a.nr() == b.nr() && a.ty() == b.ty() }
pub open spec fn ordered(s: Seq<Dir>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> dlt(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn unique(s: Seq<Dir>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !same_id(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn is_dir(d: Dir, g: ExifTagGroup, n: u32) -> bool { d.nr() == n && d.ty() == g }
pub open spec fn hasdir(s: Seq<Dir>, g: ExifTagGroup, n: u32) -> bool { exists|i: int| 0 <= i < s.len() && is_dir(#[trigger] s[i], g, n) }
pub open spec fn parents(s: Seq<Dir>) -> bool { forall|i: int| 0 <= i < s.len() ==> (parent_of((#[trigger] s[i]).ty()) matches Some(g) ==> hasdir(s, g, s[i].nr())) }
pub open spec fn all_ascending(s: Seq<Dir>) -> bool { forall|i: int| 0 <= i < s.len() ==> ascending((#[trigger] s[i]).tags@) }
pub open spec fn wf(s: Seq<Dir>) -> bool { ordered(s) && parents(s) && all_ascending(s) }
// what is stored: for a kind and number, the entries of that directory (none if there is no such directory)
pub open spec fn tags_at(s: Seq<Dir>, g: ExifTagGroup, n: u32) -> Seq<ExifTag> {
    if hasdir(s, g, n) { s[choose|i: int| 0 <= i < s.len() && is_dir(#[trigger] s[i], g, n)].tags@ } else { Seq::empty() }
}
pub proof fn lemma_tags_at(s: Seq<Dir>, i: int)
    requires unique(s), 0 <= i < s.len()
    ensures hasdir(s, s[i].ty(), s[i].nr()), tags_at(s, s[i].ty(), s[i].nr()) == s[i].tags@
{
    assert(is_dir(s[i], s[i].ty(), s[i].nr()));
    let k = choose|k: int| 0 <= k < s.len() && is_dir(#[trigger] s[k], s[i].ty(), s[i].nr());
    if k < i { assert(same_id(s[k], s[i])); } else if i < k { assert(same_id(s[i], s[k])); }
}
pub proof fn lemma_ordered_unique(s: Seq<Dir>) requires ordered(s) ensures unique(s) {
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies !same_id(#[trigger] s[i], #[trigger] s[j]) by { assert(dlt(s[i], s[j])); }
}
pub open spec fn depth(g: ExifTagGroup) -> nat { match g { ExifTagGroup::GENERIC => 0, ExifTagGroup::EXIF => 1, ExifTagGroup::GPS => 1, ExifTagGroup::INTEROP => 2 } }
// two orders of the same directories
pub proof fn lemma_same_dirs(a: Seq<Dir>, b: Seq<Dir>)
    requires unique(a), ordered(b), a.to_multiset() == b.to_multiset()
    ensures unique(b), forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(a, g, n),
        forall|g: ExifTagGroup, n: u32| #[trigger] tags_at(b, g, n) == tags_at(a, g, n),
        parents(a) ==> parents(b), all_ascending(a) ==> all_ascending(b)
{
    lemma_ordered_unique(b);
    assert forall|x: Dir| #[trigger] a.contains(x) <==> b.contains(x) by {
        a.to_multiset_ensures(); b.to_multiset_ensures();
        assert(a.contains(x) <==> a.to_multiset().count(x) > 0);
        assert(b.contains(x) <==> b.to_multiset().count(x) > 0);
    }
    assert forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(a, g, n) by {
        if hasdir(b, g, n) { let i = choose|i: int| 0 <= i < b.len() && is_dir(#[trigger] b[i], g, n); assert(b.contains(b[i])); assert(a.contains(b[i])); }
        if hasdir(a, g, n) { let i = choose|i: int| 0 <= i < a.len() && is_dir(#[trigger] a[i], g, n); assert(a.contains(a[i])); assert(b.contains(a[i])); }
    }
    assert forall|g: ExifTagGroup, n: u32| #[trigger] tags_at(b, g, n) == tags_at(a, g, n) by {
        assert(hasdir(b, g, n) <==> hasdir(a, g, n));
        if hasdir(a, g, n) {
            let i = choose|i: int| 0 <= i < a.len() && is_dir(#[trigger] a[i], g, n);
            assert(a.contains(a[i]));
            let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
            assert(b.contains(a[i]));
            lemma_tags_at(a, i); lemma_tags_at(b, j);
        }
    }
    if parents(a) { assert forall|i: int| 0 <= i < b.len() implies (parent_of((#[trigger] b[i]).ty()) matches Some(g) ==> hasdir(b, g, b[i].nr())) by {
        assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(parent_of(a[j].ty()) matches Some(g) ==> hasdir(a, g, a[j].nr())); } }
    if all_ascending(a) { assert forall|i: int| 0 <= i < b.len() implies ascending((#[trigger] b[i]).tags@) by {
        assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(ascending(a[j].tags@)); } }
}
pub proof fn lemma_push_unique(s: Seq<Dir>, d: Dir, g: ExifTagGroup, n: u32)
    requires unique(s), !hasdir(s, g, n), is_dir(d, g, n)
    ensures unique(s.push(d))
{
    let t = s.push(d);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies !same_id(#[trigger] t[i], #[trigger] t[j]) by {
        assert(t[i] == s[i]);
        if j < s.len() { assert(t[j] == s[j]); } else { if same_id(t[i], t[j]) { assert(is_dir(s[i], g, n)); } }
    }
}
pub trait VxSortDirs: View<V = Seq<Dir>> {
    
    // std's sort (assumed); elements are only compared with other elements
    fn vx_sort_by<F: Fn(&Dir, &Dir) -> Ordering>(&mut self, f: F)
        requires unique(old(self)@), forall|a: &Dir, b: &Dir| !same_id(*a, *b) ==> #[trigger] f.requires((a, b)),
            forall|a: &Dir, b: &Dir, o: Ordering| #[trigger] f.ensures((a, b), o) ==> (o == Ordering::Less <==> dlt(*a, *b)) && (o == Ordering::Greater <==> dlt(*b, *a))
        ensures ordered(final(self)@), final(self)@.to_multiset() == old(self)@.to_multiset();
}
impl VxSortDirs for Vec<Dir> {
    #[verifier::external_body]
    fn vx_sort_by<F: Fn(&Dir, &Dir) -> Ordering>(&mut self, f: F) { self.sort_by(f) }
}
impl Metadata {
    pub open spec fn dirs(&self) -> Seq<Dir> { self.image_file_directories@ }
//# fn src/metadata/mod.rs sort_data
//# spec
    requires unique(old(self).dirs())
    ensures ordered(final(self).dirs()), final(self).dirs().to_multiset() == old(self).dirs().to_multiset(), final(self).endian == old(self).endian
//# sub /VX_SORT_SPEC/ => /requires !same_id(*a, *b) ensures vx_o == Ordering::Less <==> dlt(*a, *b), vx_o == Ordering::Greater <==> dlt(*b, *a)/
//# sub /, VX_SORT_GHOST/ => //
//# end
}
}
