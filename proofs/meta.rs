//# include prelude.rs
//# include vecs.rs
//# rule std::cmp::Ordering path /std::cmp::Ordering/ => /Ordering/
//# include meta_types.rs
//# include dirs.rs
verus! {
// ---- P16: the directories of a metadata value ----------------------------------------------------------------------
pub open spec fn ancestor(g: ExifTagGroup, of: ExifTagGroup) -> bool
    decreases depth(of)
{ g == of || (parent_of(of) matches Some(p) && ancestor(g, p)) }
// directories that were there keep their entries, the wanted one and its missing ancestors are there now, empty if new
pub open spec fn created(a: Seq<Dir>, b: Seq<Dir>, g0: ExifTagGroup, n0: u32) -> bool {
    &&& wf(b)
    &&& forall|g: ExifTagGroup, n: u32| #[trigger] tags_at(b, g, n) == tags_at(a, g, n)
    &&& forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(a, g, n) || (n == n0 && ancestor(g, g0))
}
pub open spec fn removed(a: Seq<Dir>, b: Seq<Dir>, g0: ExifTagGroup, h: u16) -> bool {
    &&& wf(b)
    &&& forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(a, g, n)
    &&& forall|g: ExifTagGroup, n: u32| g != g0 ==> #[trigger] tags_at(b, g, n) == tags_at(a, g, n)
    &&& forall|n: u32| remove_ok(tags_at(a, g0, n), #[trigger] tags_at(b, g0, n), h)
}
// s0: before; s1: with the parent; s2: with the new, empty directory at the end; s3: sorted
pub proof fn lemma_created(s0: Seq<Dir>, s1: Seq<Dir>, s2: Seq<Dir>, s3: Seq<Dir>, g0: ExifTagGroup, n0: u32)
    requires wf(s0), wf(s1), !hasdir(s0, g0, n0), !hasdir(s1, g0, n0), s2.len() == s1.len() + 1, s2.drop_last() == s1, is_dir(s2.last(), g0, n0), s2.last().tags@.len() == 0,
        match parent_of(g0) { None => s1 == s0, Some(p) => created(s0, s1, p, n0) }, unique(s2), ordered(s3), s2.to_multiset() == s3.to_multiset(),
    ensures created(s0, s3, g0, n0)
{
    lemma_ordered_unique(s1);
    let l = s2.len() - 1;
    assert forall|i: int| 0 <= i < s1.len() implies s1[i] == #[trigger] s2[i] by { assert(s2.drop_last()[i] == s2[i]); }
    assert forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(s2, g, n) <==> hasdir(s1, g, n) || (g == g0 && n == n0) by {
        if hasdir(s1, g, n) { let i = choose|i: int| 0 <= i < s1.len() && is_dir(#[trigger] s1[i], g, n); assert(is_dir(s2[i], g, n)); }
        if hasdir(s2, g, n) { let i = choose|i: int| 0 <= i < s2.len() && is_dir(#[trigger] s2[i], g, n); if i < l { assert(is_dir(s1[i], g, n)); } }
        if g == g0 && n == n0 { assert(is_dir(s2[l], g, n)); }
    }
    assert forall|g: ExifTagGroup, n: u32| #[trigger] tags_at(s2, g, n) == tags_at(s1, g, n) by {
        assert(hasdir(s2, g, n) <==> hasdir(s1, g, n) || (g == g0 && n == n0));
        if hasdir(s1, g, n) { let i = choose|i: int| 0 <= i < s1.len() && is_dir(#[trigger] s1[i], g, n); lemma_tags_at(s1, i); assert(s2[i] == s1[i]); lemma_tags_at(s2, i); }
        else if g == g0 && n == n0 { lemma_tags_at(s2, l); assert(s2[l].tags@ =~= Seq::<ExifTag>::empty()); }
    }
    assert(parents(s2)) by {
        assert forall|i: int| 0 <= i < s2.len() implies (parent_of((#[trigger] s2[i]).ty()) matches Some(g) ==> hasdir(s2, g, s2[i].nr())) by {
            if i < l { assert(s1[i] == s2[i]); assert(parent_of(s1[i].ty()) matches Some(g) ==> hasdir(s1, g, s1[i].nr()));
                match parent_of(s1[i].ty()) { Some(g) => { assert(hasdir(s2, g, s1[i].nr())); }, None => {} } }
            else { match parent_of(g0) { Some(p) => { assert(ancestor(p, p)); assert(hasdir(s1, p, n0)); assert(hasdir(s2, p, n0)); }, None => {} } }
        }
    }
    assert(all_ascending(s2)) by {
        assert forall|i: int| 0 <= i < s2.len() implies ascending((#[trigger] s2[i]).tags@) by { if i < l { assert(s1[i] == s2[i]); } }
    }
    lemma_same_dirs(s2, s3);
    assert forall|g: ExifTagGroup, n: u32| #[trigger] tags_at(s3, g, n) == tags_at(s0, g, n) by {
        assert(tags_at(s3, g, n) == tags_at(s2, g, n)); assert(tags_at(s2, g, n) == tags_at(s1, g, n)); assert(tags_at(s1, g, n) == tags_at(s0, g, n));
    }
    assert forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(s3, g, n) <==> hasdir(s0, g, n) || (n == n0 && ancestor(g, g0)) by {
        assert(hasdir(s3, g, n) <==> hasdir(s2, g, n)); assert(hasdir(s2, g, n) <==> hasdir(s1, g, n) || (g == g0 && n == n0));
        assert(match parent_of(g0) { None => true, Some(p) => hasdir(s1, g, n) <==> hasdir(s0, g, n) || (n == n0 && ancestor(g, p)) });
        reveal_with_fuel(ancestor, 4);
    }
}
// changing the entries of one directory
pub proof fn lemma_update(mid: Seq<Dir>, i: int, d: Dir)
    requires wf(mid), 0 <= i < mid.len(), same_id(mid[i], d), ascending(d.tags@)
    ensures ({ let b = mid.update(i, d); wf(b) && tags_at(b, d.ty(), d.nr()) == d.tags@ && hasdir(b, d.ty(), d.nr())
        && (forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(mid, g, n))
        && (forall|g: ExifTagGroup, n: u32| !is_dir(d, g, n) ==> #[trigger] tags_at(b, g, n) == tags_at(mid, g, n)) })
{
    let b = mid.update(i, d);
    assert forall|p: int, q: int| 0 <= p < q < b.len() implies dlt(#[trigger] b[p], #[trigger] b[q]) by { assert(dlt(mid[p], mid[q])); }
    lemma_ordered_unique(mid); lemma_ordered_unique(b);
    assert forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(mid, g, n) by {
        if hasdir(mid, g, n) { let k = choose|k: int| 0 <= k < mid.len() && is_dir(#[trigger] mid[k], g, n); assert(is_dir(b[k], g, n)); }
        if hasdir(b, g, n) { let k = choose|k: int| 0 <= k < b.len() && is_dir(#[trigger] b[k], g, n); assert(is_dir(mid[k], g, n)); }
    }
    assert forall|g: ExifTagGroup, n: u32| !is_dir(d, g, n) implies #[trigger] tags_at(b, g, n) == tags_at(mid, g, n) by {
        assert(hasdir(b, g, n) <==> hasdir(mid, g, n));
        if hasdir(mid, g, n) { let k = choose|k: int| 0 <= k < mid.len() && is_dir(#[trigger] mid[k], g, n); assert(b[k] == mid[k]); lemma_tags_at(mid, k); lemma_tags_at(b, k); }
    }
    assert forall|k: int| 0 <= k < b.len() implies (parent_of((#[trigger] b[k]).ty()) matches Some(g) ==> hasdir(b, g, b[k].nr())) by {
        assert(parent_of(mid[k].ty()) matches Some(g) ==> hasdir(mid, g, mid[k].nr()));
        match parent_of(mid[k].ty()) { Some(g) => { assert(hasdir(b, g, mid[k].nr()) <==> hasdir(mid, g, mid[k].nr())); }, None => {} }
    }
    assert forall|k: int| 0 <= k < b.len() implies ascending((#[trigger] b[k]).tags@) by { assert(ascending(mid[k].tags@)); }
    lemma_tags_at(b, i);
}
// a directory, created if need be, was lent out as d0 and came back as d
pub open spec fn borrowed(a: Seq<Dir>, mid: Seq<Dir>, i: int, d0: Dir, d: Dir, b: Seq<Dir>, g: ExifTagGroup, n: u32) -> bool {
    created(a, mid, g, n) && 0 <= i < mid.len() && d0 == mid[i] && is_dir(d0, g, n) && b == mid.update(i, d)
}
pub proof fn lemma_set_one(a: Seq<Dir>, b: Seq<Dir>, t: ExifTag)
    requires wf(a), exists|mid: Seq<Dir>, i: int, d0: Dir, d: Dir| #[trigger] borrowed(a, mid, i, d0, d, b, t.grp(), 0) && same_id(d0, d) && set_ok(d0.tags@, d.tags@, t)
    ensures wf(b), set_ok(tags_at(a, t.grp(), 0), tags_at(b, t.grp(), 0), t), hasdir(b, t.grp(), 0),
        forall|g: ExifTagGroup, n: u32| !(g == t.grp() && n == 0) ==> #[trigger] tags_at(b, g, n) == tags_at(a, g, n),
        forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(a, g, n) || (n == 0 && ancestor(g, t.grp()))
{
    let (mid, i, d0, d) = choose|mid: Seq<Dir>, i: int, d0: Dir, d: Dir| #[trigger] borrowed(a, mid, i, d0, d, b, t.grp(), 0) && same_id(d0, d) && set_ok(d0.tags@, d.tags@, t);
    lemma_update(mid, i, d);
    lemma_ordered_unique(mid);
    lemma_tags_at(mid, i);
    assert forall|g: ExifTagGroup, n: u32| !(g == t.grp() && n == 0) implies #[trigger] tags_at(b, g, n) == tags_at(a, g, n) by { assert(tags_at(mid, g, n) == tags_at(a, g, n)); }
    assert forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(b, g, n) <==> hasdir(a, g, n) || (n == 0 && ancestor(g, t.grp())) by { assert(hasdir(mid, g, n) <==> hasdir(a, g, n) || (n == 0 && ancestor(g, t.grp()))); }
    assert(tags_at(mid, t.grp(), 0) == tags_at(a, t.grp(), 0));
}
// numbers below n done
pub open spec fn removing(a: Seq<Dir>, b: Seq<Dir>, g0: ExifTagGroup, h: u16, n: int) -> bool {
    &&& wf(b)
    &&& forall|g: ExifTagGroup, k: u32| #[trigger] hasdir(b, g, k) <==> hasdir(a, g, k)
    &&& forall|g: ExifTagGroup, k: u32| g != g0 || k >= n ==> #[trigger] tags_at(b, g, k) == tags_at(a, g, k)
    &&& forall|k: u32| k < n ==> remove_ok(tags_at(a, g0, k), #[trigger] tags_at(b, g0, k), h)
}
pub proof fn lemma_remove_empty(h: u16) ensures remove_ok(Seq::<ExifTag>::empty(), Seq::<ExifTag>::empty(), h) {
    lemma_filter_none(Seq::<ExifTag>::empty(), |t: ExifTag| t.hex() == h);
}
pub proof fn lemma_remove_step(a: Seq<Dir>, now: Seq<Dir>, b: Seq<Dir>, g0: ExifTagGroup, h: u16, n: u32)
    requires removing(a, now, g0, h, n as int), hasdir(now, g0, n), exists|mid: Seq<Dir>, i: int, d0: Dir, d: Dir| #[trigger] borrowed(now, mid, i, d0, d, b, g0, n) && same_id(d0, d) && remove_ok(d0.tags@, d.tags@, h)
    ensures removing(a, b, g0, h, n + 1)
{
    let (mid, i, d0, d) = choose|mid: Seq<Dir>, i: int, d0: Dir, d: Dir| #[trigger] borrowed(now, mid, i, d0, d, b, g0, n) && same_id(d0, d) && remove_ok(d0.tags@, d.tags@, h);
    lemma_update(mid, i, d);
    lemma_ordered_unique(mid); lemma_ordered_unique(b); lemma_ordered_unique(now);
    lemma_tags_at(mid, i);
    assert forall|g: ExifTagGroup| n >= 0 && #[trigger] ancestor(g, g0) implies hasdir(now, g, n) by { lemma_ancestors(now, g, g0, n); }
    assert forall|g: ExifTagGroup, k: u32| #[trigger] hasdir(b, g, k) <==> hasdir(a, g, k) by { assert(hasdir(mid, g, k) <==> hasdir(now, g, k) || (k == n && ancestor(g, g0))); assert(hasdir(b, g, k) <==> hasdir(mid, g, k)); }
    assert forall|g: ExifTagGroup, k: u32| g != g0 || k >= n + 1 implies #[trigger] tags_at(b, g, k) == tags_at(a, g, k) by { assert(tags_at(mid, g, k) == tags_at(now, g, k)); assert(!is_dir(d, g, k)); }
    assert forall|k: u32| k < n + 1 implies remove_ok(tags_at(a, g0, k), #[trigger] tags_at(b, g0, k), h) by {
        assert(tags_at(mid, g0, k) == tags_at(now, g0, k));
        if k == n { assert(tags_at(now, g0, n) == tags_at(a, g0, n)); } else { assert(!is_dir(d, g0, k)); assert(remove_ok(tags_at(a, g0, k), tags_at(now, g0, k), h)); }
    }
}
pub proof fn lemma_ancestors(s: Seq<Dir>, g: ExifTagGroup, g0: ExifTagGroup, n: u32)
    requires parents(s), hasdir(s, g0, n), ancestor(g, g0)
    ensures hasdir(s, g, n)
    decreases depth(g0)
{
    if g != g0 {
        let i = choose|i: int| 0 <= i < s.len() && is_dir(#[trigger] s[i], g0, n);
        match parent_of(g0) { Some(p) => { assert(parent_of(s[i].ty()) matches Some(q) ==> hasdir(s, q, s[i].nr())); lemma_ancestors(s, g, p, n); }, None => {} }
    }
}
pub proof fn lemma_created_same(a: Seq<Dir>, g0: ExifTagGroup, n0: u32)
    requires wf(a), hasdir(a, g0, n0)
    ensures created(a, a, g0, n0)
{
    assert forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(a, g, n) <==> hasdir(a, g, n) || (n == n0 && ancestor(g, g0)) by { if n == n0 && ancestor(g, g0) { lemma_ancestors(a, g, g0, n0); } }
}
pub proof fn lemma_remove_skip(a: Seq<Dir>, now: Seq<Dir>, g0: ExifTagGroup, h: u16, n: u32)
    requires removing(a, now, g0, h, n as int), !hasdir(now, g0, n)
    ensures removing(a, now, g0, h, n + 1)
{
    lemma_remove_empty(h);
    assert forall|k: u32| k < n + 1 implies remove_ok(tags_at(a, g0, k), #[trigger] tags_at(now, g0, k), h) by {
        if k == n { assert(hasdir(now, g0, k) <==> hasdir(a, g0, k)); assert(tags_at(a, g0, n) =~= Seq::<ExifTag>::empty()); assert(tags_at(now, g0, n) =~= Seq::<ExifTag>::empty()); }
    }
}
pub proof fn lemma_remove_done(a: Seq<Dir>, b: Seq<Dir>, g0: ExifTagGroup, h: u16, m: u32)
    requires wf(a), removing(a, b, g0, h, m + 1), forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).ty() == ExifTagGroup::GENERIC ==> a[i].nr() <= m
    ensures removed(a, b, g0, h)
{
    lemma_remove_empty(h);
    assert forall|n: u32| remove_ok(tags_at(a, g0, n), #[trigger] tags_at(b, g0, n), h) by {
        if n > m {
            if hasdir(a, g0, n) { reveal_with_fuel(ancestor, 4); assert(ancestor(ExifTagGroup::GENERIC, g0)); lemma_ancestors(a, ExifTagGroup::GENERIC, g0, n);
                let i = choose|i: int| 0 <= i < a.len() && is_dir(#[trigger] a[i], ExifTagGroup::GENERIC, n); assert(a[i].nr() <= m); }
            assert(hasdir(b, g0, n) <==> hasdir(a, g0, n));
            assert(tags_at(a, g0, n) =~= Seq::<ExifTag>::empty()); assert(tags_at(b, g0, n) =~= Seq::<ExifTag>::empty());
        }
    }
}
impl Metadata {
//# fn src/metadata/mod.rs new -> r
//# spec
    ensures wf(r.dirs()), r.dirs().len() == 0
//# end
//# fn src/metadata/get.rs get_ifd -> r
//# spec
    ensures r matches Some(d) ==> is_dir(*d, group, generic_ifd_nr) && hasdir(self.dirs(), group, generic_ifd_nr) && exists|i: int| 0 <= i < self.dirs().len() && *d == #[trigger] self.dirs()[i],
        r is None ==> !hasdir(self.dirs(), group, generic_ifd_nr)
//# end
//# fn src/metadata/get.rs get_ifds -> r
//# spec
    ensures *r == self.image_file_directories
//# end
//# fn src/metadata/get.rs get_max_generic_ifd_number -> r
//# spec
    ensures forall|i: int| 0 <= i < self.dirs().len() && (#[trigger] self.dirs()[i]).ty() == ExifTagGroup::GENERIC ==> self.dirs()[i].nr() <= r
//# end
//# fn src/metadata/mod.rs create_ifd
//# spec
    requires wf(old(self).dirs())
    ensures created(old(self).dirs(), final(self).dirs(), ifd_type, generic_ifd_nr), final(self).endian == old(self).endian
    decreases depth(ifd_type)
//# begin
    let ghost s0 = self.dirs();
    proof { lemma_ordered_unique(s0); if hasdir(s0, ifd_type, generic_ifd_nr) { lemma_created_same(s0, ifd_type, generic_ifd_nr); } }
//# before /self\.image_file_directories\.push/
    let ghost s1 = self.dirs();
    proof { lemma_ordered_unique(s1); reveal_with_fuel(ancestor, 4); assert(hasdir(s1, ifd_type, generic_ifd_nr) ==> false); }
//# before /self\.sort_data/
    let ghost s2 = self.dirs();
    proof { lemma_push_unique(s1, new_ifd, ifd_type, generic_ifd_nr); }
//# bottom
    proof {
        assert(s2.drop_last() =~= s1);
        lemma_same_dirs(s2, self.dirs());
        lemma_created(s0, s1, s2, self.dirs(), ifd_type, generic_ifd_nr);
    }
//# end
//# fn src/metadata/get.rs get_ifd_mut -> r
//# spec
    requires wf(old(self).dirs())
    ensures final(self).endian == old(self).endian, exists|mid: Seq<Dir>, i: int| #![trigger mid[i]] borrowed(old(self).dirs(), mid, i, *r, *final(r), final(self).dirs(), group, generic_ifd_nr)
//# begin
    let ghost a = self.dirs();
    proof { lemma_ordered_unique(a); if hasdir(a, group, generic_ifd_nr) { lemma_created_same(a, group, generic_ifd_nr);
        let k = choose|k: int| 0 <= k < a.len() && is_dir(#[trigger] a[k], group, generic_ifd_nr); assert(self.image_file_directories@[k] == a[k]); } }
//# before /return/
    proof { let b = self.dirs(); assert(created(a, b, group, generic_ifd_nr)); assert(ancestor(group, group)); assert(hasdir(b, group, generic_ifd_nr));
        let k = choose|k: int| 0 <= k < b.len() && is_dir(#[trigger] b[k], group, generic_ifd_nr); assert(self.image_file_directories@[k] == b[k]); }
//# end
//# fn src/metadata/set.rs set_tag in Metadata
//# spec
    requires wf(old(self).dirs())
    ensures wf(final(self).dirs()), final(self).endian == old(self).endian,
        set_ok(tags_at(old(self).dirs(), input_tag.grp(), 0), tags_at(final(self).dirs(), input_tag.grp(), 0), input_tag),
        hasdir(final(self).dirs(), input_tag.grp(), 0),
        forall|g: ExifTagGroup, n: u32| !(g == input_tag.grp() && n == 0) ==> #[trigger] tags_at(final(self).dirs(), g, n) == tags_at(old(self).dirs(), g, n),
        forall|g: ExifTagGroup, n: u32| #[trigger] hasdir(final(self).dirs(), g, n) <==> hasdir(old(self).dirs(), g, n) || (n == 0 && ancestor(g, input_tag.grp()))
//# begin
    let ghost t = input_tag;
//# bottom
    proof { lemma_set_one(old(self).dirs(), self.dirs(), t); }
//# end
//# fn src/metadata/set.rs remove_tag in Metadata -> r
//# spec
    requires wf(old(self).dirs())
    ensures removed(old(self).dirs(), final(self).dirs(), remove_me.grp(), remove_me.hex()), final(self).endian == old(self).endian
//# end
//# fn src/metadata/set.rs remove_tag_by_hex_group -> r
//# spec
    requires wf(old(self).dirs())
    ensures removed(old(self).dirs(), final(self).dirs(), tag_group, tag_hex), final(self).endian == old(self).endian
//# begin
    let ghost a = self.dirs();
//# loop 0
        invariant wf(a), wf(self.dirs()), self.endian == old(self).endian, a == old(self).dirs(), vx_n0 <= vx_h0, removed_count <= vx_n0 + (if vx_g0 { 0int } else { 1 }),
            forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).ty() == ExifTagGroup::GENERIC ==> a[i].nr() <= vx_h0,
            !vx_g0 ==> vx_n0 == vx_h0, removing(a, self.dirs(), tag_group, tag_hex, vx_n0 + (if vx_g0 { 0int } else { 1 }))
        decreases vx_h0 - vx_n0 + (if vx_g0 { 1int } else { 0 })
//# loop 0 begin
            let ghost now = self.dirs();
//# loop 0 end
            proof {
                if hasdir(now, tag_group, ifd_number) { lemma_remove_step(a, now, self.dirs(), tag_group, tag_hex, ifd_number); }
                else { lemma_remove_skip(a, now, tag_group, tag_hex, ifd_number); }
            }
//# loop 0 after
    proof { lemma_remove_done(a, self.dirs(), tag_group, tag_hex, vx_h0); }
//# end
}
//# item src/metadata/iterator.rs struct MetadataIterator s/([\{,]\s*)(\w+:)/\1pub \2/
//# item src/metadata/get.rs struct GetTagIterator s/([\{,]\s*)(\w+:)/\1pub \2/
// P17: the entries from directory i, entry j on, in directory order
pub open spec fn rest(s: Seq<Dir>, i: int, j: int) -> Seq<ExifTag>
    decreases s.len() - i, (if 0 <= i < s.len() { s[i].tags@.len() - j } else { 0 })
{
    if !(0 <= i < s.len()) || j < 0 { Seq::empty() }
    else if j < s[i].tags@.len() { seq![s[i].tags@[j]] + rest(s, i, j + 1) }
    else { rest(s, i + 1, 0) }
}
pub open spec fn wanted(h: u16, g: Option<ExifTagGroup>, d: Dir, t: ExifTag) -> bool { t.hex() == h && (g matches Some(x) ==> d.ty() == x) }
pub open spec fn rest_of(s: Seq<Dir>, i: int, j: int, h: u16, g: Option<ExifTagGroup>) -> Seq<ExifTag>
    decreases s.len() - i, (if 0 <= i < s.len() { s[i].tags@.len() - j } else { 0 })
{
    if !(0 <= i < s.len()) || j < 0 { Seq::empty() }
    else if j < s[i].tags@.len() { if wanted(h, g, s[i], s[i].tags@[j]) { seq![s[i].tags@[j]] + rest_of(s, i, j + 1, h, g) } else { rest_of(s, i, j + 1, h, g) } }
    else { rest_of(s, i + 1, 0, h, g) }
}
pub open spec fn one_step(before: Seq<ExifTag>, r: Option<&ExifTag>, after: Seq<ExifTag>) -> bool {
    match r { Some(t) => before == seq![*t] + after, None => before.len() == 0 && after.len() == 0 }
}
// all entries of the directories, one directory after the other
pub open spec fn all_tags(s: Seq<Dir>) -> Seq<ExifTag> decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].tags@ + all_tags(s.drop_first()) } }
pub open spec fn all_wanted(s: Seq<Dir>, h: u16, g: Option<ExifTagGroup>) -> Seq<ExifTag>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { (if g matches Some(x) && s[0].ty() != x { Seq::<ExifTag>::empty() } else { at_hex(s[0].tags@, h) }) + all_wanted(s.drop_first(), h, g) } }
pub proof fn lemma_rest_in_dir(s: Seq<Dir>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j <= s[i].tags@.len()
    ensures rest(s, i, j) == s[i].tags@.skip(j) + rest(s, i + 1, 0)
    decreases s[i].tags@.len() - j
{
    if j < s[i].tags@.len() { lemma_rest_in_dir(s, i, j + 1); assert(s[i].tags@.skip(j) =~= seq![s[i].tags@[j]] + s[i].tags@.skip(j + 1)); assert(rest(s, i, j) =~= s[i].tags@.skip(j) + rest(s, i + 1, 0)); }
    else { assert(s[i].tags@.skip(j) =~= Seq::<ExifTag>::empty()); assert(rest(s, i, j) =~= s[i].tags@.skip(j) + rest(s, i + 1, 0)); }
}
pub proof fn lemma_rest_all(s: Seq<Dir>, i: int)
    requires 0 <= i <= s.len()
    ensures rest(s, i, 0) == all_tags(s.skip(i))
    decreases s.len() - i
{
    if i < s.len() { lemma_rest_in_dir(s, i, 0); lemma_rest_all(s, i + 1); assert(s.skip(i).drop_first() =~= s.skip(i + 1)); assert(s[i].tags@.skip(0) =~= s[i].tags@); }
}
pub proof fn lemma_rest_of_in_dir(s: Seq<Dir>, i: int, j: int, h: u16, g: Option<ExifTagGroup>)
    requires 0 <= i < s.len(), 0 <= j <= s[i].tags@.len()
    ensures rest_of(s, i, j, h, g) == (if g matches Some(x) && s[i].ty() != x { Seq::<ExifTag>::empty() } else { at_hex(s[i].tags@.skip(j), h) }) + rest_of(s, i + 1, 0, h, g)
    decreases s[i].tags@.len() - j
{
    let t = s[i].tags@;
    let p = |t: ExifTag| t.hex() == h;
    if j < t.len() {
        lemma_rest_of_in_dir(s, i, j + 1, h, g);
        lemma_filter_add(seq![t[j]], t.skip(j + 1), p);
        lemma_filter_push(Seq::<ExifTag>::empty(), t[j], p); lemma_filter_none(Seq::<ExifTag>::empty(), p);
        assert(Seq::<ExifTag>::empty().push(t[j]) =~= seq![t[j]]);
        assert(seq![t[j]].filter(p) =~= (if p(t[j]) { seq![t[j]] } else { Seq::<ExifTag>::empty() }));
        assert(t.skip(j) =~= seq![t[j]] + t.skip(j + 1));
    } else { lemma_filter_none(t.skip(j), p); }
    assert(rest_of(s, i, j, h, g) =~= (if g matches Some(x) && s[i].ty() != x { Seq::<ExifTag>::empty() } else { at_hex(s[i].tags@.skip(j), h) }) + rest_of(s, i + 1, 0, h, g));
}
pub proof fn lemma_rest_of_all(s: Seq<Dir>, i: int, h: u16, g: Option<ExifTagGroup>)
    requires 0 <= i <= s.len()
    ensures rest_of(s, i, 0, h, g) == all_wanted(s.skip(i), h, g)
    decreases s.len() - i
{
    if i < s.len() { lemma_rest_of_in_dir(s, i, 0, h, g); lemma_rest_of_all(s, i + 1, h, g); assert(s.skip(i).drop_first() =~= s.skip(i + 1)); assert(s[i].tags@.skip(0) =~= s[i].tags@); }
}
pub proof fn lemma_skip_dir(s: Seq<Dir>, i: int, h: u16, g: Option<ExifTagGroup>)
    requires 0 <= i < s.len(), g matches Some(x) && s[i].ty() != x
    ensures rest_of(s, i, 0, h, g) == rest_of(s, i + 1, 0, h, g)
{ lemma_rest_of_in_dir(s, i, 0, h, g); assert(rest_of(s, i, 0, h, g) =~= rest_of(s, i + 1, 0, h, g)); }
impl<'a> MetadataIterator<'a> {
    pub open spec fn left(&self) -> Seq<ExifTag> { rest(self.metadata.dirs(), self.current_ifd_index as int, self.current_tag_index as int) }
//# fn src/metadata/iterator.rs next in MetadataIterator -> r
//# spec
    ensures one_step(old(self).left(), r, final(self).left())
//# sub /Self::Item/ => /&'a ExifTag/
//# loop 0
        invariant self.left() == old(self).left()
        decreases self.metadata.dirs().len() - self.current_ifd_index
//# end
}
impl<'a> GetTagIterator<'a> {
    pub open spec fn left(&self) -> Seq<ExifTag> { rest_of(self.metadata.dirs(), self.current_ifd_index as int, self.current_tag_index as int, self.tag_hex_value, self.group) }
    pub open spec fn inv(&self) -> bool { let d = self.metadata.dirs(); let i = self.current_ifd_index as int; self.current_tag_index == 0 || (i < d.len() && (self.group matches Some(x) ==> d[i].ty() == x)) }
//# fn src/metadata/get.rs next in GetTagIterator -> r
//# spec
    requires old(self).inv()
    ensures one_step(old(self).left(), r, final(self).left()), final(self).inv()
//# sub /Self::Item/ => /&'a ExifTag/
//# loop 0
        invariant self.left() == old(self).left(), self.inv(), self.group == old(self).group, self.tag_hex_value == old(self).tag_hex_value, self.metadata == old(self).metadata
        decreases self.metadata.dirs().len() - self.current_ifd_index, (if self.current_ifd_index < self.metadata.dirs().len() { self.metadata.dirs()[self.current_ifd_index as int].tags@.len() - self.current_tag_index } else { 0int })
//# before /self\.current_ifd_index \+= 1;\s*continue/
                    proof { lemma_skip_dir(self.metadata.dirs(), self.current_ifd_index as int, self.tag_hex_value, self.group); }
//# end
}
impl Metadata {
//# fn src/metadata/iterator.rs into_iter as vx_into_iter -> r
//# spec
    ensures r.left() == all_tags(self.dirs())
//# sub /\bself\s*\)/ => /&self)/
//# sub /Self::IntoIter/ => /MetadataIterator<'_>/
//# begin
    proof { lemma_rest_all(self.dirs(), 0); assert(self.dirs().skip(0) =~= self.dirs()); }
//# end
//# fn src/metadata/get.rs get_tag_by_hex -> r
//# spec
    ensures r.inv(), r.left() == all_wanted(self.dirs(), hex, group)
//# begin
    proof { lemma_rest_of_all(self.dirs(), 0, hex, group); assert(self.dirs().skip(0) =~= self.dirs()); }
//# end
//# fn src/metadata/get.rs get_tag in Metadata -> r
//# spec
    ensures r.inv(), r.left() == all_wanted(self.dirs(), tag.hex(), Some(tag.grp()))
//# end
}
// P18: what image structure and storage need (TIFF baseline and thumbnail tags)
pub open spec fn structural(t: ExifTag) -> bool {
    t matches ExifTag::StripOffsets(_, _) || t matches ExifTag::StripByteCounts(_) || t matches ExifTag::ThumbnailOffset(_, _) || t matches ExifTag::ThumbnailLength(_)
    || t matches ExifTag::ImageWidth(_) || t matches ExifTag::ImageHeight(_) || t matches ExifTag::BitsPerSample(_) || t matches ExifTag::Compression(_)
    || t matches ExifTag::PhotometricInterpretation(_) || t matches ExifTag::SamplesPerPixel(_) || t matches ExifTag::RowsPerStrip(_)
    || t matches ExifTag::XResolution(_) || t matches ExifTag::YResolution(_) || t matches ExifTag::ResolutionUnit(_) || t matches ExifTag::ColorMap(_)
}
pub open spec fn kept(s: Seq<ExifTag>) -> Seq<ExifTag> { s.filter(|t: ExifTag| structural(t)) }
// no number is used by a structural tag and another one
pub open spec fn clean(s: Seq<ExifTag>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && structural(#[trigger] s[i]) && (#[trigger] s[j]).hex() == s[i].hex() ==> structural(s[j]) }
pub open spec fn reduced_dir(a: Dir, b: Dir) -> bool {
    b.ty() == a.ty() && b.nr() == a.nr() && ascending(b.tags@)
    && (clean(a.tags@) ==> (forall|h: u16| #[trigger] at_hex(b.tags@, h) == at_hex(kept(a.tags@), h)) && (ascending(a.tags@) ==> b.tags@ == kept(a.tags@)))
}
pub open spec fn generic_dirs(s: Seq<Dir>) -> Seq<Dir> { s.filter(|d: Dir| d.ty() == ExifTagGroup::GENERIC) }
pub open spec fn reduced(a: Seq<Dir>, b: Seq<Dir>) -> bool {
    b.len() == generic_dirs(a).len() && forall|i: int| 0 <= i < b.len() ==> reduced_dir(generic_dirs(a)[i], #[trigger] b[i])
}
pub proof fn lemma_ordered_filter(s: Seq<Dir>, p: spec_fn(Dir) -> bool)
    requires ordered(s)
    ensures ordered(s.filter(p))
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last(); let f = s.filter(p);
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies dlt(#[trigger] d[i], #[trigger] d[j]) by { assert(d[i] == s[i] && d[j] == s[j]); }
        lemma_ordered_filter(d, p);
        lemma_filter_elems(d, p);
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies dlt(#[trigger] f[i], #[trigger] f[j]) by {
            if j < d.filter(p).len() { assert(f[i] == d.filter(p)[i] && f[j] == d.filter(p)[j]); }
            else { let x = d.filter(p)[i]; assert(f[i] == x); assert(d.contains(x)); let k = choose|k: int| 0 <= k < d.len() && d[k] == x; assert(s[k] == x && s[s.len() - 1] == f[j]); }
        }
    }
}
// ascending sequences are determined by their entries per number
pub proof fn lemma_same_entries(a: Seq<ExifTag>, b: Seq<ExifTag>)
    requires ascending(a), ascending(b), forall|h: u16| #[trigger] at_hex(a, h) == at_hex(b, h)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { let h = b[0].hex(); lemma_filter_elems(b, |t: ExifTag| t.hex() == h); assert(at_hex(b, h).contains(b[0])); assert(at_hex(a, h) == at_hex(b, h)); lemma_filter_none(a, |t: ExifTag| t.hex() == h); }
        assert(a =~= b);
    } else {
        let la = a.last(); let h = la.hex();
        lemma_filter_elems(a, |t: ExifTag| t.hex() == h); lemma_filter_elems(b, |t: ExifTag| t.hex() == h);
        assert(a[a.len() - 1] == la);
        assert(at_hex(a, h).contains(la));
        assert(at_hex(a, h) == at_hex(b, h));
        assert(b.contains(la)) by { let k = choose|k: int| 0 <= k < at_hex(b, h).len() && at_hex(b, h)[k] == la; assert(b.contains(at_hex(b, h)[k])); }
        let lb = b.last(); let g = lb.hex();
        let k = choose|k: int| 0 <= k < b.len() && b[k] == la;
        assert(hexes()(b[k]) <= hexes()(b[b.len() - 1]));
        lemma_filter_elems(a, |t: ExifTag| t.hex() == g); lemma_filter_elems(b, |t: ExifTag| t.hex() == g);
        assert(at_hex(b, g).contains(lb)); assert(at_hex(a, g) == at_hex(b, g));
        assert(a.contains(lb)) by { let q = choose|q: int| 0 <= q < at_hex(a, g).len() && at_hex(a, g)[q] == lb; assert(a.contains(at_hex(a, g)[q])); }
        let q = choose|q: int| 0 <= q < a.len() && a[q] == lb;
        assert(hexes()(a[q]) <= hexes()(a[a.len() - 1]));
        assert(g == h);
        let da = a.drop_last(); let db = b.drop_last();
        assert(a =~= da.push(la)); assert(b =~= db.push(lb));
        lemma_hex_add(da, la, h); lemma_hex_add(db, lb, h);
        assert(at_hex(a, h).last() == la && at_hex(b, h).last() == lb);
        assert(la == lb);
        assert forall|x: u16| #[trigger] at_hex(da, x) == at_hex(db, x) by {
            lemma_hex_add(da, la, x); lemma_hex_add(db, lb, x); assert(at_hex(a, x) == at_hex(b, x));
            if x == h { assert(at_hex(a, x).drop_last() =~= at_hex(da, x)); assert(at_hex(b, x).drop_last() =~= at_hex(db, x)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < da.len() implies #[trigger] hexes()(da[i]) <= #[trigger] hexes()(da[j]) by { assert(da[i] == a[i] && da[j] == a[j]); assert(hexes()(a[i]) <= hexes()(a[j])); }
        assert forall|i: int, j: int| 0 <= i < j < db.len() implies #[trigger] hexes()(db[i]) <= #[trigger] hexes()(db[j]) by { assert(db[i] == b[i] && db[j] == b[j]); assert(hexes()(b[i]) <= hexes()(b[j])); }
        lemma_same_entries(da, db);
    }
}
pub proof fn lemma_reduced_dir(a: Dir, b: Dir)
    requires a.ty() == b.ty(), a.nr() == b.nr(), ascending(a.tags@), ascending(b.tags@),
        forall|h: u16| #[trigger] at_hex(b.tags@, h) == (if drops(a.tags@, a.tags@.len() as int, h) { Seq::<ExifTag>::empty() } else { at_hex(a.tags@, h) })
    ensures reduced_dir(a, b)
{
    let s = a.tags@;
    if clean(s) {
        let st = |t: ExifTag| structural(t);
        assert forall|h: u16| #[trigger] at_hex(b.tags@, h) == at_hex(kept(s), h) by {
            let q = |t: ExifTag| t.hex() == h;
            lemma_filter_filter(s, st, q);
            let sq = |x: ExifTag| st(x) && q(x);
            if drops(s, s.len() as int, h) {
                let j = choose|j: int| 0 <= j < s.len() && !structural(#[trigger] s[j]) && s[j].hex() == h;
                assert forall|i: int| 0 <= i < s.len() implies !sq(#[trigger] s[i]) by { if sq(s[i]) { assert(s[j].hex() == s[i].hex()); } }
                lemma_filter_none(s, sq);
            } else {
                assert forall|i: int| 0 <= i < s.len() implies sq(#[trigger] s[i]) == q(s[i]) by {}
                lemma_filter_same(s, sq, q);
            }
        }
        lemma_filter_sorted(s, st, hexes());
        lemma_same_entries(b.tags@, kept(s));
    }
}
pub open spec fn listed(s: Seq<ExifTag>, n: int, h: u16) -> bool { exists|j: int| 0 <= j < n && j < s.len() && (#[trigger] s[j]).hex() == h }
pub proof fn lemma_listed_push(s: Seq<ExifTag>, t: ExifTag, h: u16) ensures listed(s.push(t), s.len() as int + 1, h) <==> listed(s, s.len() as int, h) || t.hex() == h {
    if listed(s, s.len() as int, h) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).hex() == h; assert(s.push(t)[j] == s[j]); }
    if t.hex() == h { assert(s.push(t)[s.len() as int] == t); }
    if listed(s.push(t), s.len() as int + 1, h) { let j = choose|j: int| 0 <= j < s.push(t).len() && (#[trigger] s.push(t)[j]).hex() == h; if j < s.len() { assert(s[j].hex() == h); } }
}
pub proof fn lemma_drops_step(s: Seq<ExifTag>, n: int, h: u16) requires 0 <= n < s.len() ensures drops(s, n + 1, h) <==> drops(s, n, h) || (!structural(s[n]) && s[n].hex() == h) {
    if drops(s, n, h) { let j = choose|j: int| 0 <= j < n && j < s.len() && !structural(#[trigger] s[j]) && s[j].hex() == h; assert(0 <= j < n + 1); }
    if !structural(s[n]) && s[n].hex() == h { assert(0 <= n < n + 1); }
}
pub proof fn lemma_listed_step(s: Seq<ExifTag>, n: int, h: u16) requires 0 <= n < s.len() ensures listed(s, n + 1, h) <==> listed(s, n, h) || s[n].hex() == h {
    if listed(s, n, h) { let j = choose|j: int| 0 <= j < n && j < s.len() && (#[trigger] s[j]).hex() == h; assert(0 <= j < n + 1); }
}
// the numbers of the non-structural entries among the first n
pub open spec fn drops(s: Seq<ExifTag>, n: int, h: u16) -> bool { exists|j: int| 0 <= j < n && j < s.len() && !structural(#[trigger] s[j]) && s[j].hex() == h }
impl Metadata {
//# fn src/metadata/edit.rs reduce_to_a_minimum
//# spec
    requires wf(old(self).dirs())
    ensures wf(final(self).dirs()), reduced(old(self).dirs(), final(self).dirs()), final(self).endian == old(self).endian
//# begin
    let ghost a = self.dirs(); let ghost f = generic_dirs(a);
    proof { lemma_ordered_filter(a, |d: Dir| d.ty() == ExifTagGroup::GENERIC); lemma_filter_elems(a, |d: Dir| d.ty() == ExifTagGroup::GENERIC);
        assert forall|k: int| 0 <= k < f.len() implies (#[trigger] f[k]).ty() == ExifTagGroup::GENERIC && ascending(f[k].tags@) by { assert(a.contains(f[k])); } }
//# loop 0
        invariant vx_i0 <= self.dirs().len(), self.dirs().len() == f.len(), self.endian == old(self).endian, a == old(self).dirs(), f == generic_dirs(a), ordered(f),
            forall|k: int| 0 <= k < f.len() ==> (#[trigger] f[k]).ty() == ExifTagGroup::GENERIC && ascending(f[k].tags@),
            forall|k: int| 0 <= k < vx_i0 ==> reduced_dir(f[k], #[trigger] self.dirs()[k]), forall|k: int| vx_i0 <= k < f.len() ==> #[trigger] self.dirs()[k] == f[k]
        decreases self.dirs().len() - vx_i0
//# before /let mut tags_to_be_removed/
            let ghost d0 = *ifd; let ghost fi = *final(ifd);
//# loop 1 index
                invariant vx_e1 == ifd.tg(), *ifd == d0, vx_i1 <= vx_e1@.len(), *final(ifd) == fi,
                    forall|h: u16| listed(tags_to_be_removed@, tags_to_be_removed@.len() as int, h) <==> #[trigger] drops(d0.tags@, vx_i1 as int, h)
                decreases vx_e1@.len() - vx_i1
//# loop 1 begin
                let ghost t0 = tags_to_be_removed@;
//# loop 1 end
                proof { assert forall|h: u16| listed(tags_to_be_removed@, tags_to_be_removed@.len() as int, h) <==> #[trigger] drops(d0.tags@, vx_i1 as int, h) by {
                    lemma_drops_step(d0.tags@, vx_i1 - 1, h); lemma_listed_push(t0, *tag, h); assert(listed(t0, t0.len() as int, h) <==> drops(d0.tags@, vx_i1 - 1, h)); } }
//# loop 2 index
                invariant vx_i2 <= vx_e2@.len(), *final(ifd) == fi, ifd.ty() == d0.ty(), ifd.nr() == d0.nr(), ascending(ifd.tags@),
                    forall|h: u16| #[trigger] at_hex(ifd.tags@, h) == (if listed(vx_e2@, vx_i2 as int, h) { Seq::<ExifTag>::empty() } else { at_hex(d0.tags@, h) })
                decreases vx_e2@.len() - vx_i2
//# loop 2 begin
                let ghost b0 = ifd.tags@;
//# loop 2 end
                proof { assert forall|h: u16| #[trigger] at_hex(ifd.tags@, h) == (if listed(vx_e2@, vx_i2 as int, h) { Seq::<ExifTag>::empty() } else { at_hex(d0.tags@, h) }) by {
                    lemma_listed_step(vx_e2@, vx_i2 - 1, h); assert(at_hex(b0, h) == (if listed(vx_e2@, vx_i2 - 1, h) { Seq::<ExifTag>::empty() } else { at_hex(d0.tags@, h) })); } }
//# loop 2 after
            proof { assert forall|h: u16| #[trigger] at_hex(ifd.tags@, h) == (if drops(d0.tags@, d0.tags@.len() as int, h) { Seq::<ExifTag>::empty() } else { at_hex(d0.tags@, h) }) by {
                    assert(listed(vx_e2@, vx_e2@.len() as int, h) <==> drops(d0.tags@, d0.tags@.len() as int, h)); }
                lemma_reduced_dir(d0, *ifd); }
//# bottom
    proof { let b = self.dirs();
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies dlt(#[trigger] b[i], #[trigger] b[j]) by { assert(dlt(f[i], f[j])); assert(reduced_dir(f[i], b[i]) && reduced_dir(f[j], b[j])); }
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).ty() == ExifTagGroup::GENERIC by { assert(reduced_dir(f[i], b[i])); }
    }
//# end
}
} // verus!
fn main() {}
