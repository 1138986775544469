verus! {
// ---- Vec adapters that take closures: the closure carries its own body as contract, the ghost predicate is that body ----
pub open spec fn keys_of<T>(s: Seq<T>, key: spec_fn(T) -> u16, k: u16) -> Seq<T> { s.filter(|x: T| key(x) == k) }
pub open spec fn sorted_by<T>(s: Seq<T>, key: spec_fn(T) -> u16) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] key(s[i]) <= #[trigger] key(s[j]) }
pub open spec fn pure1<T, R, F: Fn(&T) -> R>(f: F, p: spec_fn(T) -> R) -> bool {
    &&& forall|x: &T| #[trigger] f.requires((x,))
    &&& forall|x: &T, b: R| #[trigger] f.ensures((x,), b) ==> b == p(*x)
}
// std's stable sort (assumed): a function of the elements and their keys, sorted, the same elements, those of each key in their order
pub uninterp spec fn stable<T>(s: Seq<T>, key: spec_fn(T) -> u16) -> Seq<T>;
#[verifier::external_body]
pub proof fn lemma_stable<T>(s: Seq<T>, key: spec_fn(T) -> u16)
    ensures sorted_by(stable(s, key), key), stable(s, key).to_multiset() == s.to_multiset(), stable(s, key).len() == s.len(), forall|k: u16| #[trigger] keys_of(stable(s, key), key, k) == keys_of(s, key, k) {}
pub trait VxVec<T>: View<V = Seq<T>> {
    fn vx_find<'a, F: Fn(&T) -> bool>(&'a self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<&'a T>)
        requires pure1(f, p@)
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && *x == #[trigger] self@[i] && p@(self@[i]) && forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j]),
            None => forall|j: int| 0 <= j < self@.len() ==> !p@(#[trigger] self@[j]) };
    fn vx_any<F: Fn(&T) -> bool>(&self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: bool)
        requires pure1(f, p@)
        ensures r == (exists|j: int| 0 <= j < self@.len() && p@(#[trigger] self@[j]));
    fn vx_position<F: Fn(&T) -> bool>(&self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>)
        requires pure1(f, p@)
        ensures match r {
            Some(i) => i < self@.len() && p@(self@[i as int]) && forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j]),
            None => forall|j: int| 0 <= j < self@.len() ==> !p@(#[trigger] self@[j]) };
    fn vx_find_mut<'a, F: Fn(&T) -> bool>(&'a mut self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<&'a mut T>)
        requires pure1(f, p@)
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < old(self)@.len() && *x == #[trigger] old(self)@[i] && p@(old(self)@[i])
                && (forall|j: int| 0 <= j < i ==> !p@(#[trigger] old(self)@[j])) && final(self)@ == old(self)@.update(i, *final(x)),
            None => final(self)@ == old(self)@ && forall|j: int| 0 <= j < old(self)@.len() ==> !p@(#[trigger] old(self)@[j]) };
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F, p: Ghost<spec_fn(T) -> bool>)
        requires pure1(f, p@)
        ensures final(self)@ == old(self)@.filter(p@), forall|q: spec_fn(T) -> bool| (forall|i: int| 0 <= i < old(self)@.len() ==> q(#[trigger] old(self)@[i]) == p@(old(self)@[i])) ==> final(self)@ == #[trigger] old(self)@.filter(q);
    fn vx_sort_by_key<F: Fn(&T) -> u16>(&mut self, f: F, p: Ghost<spec_fn(T) -> u16>)
        requires pure1(f, p@)
        ensures final(self)@ == stable(old(self)@, p@), sorted_by(final(self)@, p@), final(self)@.to_multiset() == old(self)@.to_multiset(), final(self)@.len() == old(self)@.len(),
            forall|k: u16| #[trigger] keys_of(final(self)@, p@, k) == keys_of(old(self)@, p@, k),
            forall|q: spec_fn(T) -> u16| (forall|i: int| 0 <= i < old(self)@.len() ==> q(#[trigger] old(self)@[i]) == p@(old(self)@[i])) ==> final(self)@ == #[trigger] stable(old(self)@, q);
    fn vx_filter_max<'a, F: Fn(&T) -> bool, G: Fn(&T) -> u32>(&'a self, f: F, p: Ghost<spec_fn(T) -> bool>, g: G, q: Ghost<spec_fn(T) -> u32>) -> (r: Option<&'a T>)
        requires pure1(f, p@), pure1(g, q@)
        ensures match r {
            Some(x) => exists|i: int| 0 <= i < self@.len() && *x == #[trigger] self@[i] && p@(self@[i])
                && forall|j: int| 0 <= j < self@.len() && p@(#[trigger] self@[j]) ==> q@(self@[j]) <= q@(self@[i]),
            None => forall|j: int| 0 <= j < self@.len() ==> !p@(#[trigger] self@[j]) };
    fn vx_filter_collect<'a, F: Fn(&T) -> bool>(&'a self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Vec<&'a T>)
        requires pure1(f, p@)
        ensures r@.len() == self@.filter(p@).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@.filter(p@)[i],
            forall|q: spec_fn(T) -> bool| (forall|i: int| 0 <= i < self@.len() ==> q(#[trigger] self@[i]) == p@(self@[i])) ==> self@.filter(p@) == #[trigger] self@.filter(q);
    fn vx_filter_count<F: Fn(&T) -> bool>(&self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: usize)
        requires pure1(f, p@)
        ensures r == self@.filter(p@).len(), forall|q: spec_fn(T) -> bool| (forall|i: int| 0 <= i < self@.len() ==> q(#[trigger] self@[i]) == p@(self@[i])) ==> r == (#[trigger] self@.filter(q)).len();
}
pub proof fn lemma_filter_push<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool)
    ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{ reveal(Seq::filter); assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_filter_add<T>(s: Seq<T>, t: Seq<T>, p: spec_fn(T) -> bool)
    ensures (s + t).filter(p) == s.filter(p) + t.filter(p)
    decreases t.len()
{
    reveal(Seq::filter);
    if t.len() == 0 { assert(s + t =~= s); assert(s.filter(p) + t.filter(p) =~= s.filter(p)); }
    else {
        lemma_filter_add(s, t.drop_last(), p);
        assert((s + t).drop_last() =~= s + t.drop_last());
        assert((s + t).last() == t.last());
        if p(t.last()) { assert(s.filter(p) + t.filter(p) =~= (s.filter(p) + t.drop_last().filter(p)).push(t.last())); }
    }
}
pub proof fn lemma_filter_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    ensures s.filter(p).filter(q) == s.filter(|x: T| p(x) && q(x))
    decreases s.len()
{
    reveal(Seq::filter);
    let pq = |x: T| p(x) && q(x);
    if s.len() > 0 {
        lemma_filter_filter(s.drop_last(), p, q);
        if p(s.last()) { lemma_filter_push(s.drop_last().filter(p), s.last(), q); }
    }
}
pub proof fn lemma_filter_same<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) == q(s[i])
    ensures s.filter(p) == s.filter(q)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(p(s[s.len() - 1]) == q(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) == q(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_filter_same(s.drop_last(), p, q);
    }
}
pub proof fn lemma_filter_none<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !p(#[trigger] s[i])
    ensures s.filter(p) == Seq::<T>::empty()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(!p(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !p(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_filter_none(s.drop_last(), p);
    }
}
pub proof fn lemma_filter_all<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i])
    ensures s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(p(s[s.len() - 1]));
        assert forall|i: int| 0 <= i < s.drop_last().len() implies p(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lemma_filter_all(s.drop_last(), p);
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
// every kept element comes from s, in order, and satisfies p
pub proof fn lemma_filter_elems<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]),
        forall|j: int| 0 <= j < s.len() && p(s[j]) ==> s.filter(p).contains(#[trigger] s[j]), s.filter(p).len() <= s.len()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_filter_elems(d, p);
        assert forall|i: int| 0 <= i < s.filter(p).len() implies p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]) by {
            if i < d.filter(p).len() { let k = choose|k: int| 0 <= k < d.len() && d[k] == d.filter(p)[i]; assert(d.contains(d.filter(p)[i])); assert(s[k] == s.filter(p)[i]); }
            else { assert(s.filter(p)[i] == s[s.len() - 1]); }
        }
        assert forall|j: int| 0 <= j < s.len() && p(s[j]) implies s.filter(p).contains(#[trigger] s[j]) by {
            if j < d.len() { assert(d[j] == s[j]); assert(d.filter(p).contains(d[j])); let k = choose|k: int| 0 <= k < d.filter(p).len() && d.filter(p)[k] == d[j];
                assert(s.filter(p)[k] == s[j]); }
            else { assert(s.filter(p)[s.filter(p).len() - 1] == s[j]); }
        }
    }
}
pub proof fn lemma_filter_sorted<T>(s: Seq<T>, p: spec_fn(T) -> bool, key: spec_fn(T) -> u16)
    requires sorted_by(s, key)
    ensures sorted_by(s.filter(p), key)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] key(d[i]) <= #[trigger] key(d[j]) by { assert(d[i] == s[i] && d[j] == s[j]); }
        lemma_filter_sorted(d, p, key);
        lemma_filter_elems(d, p);
        assert forall|i: int, j: int| 0 <= i < j < s.filter(p).len() implies #[trigger] key(s.filter(p)[i]) <= #[trigger] key(s.filter(p)[j]) by {
            if j < d.filter(p).len() { assert(s.filter(p)[i] == d.filter(p)[i] && s.filter(p)[j] == d.filter(p)[j]); }
            else { let f = d.filter(p)[i]; assert(s.filter(p)[i] == f); assert(d.contains(f)); let k = choose|k: int| 0 <= k < d.len() && d[k] == f; assert(s[k] == f && s[s.len() - 1] == s.filter(p)[j]); }
        }
    }
}
impl<T> VxVec<T> for Vec<T> {
    fn vx_find<'a, F: Fn(&T) -> bool>(&'a self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<&'a T>) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j])
            decreases self.len() - i
        { if f(&self[i]) { assert(p@(self@[i as int])); return Some(&self[i]); } i = i + 1; }
        None
    }
    fn vx_any<F: Fn(&T) -> bool>(&self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j])
            decreases self.len() - i
        { if f(&self[i]) { assert(p@(self@[i as int])); return true; } i = i + 1; }
        false
    }
    fn vx_position<F: Fn(&T) -> bool>(&self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<usize>) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j])
            decreases self.len() - i
        { if f(&self[i]) { assert(p@(self@[i as int])); return Some(i); } i = i + 1; }
        None
    }
    fn vx_find_mut<'a, F: Fn(&T) -> bool>(&'a mut self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<&'a mut T>) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), self@ == old(self)@, *final(self) == *final(old(self)), forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j])
            decreases self.len() - i
        { if f(&self[i]) { assert(p@(old(self)@[i as int])); return Some(&mut self[i]); } i = i + 1; }
        None
    }
    #[verifier::external_body]
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F, p: Ghost<spec_fn(T) -> bool>) { self.retain(f) }
    #[verifier::external_body]
    fn vx_sort_by_key<F: Fn(&T) -> u16>(&mut self, f: F, p: Ghost<spec_fn(T) -> u16>) { self.sort_by_key(f) }
    fn vx_filter_max<'a, F: Fn(&T) -> bool, G: Fn(&T) -> u32>(&'a self, f: F, p: Ghost<spec_fn(T) -> bool>, g: G, q: Ghost<spec_fn(T) -> u32>) -> (r: Option<&'a T>) {
        let mut best: Option<usize> = None;
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), pure1(g, q@),
                match best { Some(b) => b < i && p@(self@[b as int]) && forall|j: int| 0 <= j < i && p@(#[trigger] self@[j]) ==> q@(self@[j]) <= q@(self@[b as int]),
                    None => forall|j: int| 0 <= j < i ==> !p@(#[trigger] self@[j]) }
            decreases self.len() - i
        {
            if f(&self[i]) {
                match best { Some(b) => { if g(&self[i]) >= g(&self[b]) { best = Some(i); } }, None => { best = Some(i); } }
            }
            i = i + 1;
        }
        match best { Some(b) => { assert(p@(self@[b as int])); assert(forall|j: int| 0 <= j < self@.len() && p@(#[trigger] self@[j]) ==> q@(self@[j]) <= q@(self@[b as int])); Some(&self[b]) }, None => None }
    }
    fn vx_filter_collect<'a, F: Fn(&T) -> bool>(&'a self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Vec<&'a T>) {
        let mut r: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        proof { lemma_filter_none(self@.take(0), p@); }
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), r@.len() == self@.take(i as int).filter(p@).len(),
                forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self@.take(i as int).filter(p@)[k]
            decreases self.len() - i
        {
            proof { lemma_filter_push(self@.take(i as int), self@[i as int], p@); assert(self@.take(i + 1) =~= self@.take(i as int).push(self@[i as int])); }
            if f(&self[i]) { r.push(&self[i]); }
            i = i + 1;
        }
        proof {
            assert(self@.take(i as int) =~= self@);
            assert forall|q: spec_fn(T) -> bool| (forall|i: int| 0 <= i < self@.len() ==> q(#[trigger] self@[i]) == p@(self@[i])) implies self@.filter(p@) == #[trigger] self@.filter(q) by { lemma_filter_same(self@, p@, q); }
        }
        r
    }
    fn vx_filter_count<F: Fn(&T) -> bool>(&self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: usize) {
        let mut n: usize = 0;
        let mut i: usize = 0;
        proof { lemma_filter_none(self@.take(0), p@); }
        while i < self.len()
            invariant i <= self.len(), pure1(f, p@), n == self@.take(i as int).filter(p@).len(), n <= i
            decreases self.len() - i
        {
            proof { lemma_filter_push(self@.take(i as int), self@[i as int], p@); assert(self@.take(i + 1) =~= self@.take(i as int).push(self@[i as int])); }
            if f(&self[i]) { n = n + 1; }
            i = i + 1;
        }
        proof {
            assert(self@.take(i as int) =~= self@);
            assert forall|q: spec_fn(T) -> bool| (forall|i: int| 0 <= i < self@.len() ==> q(#[trigger] self@[i]) == p@(self@[i])) implies n == (#[trigger] self@.filter(q)).len() by { lemma_filter_same(self@, p@, q); }
        }
        n
    }
}
} // verus!
