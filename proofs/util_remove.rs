pub open spec fn from<T>(s: Seq<T>, e: int) -> Seq<T> { if e < s.len() { s.skip(e) } else { Seq::empty() } }
pub open spec fn cut<T>(s: Seq<T>, a: int, e: int) -> Seq<T> { s.take(a) + from(s, e) }
//# fn src/util.rs range_remove
//# spec
    ensures start > end ==> final(vec)@ == old(vec)@,
        start <= end && start <= old(vec)@.len() ==> final(vec)@ == cut(old(vec)@, start as int, end as int),
//# begin
    let ghost v0 = vec@;
    proof { if start <= v0.len() && end >= v0.len() { assert(cut(v0, start as int, end as int) =~= v0.take(start as int)); } }
//# loop 0
        invariant start <= end, end < v0.len(), old_vec_len == v0.len(), vec@.len() == v0.len(), v0 == old(vec)@,
            forall|k: int| 0 <= k < start ==> vec@[k] == v0[k],
            forall|k: int| start <= k < start + dst_offset ==> vec@[k] == v0[k - start + end],
            forall|k: int| start + dst_offset <= k < v0.len() ==> vec@[k] == v0[k],
//# bottom
    proof { assert(vec@ =~= cut(v0, start as int, end as int)); }
//# end
