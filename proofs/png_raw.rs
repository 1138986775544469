//# include prelude.rs
verus! {
use crate::io::*;
use std::collections::VecDeque;
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule &str -> byte-string model /&str\b/ => /&VxString/
//# rule to_string -> contract-bearing /\.to_string\(\)/ => /.vx_to_string()/
//# rule Vec == [u8; N] -> contract-bearing comparison /= (keyword) == (\w+);/ => /= vx_bytes_eq(&\1, &\2);/
//# rule assert_eq! -> proof obligation /\bassert_eq!\(/ => /vx_assert_eq(/
//# rule x.neg() -> -x /\.neg\(\)/ => /.vx_neg()/
//# rule pow -> contract-bearing /\b10_u64\.pow\(/ => /vx_pow10(/
//# rule one-character text to digit -> contract-bearing /\((re_encoded_byte\[\d\]) as char\)\.vx_to_string\(\)\.parse::<u64>\(\)/ => /vx_digit(\1)/
//# rule Vec::from(VecDeque) -> contract-bearing /\bVec::from\(exif_all\)/ => /vx_from_deque(exif_all)/
//# include strings.rs
pub trait VxNeg { spec fn neg_ok(&self) -> bool; fn vx_neg(self) -> (r: Self) where Self: Sized requires self.neg_ok(); }
impl VxNeg for i64 { open spec fn neg_ok(&self) -> bool { *self > i64::MIN } fn vx_neg(self) -> (r: i64) ensures r == -self { -self } }
//# include png_raw_voc.rs
//# fn src/png/mod.rs encode_byte -> r
//# spec
    ensures r@ =~= seq![hexd(*byte as int / 16), hexd(*byte as int % 16)],
//# end
pub proof fn lemma_hex_push(x: Seq<u8>, b: u8)
    ensures hex(x.push(b)) =~= hex(x) + seq![hexd(b as int / 16), hexd(b as int % 16)],
{
    let (l, r) = (hex(x.push(b)), hex(x) + seq![hexd(b as int / 16), hexd(b as int % 16)]);
    assert forall|i: int| 0 <= i < l.len() implies l[i] == r[i] by { if i < 2 * x.len() { assert(x.push(b)[i / 2] == x[i / 2]); } else { assert(i / 2 == x.len()); } }
}
//# fn src/png/mod.rs encode_metadata_png -> r
//# spec
    ensures r is Ok <==> dec((exif_vec@.len() + 7) as int).len() <= 8, r matches Ok(v) ==> v@ == raw_encoded(exif_vec@),
//# begin
    proof { vec_bounded(exif_vec); axiom_dec((exif_vec@.len() + 7) as int); }
//# loop 0 before
    let ghost h = png_exif@;
    proof { assert(hex(EXIF_HEADER@.take(0)) =~= Seq::empty()); assert(h + Seq::<u8>::empty() =~= h);
        assert(h =~= seq![10u8, 0x65, 0x78, 0x69, 0x66, 10] + size_field((exif_vec@.len() + 7) as int) + seq![10u8]); }
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == 6, forall|k: int| 0 <= k < 6 ==> *(#[trigger] it.seq()[k]) == EXIF_HEADER@[k],
            png_exif@ =~= h + hex(EXIF_HEADER@.take(it.index@)),
//# loop 0 begin
        proof { lemma_hex_push(EXIF_HEADER@.take(it.index@), *byte); assert(EXIF_HEADER@.take(it.index@).push(*byte) =~= EXIF_HEADER@.take(it.index@ + 1)); }
//# loop 1 before
    proof { assert(EXIF_HEADER@.take(6) =~= EXIF_HEADER@); }
    let ghost h = png_exif@;
    proof { assert(hex(exif_vec@.take(0)) =~= Seq::empty()); assert(h + Seq::<u8>::empty() =~= h); }
//# loop 1 iter
    it
//# loop 1
        invariant it.seq().len() == exif_vec@.len(), forall|k: int| 0 <= k < exif_vec@.len() ==> *(#[trigger] it.seq()[k]) == exif_vec@[k],
            png_exif@ =~= h + hex(exif_vec@.take(it.index@)),
//# loop 1 begin
        proof { lemma_hex_push(exif_vec@.take(it.index@), *byte); assert(exif_vec@.take(it.index@).push(*byte) =~= exif_vec@.take(it.index@ + 1)); }
//# loop 1 after
    proof { assert(exif_vec@.take(exif_vec@.len() as int) =~= exif_vec@);
        assert(png_exif@.push(0x30u8).push(0x30u8).push(10u8) =~= raw_encoded(exif_vec@)); }
//# end
//# fn src/png/mod.rs starts_with -> r
//# spec
    ensures r == prefix@.is_prefix_of(data@),
//# loop 0
        invariant prefix@.len() <= data@.len(), forall|k: int| 0 <= k < i ==> data@[k] == prefix@[k],
//# loop 0 after
    proof { assert(prefix@ =~= data@.take(prefix@.len() as int)); }
//# end
//# fn src/png/mod.rs decode_metadata_png -> r
//# sub /let value_string = [^;]*;/ => //
//# sub /u8::from_str_radix\(value_string\.trim\(\), 16\)/ => /vx_hex_pair(other_byte, *byte)/
//# spec
    ensures r is Ok <==> raw_decoded(encoded_data@) is Some, r matches Ok(v) ==> v@ == raw_decoded(encoded_data@)->Some_0,
//# loop 0
        invariant
            vx_e0@ == encoded_data@, vx_i0 <= vx_e0@.len(),
            run(encoded_data@, init()) == run(encoded_data@.skip(vx_i0 as int), St { out: exif_all@, pend: opt_other_byte }),
        decreases vx_e0@.len() - vx_i0
//# loop 0 before
    proof { assert(encoded_data@.skip(0) =~= encoded_data@); }
//# loop 0 begin
        proof { let t = encoded_data@.skip(vx_i0 as int); assert(t.skip(1) =~= encoded_data@.skip(vx_i0 + 1)); assert(t[0] == vx_e0@[vx_i0 as int]); }
//# loop 0 after
    proof { assert(encoded_data@.skip(vx_i0 as int).len() == 0); }
    let ghost a = exif_all@;
//# loop 1
        invariant
            exif_all@ =~= a.skip(pop_storage@.len() as int), pop_storage@ =~= a.take(pop_storage@.len() as int), pop_storage@.len() <= a.len(),
            header_from(a, 0) == header_from(a, pop_storage@.len() as int),
            opt_other_byte is None, run(encoded_data@, init()) == (St { out: a, pend: None }),
        decreases exif_all@.len()
//# loop 1 begin
        proof { if exif_all@.len() == 0 { let k = pop_storage@.len() as int; assert(!header_at(a, k)); assert(header_from(a, k + 1) is None); assert(header_from(a, k) is None); } }
//# loop 2
        invariant
            pop_storage@ == a.take(pop_storage@.len() as int), pop_storage@.len() <= a.len(), pop_storage@.len() > 0,
            nibbles(pop_storage@, i as int) == Some(given_exif_len as int), given_exif_len < p10(2 * i),
            opt_other_byte is None, run(encoded_data@, init()) == (St { out: a, pend: None }), header_from(a, 0) == Some(pop_storage@.len() as int),
            exif_all@ == a.skip(pop_storage@.len() as int),
//# loop 2 begin
        proof { reveal_with_fuel(p10, 10); lemma_nibbles_none(pop_storage@, i as int + 1, if pop_storage@.len() < 4 { pop_storage@.len() as int } else { 4 }); }
//# before /given_exif_len \+= tens_place/
        proof {
            reveal_with_fuel(p10, 10);
            let p = p10(2 * i as int);
            assert(p10(2 * (i + 1)) == 100 * p);
            assert(p == 1 || p == 100 || p == 10000 || p == 1000000);
            let (t, o) = (tens_place as int, ones_place as int);
            assert(0 <= t <= 9 && 0 <= o <= 9);
            assert(0 <= t * 10 * p <= 90 * p && 0 <= o * p <= 9 * p && o * 1 * p == o * p) by (nonlinear_arith) requires 0 <= t <= 9, 0 <= o <= 9, p >= 0;
        }
//# end
pub proof fn lemma_nibbles_none(s: Seq<u8>, i: int, n: int)
    requires 0 <= i <= n,
    ensures nibbles(s, i) is None ==> nibbles(s, n) is None,
    decreases n - i
{ if i < n { lemma_nibbles_none(s, i + 1, n); } }

// ---- the round trip ------------------------------------------------------------------------------------------------------
pub proof fn lemma_run_cat(a: Seq<u8>, b: Seq<u8>, st: St)
    ensures run(a + b, st) == run(b, run(a, st)),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).skip(1) =~= a.skip(1) + b); lemma_run_cat(a.skip(1), b, step(st, a[0])); }
}
pub proof fn lemma_run2(t: Seq<u8>, st: St)
    requires t.len() >= 2, t[0] != 10, t[1] != 10, st.pend is None,
    ensures run(t, st) == run(t.skip(2), St { out: match hex_pair(t[0], t[1]) { Some(v) => st.out.push(v), None => st.out }, pend: None }),
{
    let u = t.skip(1);
    assert(u.skip(1) =~= t.skip(2)); assert(u[0] == t[1]);
    assert(run(t, st) == run(u, step(st, t[0])));
    assert(run(u, step(st, t[0])) == run(u.skip(1), step(step(st, t[0]), u[0])));
}
pub proof fn lemma_hexd(b: u8)
    ensures hex_pair(hexd(b as int / 16), hexd(b as int % 16)) == Some(b), hexd(b as int / 16) != 10, hexd(b as int % 16) != 10,
{
    let (h, l) = (b as int / 16, b as int % 16);
    assert(hexval(hexd(h)) == Some(h)); assert(hexval(hexd(l)) == Some(l));
    assert(!white(hexd(h)) && !white(hexd(l)) && hexd(h) != 43);
    assert(16 * h + l == b);
}
pub proof fn lemma_run_hex(x: Seq<u8>, st: St)
    requires st.pend is None,
    ensures run(hex(x), st) == (St { out: st.out + x, pend: None }),
    decreases x.len()
{
    if x.len() == 0 { assert(hex(x) =~= Seq::empty()); assert(st.out + x =~= st.out); }
    else {
        let t = hex(x);
        lemma_hexd(x[0]);
        assert(t[0] == hexd(x[0] as int / 16)); assert(t[1] == hexd(x[0] as int % 16));
        lemma_run2(t, st);
        assert(t.skip(2) =~= hex(x.skip(1))) by {
            let (l, r) = (t.skip(2), hex(x.skip(1)));
            assert forall|i: int| 0 <= i < r.len() implies l[i] == r[i] by { assert((i + 2) / 2 == i / 2 + 1); assert((i + 2) % 2 == i % 2); assert(x.skip(1)[i / 2] == x[i / 2 + 1]); }
        }
        lemma_run_hex(x.skip(1), St { out: st.out.push(x[0]), pend: None });
        assert(st.out.push(x[0]) + x.skip(1) =~= st.out + x);
    }
}
/// what eight characters become
pub open spec fn so(f: Seq<u8>, j: int) -> Seq<u8> decreases j {
    if j <= 0 { Seq::empty() } else { match hex_pair(f[2 * j - 2], f[2 * j - 1]) { Some(v) => so(f, j - 1).push(v), None => so(f, j - 1) } }
}
pub proof fn lemma_run8(f: Seq<u8>)
    requires f.len() == 8, forall|i: int| 0 <= i < 8 ==> f[i] != 10,
    ensures run(f, init()) == (St { out: so(f, 4), pend: None }),
{
    let f2 = f.skip(2); let f4 = f.skip(4); let f6 = f.skip(6);
    assert(f2.skip(2) =~= f4); assert(f4.skip(2) =~= f6); assert(f6.skip(2) =~= Seq::empty());
    let none: Option<u8> = None;
    assert(so(f, 0) =~= Seq::empty());
    lemma_run2(f, init());
    assert(so(f, 1) == match hex_pair(f[0], f[1]) { Some(v) => so(f, 0).push(v), None => so(f, 0) });
    lemma_run2(f2, St { out: so(f, 1), pend: none });
    assert(so(f, 2) == match hex_pair(f[2], f[3]) { Some(v) => so(f, 1).push(v), None => so(f, 1) });
    lemma_run2(f4, St { out: so(f, 2), pend: none });
    assert(so(f, 3) == match hex_pair(f[4], f[5]) { Some(v) => so(f, 2).push(v), None => so(f, 2) });
    lemma_run2(f6, St { out: so(f, 3), pend: none });
    assert(so(f, 4) == match hex_pair(f[6], f[7]) { Some(v) => so(f, 3).push(v), None => so(f, 3) });
}
pub proof fn lemma_value_push(s: Seq<u8>, j: int)
    requires 0 < j <= s.len(),
    ensures value(s.take(j)) == value(s.take(j - 1)) * 10 + (s[j - 1] - 48),
{ assert(s.take(j).drop_last() =~= s.take(j - 1)); }
/// the i-th of the eight characters as a digit
pub open spec fn gd(n: int, i: int) -> int { if i < 8 - dec(n).len() { 0 } else { size_field(n)[i] - 48 } }
pub proof fn lemma_gd(n: int)
    requires n >= 0, dec(n).len() <= 8,
    ensures size_field(n).len() == 8, forall|i: int| 0 <= i < 8 ==> 0 <= #[trigger] gd(n, i) <= 9,
        forall|i: int| 0 <= i < 8 ==> #[trigger] size_field(n)[i] == (if i < 8 - dec(n).len() { 0x20 } else { 48 + gd(n, i) }),
{
    let d = dec(n); let m = d.len() as int; axiom_dec(n);
    let f = size_field(n);
    assert(forall|i: int| 8 - m <= i < 8 ==> #[trigger] f[i] == d[i - (8 - m)]);
    assert forall|i: int| 0 <= i < 8 implies 0 <= #[trigger] gd(n, i) <= 9 by { if i >= 8 - m { assert(f[i] == d[i - (8 - m)]); } }
}
pub proof fn lemma_gd_value(n: int)
    requires n >= 0, dec(n).len() <= 8,
    ensures n == gd(n, 0) * 10000000 + gd(n, 1) * 1000000 + gd(n, 2) * 100000 + gd(n, 3) * 10000 + gd(n, 4) * 1000 + gd(n, 5) * 100 + gd(n, 6) * 10 + gd(n, 7),
{
    let d = dec(n); let m = d.len() as int; axiom_dec(n);
    let f = size_field(n);
    assert(forall|i: int| 8 - m <= i < 8 ==> #[trigger] f[i] == d[i - (8 - m)]);
    assert(d.take(m) =~= d); assert(d.take(0) =~= Seq::empty());
    assert forall|i: int| 8 - m <= i < 8 implies #[trigger] gd(n, i) == d[i - (8 - m)] - 48 by { assert(f[i] == d[i - (8 - m)]); }
    if m >= 1 { lemma_value_push(d, 1); } if m >= 2 { lemma_value_push(d, 2); } if m >= 3 { lemma_value_push(d, 3); } if m >= 4 { lemma_value_push(d, 4); }
    if m >= 5 { lemma_value_push(d, 5); } if m >= 6 { lemma_value_push(d, 6); } if m >= 7 { lemma_value_push(d, 7); } if m >= 8 { lemma_value_push(d, 8); }
}
pub open spec fn nbytes(m: int) -> int { if m <= 2 { 1 } else if m <= 4 { 2 } else if m <= 6 { 3 } else { 4 } }
pub proof fn lemma_pr(n: int, i: int)
    requires n >= 0, dec(n).len() <= 8, 0 <= i < 4,
    ensures hex_pair(size_field(n)[2 * i], size_field(n)[2 * i + 1]) == (if 2 * i + 1 < 8 - dec(n).len() { None } else { Some((16 * gd(n, 2 * i) + gd(n, 2 * i + 1)) as u8) }),
        0 <= gd(n, 2 * i) <= 9, 0 <= gd(n, 2 * i + 1) <= 9, 2 * i + 1 < 8 - dec(n).len() ==> gd(n, 2 * i) == 0 && gd(n, 2 * i + 1) == 0,
{
    lemma_gd(n);
    let f = size_field(n); let (x, y) = (f[2 * i], f[2 * i + 1]);
    assert(0 <= gd(n, 2 * i) <= 9 && 0 <= gd(n, 2 * i + 1) <= 9);
    let m = dec(n).len();
    assert(x == (if 2 * i < 8 - m { 0x20 } else { 48 + gd(n, 2 * i) }));
    assert(y == (if 2 * i + 1 < 8 - m { 0x20 } else { 48 + gd(n, 2 * i + 1) }));
}
pub proof fn lemma_so(n: int)
    requires n >= 0, dec(n).len() <= 8,
    ensures ({ let s = so(size_field(n), 4); let l = s.len() as int;
        &&& l == nbytes(dec(n).len() as int)
        &&& s[l - 1] == 16 * gd(n, 6) + gd(n, 7)
        &&& l >= 2 ==> s[l - 2] == 16 * gd(n, 4) + gd(n, 5)
        &&& l >= 3 ==> s[l - 3] == 16 * gd(n, 2) + gd(n, 3)
        &&& l >= 4 ==> s[l - 4] == 16 * gd(n, 0) + gd(n, 1)
        &&& l < 2 ==> gd(n, 4) == 0 && gd(n, 5) == 0
        &&& l < 3 ==> gd(n, 2) == 0 && gd(n, 3) == 0
        &&& l < 4 ==> gd(n, 0) == 0 && gd(n, 1) == 0 }),
{
    hide(hex_pair); hide(gd); hide(size_field);
    axiom_dec(n);
    let f = size_field(n);
    lemma_pr(n, 0); lemma_pr(n, 1); lemma_pr(n, 2); lemma_pr(n, 3);
    assert(so(f, 0).len() == 0);
    assert(so(f, 1) == match hex_pair(f[0], f[1]) { Some(v) => so(f, 0).push(v), None => so(f, 0) });
    assert(so(f, 2) == match hex_pair(f[2], f[3]) { Some(v) => so(f, 1).push(v), None => so(f, 1) });
    assert(so(f, 3) == match hex_pair(f[4], f[5]) { Some(v) => so(f, 2).push(v), None => so(f, 2) });
    assert(so(f, 4) == match hex_pair(f[6], f[7]) { Some(v) => so(f, 3).push(v), None => so(f, 3) });
}
/// the size field: what its digits become, and which number that is
pub proof fn lemma_size(n: int)
    requires n >= 0, dec(n).len() <= 8,
    ensures ({ let f = size_field(n); let s = so(f, 4);
        &&& f.len() == 8 && (forall|i: int| 0 <= i < 8 ==> f[i] != 10)
        &&& 0 < s.len() <= 4 && nibbles(s, s.len() as int) == Some(n)
        &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) % 16 < 10 && s[i] / 16 < 10 }),
{
    hide(so); hide(gd); hide(size_field);
    lemma_gd(n); lemma_gd_value(n); lemma_so(n);
    let s = so(size_field(n), 4); let l = s.len() as int;
    let (g0, g1, g2, g3, g4, g5, g6, g7) = (gd(n, 0), gd(n, 1), gd(n, 2), gd(n, 3), gd(n, 4), gd(n, 5), gd(n, 6), gd(n, 7));
    reveal_with_fuel(p10, 8); reveal_with_fuel(nibbles, 2);
    assert(p10(0) == 1 && p10(2) == 100 && p10(4) == 10000 && p10(6) == 1000000);
    assert(nibbles(s, 0) == Some(0int));
    assert(nibbles(s, 1) == Some(g6 * 10 + g7));
    if l >= 2 { assert(nibbles(s, 2) == Some(g4 * 1000 + g5 * 100 + g6 * 10 + g7)); }
    if l >= 3 { assert(nibbles(s, 3) == Some(g2 * 100000 + g3 * 10000 + g4 * 1000 + g5 * 100 + g6 * 10 + g7)); }
    if l >= 4 { assert(nibbles(s, 4) == Some(g0 * 10000000 + g1 * 1000000 + g2 * 100000 + g3 * 10000 + g4 * 1000 + g5 * 100 + g6 * 10 + g7)); }
    assert forall|i: int| 0 <= i < l implies (#[trigger] s[i]) % 16 < 10 && s[i] / 16 < 10 by { let k = l - i; assert(k == 1 || k == 2 || k == 3 || k == 4); assert(s[i] == s[l - k]); }
}
pub open spec fn header_payload(x: Seq<u8>) -> Seq<u8> { EXIF_HEADER@ + x + seq![0u8] }
pub proof fn lemma_header_from(o: Seq<u8>, k: int, c: int)
    requires 0 <= k <= c <= o.len(), forall|i: int| k <= i < c ==> !header_at(o, i), header_at(o, c),
    ensures header_from(o, k) == Some(c),
    decreases c - k
{ if k < c { lemma_header_from(o, k + 1, c); } }
/// decoding gives back what has been encoded, behind the EXIF header and followed by one zero byte
pub proof fn theorem_raw_roundtrip(x: Seq<u8>)
    requires dec((x.len() + 7) as int).len() <= 8,
    ensures raw_decoded(raw_encoded(x)) == Some(header_payload(x))
{
    hide(run); hide(hex); hide(so); hide(nibbles); hide(header_from); hide(size_field);
    let n = (x.len() + 7) as int;
    let f = size_field(n); let s = so(f, 4);
    lemma_size(n);
    let a = seq![10u8, 0x65, 0x78, 0x69, 0x66, 10]; let nl = seq![10u8]; let z = seq![0x30u8, 0x30, 10];
    let h = EXIF_HEADER@;
    let t = raw_encoded(x);
    assert(run(a, init()) == init()) by { reveal(run); reveal_with_fuel(run, 8);
        let a1 = a.skip(1); lemma_run2(a1, init()); let a3 = a1.skip(2); assert(hexval(0x78) is None); lemma_run2(a3, init()); let a5 = a3.skip(2); assert(hexval(0x69) is None);
        assert(run(a, init()) == run(a1, init())); assert(a5 =~= seq![10u8]); assert(run(a5, init()) == run(a5.skip(1), init())); }
    assert(t == a + f + nl + hex(h) + hex(x) + z);
    lemma_run_cat(a + f + nl + hex(h) + hex(x), z, init());
    lemma_run_cat(a + f + nl + hex(h), hex(x), init());
    lemma_run_cat(a + f + nl, hex(h), init());
    lemma_run_cat(a + f, nl, init());
    lemma_run_cat(a, f, init());
    lemma_run8(f);
    let st = St { out: s, pend: None };
    assert(run(nl, st) == st) by { reveal(run); reveal_with_fuel(run, 3); }
    lemma_run_hex(h, st);
    lemma_run_hex(x, St { out: s + h, pend: None });
    let sx = St { out: s + h + x, pend: None::<u8> };
    let o = s + h + x + seq![0u8];
    assert(run(z, sx) == (St { out: o, pend: None })) by { reveal(run); reveal_with_fuel(run, 4); assert(hexval(0x30) == Some(0int)); lemma_run2(z, sx); assert(z.skip(2) =~= seq![10u8]); assert(sx.out.push(0) =~= o); }
    let c = s.len() as int;
    assert forall|i: int| 0 <= i < c implies !header_at(o, i) by {
        let q = o.skip(i);
        if h.is_prefix_of(q) { assert(h[4] == 0); assert(q[4] == h[4]); assert(q[4] == o[i + 4]); assert(o[i + 4] == h[i + 4 - c]); }
        let li = LITTLE_ENDIAN_INFO@;
        if li.is_prefix_of(q) { assert(li[2] == 0x2a); assert(q[2] == li[2]); assert(q[2] == o[i + 2]); if i + 2 < c { assert(o[i + 2] == s[i + 2]); } else { assert(o[i + 2] == h[i + 2 - c]); } }
        let bi = BIG_ENDIAN_INFO@;
        if bi.is_prefix_of(q) { assert(bi[0] == 0x4d); assert(q[0] == bi[0]); assert(q[0] == o[i]); assert(o[i] == s[i]); }
    }
    assert(o.skip(c) =~= header_payload(x));
    assert(h =~= header_payload(x).take(6));
    assert(header_at(o, c));
    lemma_header_from(o, 0, c);
    assert(o.take(c) =~= s);
}
//# helpers
fn main() {}
}
