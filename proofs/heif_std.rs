// byte-level vocabulary, readers
pub open spec fn enc64(v: u64, e: Endian) -> Seq<u8> {
    let (h, l) = ((v / 0x1_0000_0000) as u32, (v % 0x1_0000_0000) as u32);
    match e { Endian::Big => enc32(h, e) + enc32(l, e), Endian::Little => enc32(l, e) + enc32(h, e) }
}
#[verifier::external_body] pub fn vx_enc_u64(v: &u64, e: &Endian) -> (r: Vec<u8>) ensures r@ == enc64(*v, *e) { unimplemented!() }
/// what stands in s from p to q
pub open spec fn at(s: Seq<u8>, p: int, q: int, x: Seq<u8>) -> bool { 0 <= p <= q <= s.len() && q == p + x.len() && s.subrange(p, q) == x }
pub proof fn lemma_at(s: Seq<u8>, p: int, q: int, r: int, x: Seq<u8>, y: Seq<u8>)
    requires at(s, p, q, x), at(s, q, r, y)
    ensures at(s, p, r, x + y)
{ assert(s.subrange(p, r) =~= x + y); }
pub proof fn lemma_at0(s: Seq<u8>, p: int) requires 0 <= p <= s.len() ensures at(s, p, p, Seq::empty()) { assert(s.subrange(p, p) =~= Seq::<u8>::empty()); }
pub open spec fn be(v: u64, w: int) -> Seq<u8> { if w == 1 { seq![v as u8] } else if w == 2 { enc16(v as u16, Endian::Big) } else if w == 4 { enc32(v as u32, Endian::Big) } else if w == 8 { enc64(v, Endian::Big) } else { Seq::empty() } }
pub proof fn lemma_be16(a: u8, b: u8) ensures enc16(be16(a, b), Endian::Big) == seq![a, b] { let v = be16(a, b); assert(v == a * 256 + b); assert(v / 256 == a); assert(v % 256 == b); }
pub proof fn lemma_be32(a: u8, b: u8, c: u8, d: u8) ensures enc32(be32(a, b, c, d), Endian::Big) == seq![a, b, c, d]
{
    let v = be32(a, b, c, d);
    let w: int = ((a as int * 256 + b) * 256 + c) * 256 + d;
    assert(v == w);
    assert(v / 0x1000000 == a); assert(v / 0x10000 % 256 == b); assert(v / 256 % 256 == c); assert(v % 256 == d);
}
pub open spec fn has(c: int, n: int, len: int) -> bool { c + n <= len }
#[verifier::prophetic] pub open spec fn got<T: Stream + ?Sized>(a: &T, b: &T, x: Seq<u8>) -> bool { kept(a, b) && b.pos() == a.pos() + x.len() && at(a.bytes(), a.pos(), b.pos(), x) }
//# fn src/util.rs read_1_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> got(old(cursor), final(cursor), b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 1 > old(cursor).bytes().len(),
//# before /return Ok\(field\)/
    assert(old(cursor).bytes().subrange(old(cursor).pos(), final(cursor).pos()) =~= field@);
//# end
//# fn src/util.rs read_2_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> got(old(cursor), final(cursor), b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 2 > old(cursor).bytes().len(),
//# before /return Ok\(field\)/
    assert(old(cursor).bytes().subrange(old(cursor).pos(), final(cursor).pos()) =~= field@);
//# end
//# fn src/util.rs read_3_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> got(old(cursor), final(cursor), b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 3 > old(cursor).bytes().len(),
//# before /return Ok\(field\)/
    assert(old(cursor).bytes().subrange(old(cursor).pos(), final(cursor).pos()) =~= field@);
//# end
//# fn src/util.rs read_4_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> got(old(cursor), final(cursor), b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# before /return Ok\(field\)/
    assert(old(cursor).bytes().subrange(old(cursor).pos(), final(cursor).pos()) =~= field@);
//# end
//# fn src/util.rs read_8_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> got(old(cursor), final(cursor), b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 8 > old(cursor).bytes().len(),
//# before /return Ok\(field\)/
    assert(old(cursor).bytes().subrange(old(cursor).pos(), final(cursor).pos()) =~= field@);
//# end
//# fn src/util.rs read_16_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> got(old(cursor), final(cursor), b@),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 16 > old(cursor).bytes().len(),
//# before /return Ok\(field\)/
    assert(old(cursor).bytes().subrange(old(cursor).pos(), final(cursor).pos()) =~= field@);
//# end
//# fn src/util.rs read_be_u16 -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)), r matches Ok(v) ==> got(old(cursor), final(cursor), enc16(v, Endian::Big)),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 2 > old(cursor).bytes().len(),
//# before /return Ok/
    proof { lemma_be16(bytes@[0], bytes@[1]); assert(seq![bytes@[0], bytes@[1]] =~= bytes@); }
//# end
//# fn src/util.rs read_be_u32 -> r
//# sub /\bin((?:\s|\x01\d+\x02)*)bytes\b/ => /in\1 &bytes/
//# sub /= value \* 256 \+ byte as u32/ => /= value * 256 + *byte as u32/
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)), r matches Ok(v) ==> got(old(cursor), final(cursor), enc32(v, Endian::Big)),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == 4, forall|k: int| 0 <= k < 4 ==> *(#[trigger] it.seq()[k]) == bytes@[k], bytes@.len() == 4,
            it.index@ == 0 ==> value == 0,
            it.index@ == 1 ==> value == bytes[0],
            it.index@ == 2 ==> value == bytes[0] * 256 + bytes[1],
            it.index@ == 3 ==> value == (bytes[0] * 256 + bytes[1]) * 256 + bytes[2],
            it.index@ == 4 ==> value == ((bytes[0] * 256 + bytes[1]) * 256 + bytes[2]) * 256 + bytes[3],
//# before /return Ok/
    proof { lemma_be32(bytes@[0], bytes@[1], bytes@[2], bytes@[3]); assert(seq![bytes@[0], bytes@[1], bytes@[2], bytes@[3]] =~= bytes@); }
//# end
pub open spec fn horner(b: Seq<u8>, n: int) -> int decreases n { if n <= 0 { 0 } else { horner(b, n - 1) * 256 + b[n - 1] } }
pub proof fn lemma_horner(b: Seq<u8>, n: int) requires 0 <= n <= b.len(), n <= 8
    ensures 0 <= horner(b, n), n == 0 ==> horner(b, n) == 0, n <= 1 ==> horner(b, n) < 0x100, n <= 2 ==> horner(b, n) < 0x1_0000, n <= 3 ==> horner(b, n) < 0x100_0000, n <= 4 ==> horner(b, n) < 0x1_0000_0000,
        n <= 5 ==> horner(b, n) < 0x100_0000_0000, n <= 6 ==> horner(b, n) < 0x1_0000_0000_0000, n <= 7 ==> horner(b, n) < 0x100_0000_0000_0000, horner(b, n) <= u64::MAX
    decreases n
{ if n > 0 { lemma_horner(b, n - 1); } }
pub proof fn lemma_be64(b: Seq<u8>) requires b.len() == 8 ensures enc64(horner(b, 8) as u64, Endian::Big) == b
{
    reveal_with_fuel(horner, 9);
    lemma_horner(b, 8);
    let h = be32(b[0], b[1], b[2], b[3]); let l = be32(b[4], b[5], b[6], b[7]);
    let hi: int = ((b[0] as int * 256 + b[1]) * 256 + b[2]) * 256 + b[3]; let lo: int = ((b[4] as int * 256 + b[5]) * 256 + b[6]) * 256 + b[7];
    assert(h == hi && l == lo);
    assert(horner(b, 8) == hi * 0x1_0000_0000 + lo);
    let v = horner(b, 8) as u64;
    assert(v / 0x1_0000_0000 == hi && v % 0x1_0000_0000 == lo) by (nonlinear_arith) requires v as int == hi * 0x1_0000_0000 + lo, 0 <= lo < 0x1_0000_0000, 0 <= hi;
    lemma_be32(b[0], b[1], b[2], b[3]); lemma_be32(b[4], b[5], b[6], b[7]);
    assert(enc64(v, Endian::Big) =~= b);
}
//# fn src/util.rs read_be_u64 -> r
//# sub /\bin((?:\s|\x01\d+\x02)*)bytes\b/ => /in\1 &bytes/
//# sub /= value \* 256 \+ byte as u64/ => /= value * 256 + *byte as u64/
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)), r matches Ok(v) ==> got(old(cursor), final(cursor), enc64(v, Endian::Big)),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 8 > old(cursor).bytes().len(),
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == 8, forall|k: int| 0 <= k < 8 ==> *(#[trigger] it.seq()[k]) == bytes@[k], bytes@.len() == 8, value == horner(bytes@, it.index@)
//# loop 0 begin
        proof { lemma_horner(bytes@, it.index@ + 1); }
//# before /return Ok/
    proof { lemma_be64(bytes@); }
//# end
//# fn src/util.rs read_null_terminated_string -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)), r matches Ok(s) ==> got(old(cursor), final(cursor), s.b@.push(0))
//# loop 0
        invariant kept(old(cursor), cursor), cursor.pos() >= 0, at(old(cursor).bytes(), old(cursor).pos(), cursor.pos(), string_buffer@.push(character_buffer@[0])),
        decreases old(cursor).bytes().len() - cursor.pos()
//# loop 0 before
    proof { assert(string_buffer@.push(character_buffer@[0]) =~= character_buffer@); }
//# loop 0 begin
        let ghost (s0, c0, p0) = (string_buffer@, character_buffer@[0], cursor.pos());
//# loop 0 end
        proof { lemma_at(old(cursor).bytes(), old(cursor).pos(), p0, cursor.pos(), s0.push(c0), character_buffer@); assert(s0.push(c0) + character_buffer@ =~= string_buffer@.push(character_buffer@[0])); }
//# sub /VxString::from_utf8\(string_buffer\)\.map_err\([^"]*"[^"]*"\s*\)\s*\)/ => /vx_text_of(string_buffer)/
//# end
#[verifier::external_body]
pub fn vx_text_of(b: Vec<u8>) -> (r: Result<VxString, io::Error>) ensures r is Ok <==> utf8(b@), r matches Ok(s) ==> s.b@ == b@ { unimplemented!() }
