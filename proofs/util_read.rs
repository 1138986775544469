//# fn src/util.rs read_4_bytes -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(b) ==> old(cursor).pos() + 4 <= old(cursor).bytes().len() && final(cursor).pos() == old(cursor).pos() + 4
            && b@ =~= old(cursor).bytes().subrange(old(cursor).pos(), old(cursor).pos() + 4),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# end
pub open spec fn be32at(s: Seq<u8>, p: int) -> u32 { be32(s[p], s[p + 1], s[p + 2], s[p + 3]) }
//# fn src/util.rs read_be_u32 -> r
//# sub /\bin((?:\s|\x01\d+\x02)*)bytes\b/ => /in\1 &bytes/
//# sub /= value \* 256 \+ byte as u32/ => /= value * 256 + *byte as u32/
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)),
        r matches Ok(v) ==> old(cursor).pos() + 4 <= old(cursor).bytes().len() && final(cursor).pos() == old(cursor).pos() + 4
            && v == be32at(old(cursor).bytes(), old(cursor).pos()),
        old(cursor).faultless() && r is Err ==> old(cursor).pos() + 4 > old(cursor).bytes().len(),
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == 4, forall|k: int| 0 <= k < 4 ==> *(#[trigger] it.seq()[k]) == bytes@[k], bytes@.len() == 4,
            it.index@ == 0 ==> value == 0,
            it.index@ == 1 ==> value == bytes[0],
            it.index@ == 2 ==> value == bytes[0] * 256 + bytes[1],
            it.index@ == 3 ==> value == (bytes[0] * 256 + bytes[1]) * 256 + bytes[2],
            it.index@ == 4 ==> value == ((bytes[0] * 256 + bytes[1]) * 256 + bytes[2]) * 256 + bytes[3],
//# end
