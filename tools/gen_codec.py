#!/usr/bin/env python3
"""writes proofs/codec.rs (contracts for every codec impl) and proofs/exif_std.rs (the tag table of the standard, from replay/src/tags.rs)"""
import re, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INT = [("u8", 1), ("i8", 1), ("u16", 2), ("i16", 2), ("u32", 4), ("i32", 4), ("u64", 8), ("i64", 8)]
FLT = [("f32", 4), ("f64", 8)]
RAT = [("uR64", "u32"), ("iR64", "i32")]
o = []
p = o.append
p("verus! {")
for n in (1, 2, 4, 8):
    t = f"u{8*n}"
    le = ", ".join((f"(x >> {8*i}) as u8" if i else "x as u8") for i in range(n))
    be = ", ".join((f"(x >> {8*i}) as u8" if i else "x as u8") for i in reversed(range(n)))
    p(f"pub open spec fn ord{n}(x: {t}, e: Endian) -> Seq<u8> {{ match e {{ Endian::Little => seq![{le}], Endian::Big => seq![{be}] }} }}")
    eqs = " && ".join((f"(x >> {8*i}) as u8 == (y >> {8*i}) as u8" if i else "x as u8 == y as u8") for i in range(n))
    p(f"pub proof fn lemma_ord{n}(x: {t}, y: {t}, e: Endian) requires ord{n}(x, e) == ord{n}(y, e) ensures x == y {{")
    p(f"    let (a, b) = (ord{n}(x, e), ord{n}(y, e)); " + " ".join(f"assert(a[{i}] == b[{i}]);" for i in range(n)))
    p(f"    assert({eqs} ==> x == y) by (bit_vector); }}")
p("pub uninterp spec fn f32_bits(x: f32) -> u32;")
p("pub uninterp spec fn f64_bits(x: f64) -> u64;")
def bits(t, x): return f"{t}_bits({x})" if t[0] == "f" else (f"{x} as u{t[1:]}" if t[0] == "i" else x)
p("""/// the byte-order conversions of std's number types (assumed)
pub trait VxBytes<const N: usize>: Sized {
    spec fn ord(&self, e: Endian) -> Seq<u8>;
    fn vx_to_le_bytes(&self) -> (r: [u8; N]) ensures r@ == self.ord(Endian::Little);
    fn vx_to_be_bytes(&self) -> (r: [u8; N]) ensures r@ == self.ord(Endian::Big);
    fn vx_from_le_bytes(b: [u8; N]) -> (r: Self) ensures r.ord(Endian::Little) == b@;
    fn vx_from_be_bytes(b: [u8; N]) -> (r: Self) ensures r.ord(Endian::Big) == b@;
}""")
for t, n in INT + FLT:
    p(f"""impl VxBytes<{n}> for {t} {{
    open spec fn ord(&self, e: Endian) -> Seq<u8> {{ ord{n}({bits(t, '*self')}, e) }}
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; {n}]) {{ unimplemented!() }}
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; {n}]) {{ unimplemented!() }}
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; {n}]) -> (r: {t}) {{ unimplemented!() }}
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; {n}]) -> (r: {t}) {{ unimplemented!() }}
}}""")
p("""#[verifier::external_body]
pub fn vx_arr<const N: usize>(b: &[u8]) -> (r: Result<[u8; N], io::Error>) ensures r is Ok <==> b@.len() == N, r matches Ok(x) ==> x@ == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { unimplemented!() }
pub trait U8conversion<T>: Sized {
    spec fn enc(&self, e: Endian) -> Seq<u8>;
    /// the byte strings that hold a value
    spec fn good(b: Seq<u8>) -> bool;
    /// v is what these bytes say
    spec fn says(b: Seq<u8>, e: Endian, v: T) -> bool;
    fn to_u8_vec(&self, endian: &Endian) -> (r: Vec<u8>) ensures r@ == self.enc(*endian);
//# fn @u8conversion from_u8_vec in trait U8conversion -> r
//# spec
    requires Self::good(u8_vec@)
    ensures Self::says(u8_vec@, *endian, r)
//# end
    fn from_u8_vec_res(u8_vec: &[u8], endian: &Endian) -> (r: Result<T, io::Error>)
        ensures r is Ok <==> Self::good(u8_vec@), r matches Ok(v) ==> Self::says(u8_vec@, *endian, v);
}
/// one after the other
pub open spec fn flat<T: U8conversion<T>>(s: Seq<T>, e: Endian) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last(), e) + s.last().enc(e) } }
pub open spec fn each<T: U8conversion<T>>(b: Seq<u8>, e: Endian, v: Seq<T>, n: int) -> bool {
    &&& b.len() == n * v.len()
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).enc(e) == b.subrange(i * n, i * n + n)
}
/// decoding what was encoded: every component has the encoding of the one it came from
pub proof fn lemma_flat<T: U8conversion<T>>(v: Seq<T>, e: Endian, n: int)
    requires n > 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).enc(e).len() == n
    ensures flat(v, e).len() == n * v.len(), each(flat(v, e), e, v, n)
    decreases v.len()
{
    if v.len() == 0 { assert(n * v.len() == 0) by (nonlinear_arith) requires v.len() == 0; } else {
        let d = v.drop_last(); let l = d.len() as int;
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).enc(e).len() == n by { assert(v[i] == d[i]); }
        lemma_flat(d, e, n);
        assert(v[l] == v.last());
        assert(n * v.len() == n * l + n) by (nonlinear_arith) requires v.len() == l + 1;
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).enc(e) == flat(v, e).subrange(i * n, i * n + n) by {
            if i < l { assert(d[i] == v[i]);
                assert(0 <= i * n && i * n + n <= n * l) by (nonlinear_arith) requires 0 <= i < l, n > 0;
                assert(flat(v, e).subrange(i * n, i * n + n) =~= flat(d, e).subrange(i * n, i * n + n)); }
            else { assert(i * n == n * l) by (nonlinear_arith) requires i == l; assert(flat(v, e).subrange(i * n, i * n + n) =~= v.last().enc(e)); }
        }
    }
}
// ---- P10: decode(encode(x)) == x, for lists of any length
pub proof fn lemma_round<T: U8conversion<T>>(v: Seq<T>, w: Seq<T>, e: Endian, n: int)
    requires n > 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).enc(e).len() == n, each(flat(v, e), e, w, n)
    ensures w.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).enc(e) == v[i].enc(e)
{
    lemma_flat(v, e, n);
    assert(v.len() == w.len()) by (nonlinear_arith) requires n * v.len() == n * w.len(), n > 0;
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] w[i]).enc(e) == v[i].enc(e) by { assert(v[i].enc(e) == flat(v, e).subrange(i * n, i * n + n)); }
}""")
for t, n in INT + FLT:
    p(f"""impl U8conversion<{t}> for {t} {{
    open spec fn enc(&self, e: Endian) -> Seq<u8> {{ ord{n}({bits(t, '*self')}, e) }}
    open spec fn good(b: Seq<u8>) -> bool {{ b.len() == {n} }}
    open spec fn says(b: Seq<u8>, e: Endian, v: {t}) -> bool {{ v.enc(e) == b }}
//# fn @u8conversion to_u8_vec in U8conversion<{t}> for {t} -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<{t}> for {t} -> r
//# before /let res/
    proof {{ assert(u8_vec@.subrange(0, {n}) =~= u8_vec@); }}
//# end
}}
pub proof fn lemma_{t}(x: {t}, y: {t}, e: Endian) requires x.enc(e) == y.enc(e) ensures {'x == y' if t[0] != 'f' else f'{t}_bits(x) == {t}_bits(y)'}
{{ lemma_ord{n}({bits(t,'x')}, {bits(t,'y')}, e);""" + (f" assert(x as u{t[1:]} == y as u{t[1:]} ==> x == y) by (bit_vector);" if t[0] == "i" else "") + " }")
for t, c in RAT:
    p(f"""impl U8conversion<{t}> for {t} {{
    open spec fn enc(&self, e: Endian) -> Seq<u8> {{ self.nominator.enc(e) + self.denominator.enc(e) }}
    open spec fn good(b: Seq<u8>) -> bool {{ b.len() == 8 }}
    open spec fn says(b: Seq<u8>, e: Endian, v: {t}) -> bool {{ v.enc(e) == b }}
//# fn @u8conversion to_u8_vec in U8conversion<{t}> for {t} -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<{t}> for {t} -> r
//# before /Ok\\({t} /
    proof {{ assert(nominator.enc(*endian) + denominator.enc(*endian) =~= u8_vec@); }}
//# end
}}
pub proof fn lemma_{t}(x: {t}, y: {t}, e: Endian) requires x.enc(e) == y.enc(e) ensures x == y {{
    assert(x.enc(e).subrange(0, 4) =~= x.nominator.enc(e)); assert(y.enc(e).subrange(0, 4) =~= y.nominator.enc(e));
    assert(x.enc(e).subrange(4, 8) =~= x.denominator.enc(e)); assert(y.enc(e).subrange(4, 8) =~= y.denominator.enc(e));
    lemma_{c}(x.nominator, y.nominator, e); lemma_{c}(x.denominator, y.denominator, e);
}}""")
for t, n in INT + FLT + [(t, 8) for t, _ in RAT]:
    p(f"""impl U8conversion<Vec<{t}>> for Vec<{t}> {{
    open spec fn enc(&self, e: Endian) -> Seq<u8> {{ flat::<{t}>(self@, e) }}
    open spec fn good(b: Seq<u8>) -> bool {{ b.len() % {n} == 0 }}
    open spec fn says(b: Seq<u8>, e: Endian, v: Vec<{t}>) -> bool {{ each::<{t}>(b, e, v@, {n}) }}
//# fn @u8conversion to_u8_vec in U8conversion<Vec<{t}>> for Vec<{t}> -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == self@, u8_vec@ == flat::<{t}>(self@.take(vx_i0 as int), *endian)
    decreases vx_e0@.len() - vx_i0
//# loop 0 begin
    let ghost vx_b = u8_vec@;
//# loop 0 end
    proof {{ let s = self@.take(vx_i0 as int); assert(s.drop_last() =~= self@.take(vx_i0 - 1)); assert(s.last() == *value); }}
//# loop 0 after
    proof {{ assert(self@.take(vx_i0 as int) =~= self@); }}
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<Vec<{t}>> for Vec<{t}> -> r
//# loop 0
    invariant u8_vec@.len() % {n} == 0, result@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] result@[k]).enc(*endian) == u8_vec@.subrange(k * {n}, k * {n} + {n})
//# end
}}
pub proof fn lemma_len_{t}(v: Vec<{t}>, e: Endian) ensures Vec::<{t}>::good(v.enc(e)), v.enc(e).len() == {n} * v@.len()
{{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == {n} by {{}}
    lemma_flat::<{t}>(v@, e, {n});
}}
pub proof fn lemma_vec_{t}(v: Vec<{t}>, w: Vec<{t}>, e: Endian)
    requires Vec::<{t}>::says(v.enc(e), e, w)
    ensures Vec::<{t}>::good(v.enc(e)), v.enc(e).len() == {n} * v@.len(), {'v@ == w@' if t[0] != 'f' else f'v@.len() == w@.len(), forall|i: int| 0 <= i < v@.len() ==> {t}_bits(#[trigger] w@[i]) == {t}_bits(v@[i])'}
{{
    assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).enc(e).len() == {n} by {{}}
    lemma_flat::<{t}>(v@, e, {n}); lemma_round::<{t}>(v@, w@, e, {n});
    assert forall|i: int| 0 <= i < v@.len() implies {f'{t}_bits(#[trigger] w@[i]) == {t}_bits(v@[i])' if t[0] == 'f' else '#[trigger] w@[i] == v@[i]'} by {{ lemma_{t}(w@[i], v@[i], e); }}
    {'' if t[0] == 'f' else 'assert(v@ =~= w@);'}
}}""")
p("""// ---- text
pub open spec fn trim0(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == 0 { trim0(s.drop_last()) } else { s } }
/// the text of the non-zero bytes, each one character (U+0001..U+00FF) in UTF-8
pub open spec fn latin1(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { latin1(s.drop_last()) + (if s.last() == 0 { Seq::empty() } else { char8(s.last()) }) }
}
pub open spec fn char8(b: u8) -> Seq<u8> { if b < 0x80 { seq![b] } else { seq![(0xc0 + b / 64) as u8, (0x80 + b % 64) as u8] } }
#[verifier::external_body]
pub proof fn axiom_utf8_nul(s: Seq<u8>) requires utf8(s) ensures utf8(s.push(0)) {}
impl VxString {
    #[verifier::external_body]
    pub fn vx_trim_nul(&self) -> (r: VxString) ensures r.b@ == trim0(self.b@) { unimplemented!() }
    pub fn new() -> (r: VxString) ensures r.b@ == Seq::<u8>::empty() { VxString { b: Vec::new() } }
    /// push(byte as char)
    #[verifier::external_body]
    pub fn vx_push_byte(&mut self, b: u8) ensures final(self).b@ == old(self).b@ + char8(b) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_owned(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
impl U8conversion<VxString> for VxString {
    open spec fn enc(&self, e: Endian) -> Seq<u8> { self.b@.push(0) }
    open spec fn good(b: Seq<u8>) -> bool { true }
    open spec fn says(b: Seq<u8>, e: Endian, v: VxString) -> bool { if utf8(b) { v.b@ == trim0(b) } else { v.b@ == latin1(b) } }
//# fn @u8conversion to_u8_vec in U8conversion<String> for String -> r
//# end
//# fn @u8conversion from_u8_vec_res in U8conversion<String> for String -> r
//# loop 0 index
    invariant vx_i0 <= vx_e0@.len(), vx_e0@ == u8_vec@, result.b@ == latin1(u8_vec@.take(vx_i0 as int))
    decreases vx_e0@.len() - vx_i0
//# loop 0 end
    proof { let s = u8_vec@.take(vx_i0 as int); assert(s.drop_last() =~= u8_vec@.take(vx_i0 - 1)); assert(s.last() == *byte); }
//# loop 0 after
    proof { assert(u8_vec@.take(vx_i0 as int) =~= u8_vec@); }
//# end
}
pub proof fn lemma_string(v: VxString, w: VxString, e: Endian)
    requires utf8(v.b@), v.b@.len() > 0 ==> v.b@.last() != 0, VxString::says(v.enc(e), e, w)
    ensures w.b@ == v.b@
{ reveal_with_fuel(trim0, 3); axiom_utf8_nul(v.b@); assert(v.b@.push(0).drop_last() =~= v.b@); }
} // verus!""")
open(f"{R}/proofs/codec.rs", "w").write("\n".join(o) + "\n")

# ---- the tag table
rows = re.findall(r"\((\w+) (0x[0-9a-f]{4}) (\w+) (?:Some\((\d+)\)|None), (true|false) (\w+)\)", open(f"{R}/replay/src/tags.rs").read())
UNK = ["INT8U", "STRING", "INT16U", "INT32U", "RATIONAL64U", "INT8S", "UNDEF", "INT16S", "INT32S", "RATIONAL64S", "FLOAT", "DOUBLE"]
S = [("StripOffsets", "0x0111"), ("StripByteCounts", "0x0117"), ("ThumbnailOffset", "0x0201"), ("ThumbnailLength", "0x0202")]
SP = {"StripOffsets": "_, _", "StripByteCounts": "_", "ThumbnailOffset": "_, _", "ThumbnailLength": "_"}
o = []
p = o.append
p("verus! {")
p(f"// the table of the standard, written down independently of the code: {len(rows)} tags, numbered in this order; 200..203 structural, 300.. unknown by format")
def arms(f, fs, fu):
    return "\n".join([f"    ExifTag::{n}(v) => {f(i, n, h, fm, c, w, g)}," for i, (n, h, fm, c, w, g) in enumerate(rows)]
      + [f"    ExifTag::{n}({SP[n]}) => {fs(i, n, h)}," for i, (n, h) in enumerate(S)]
      + [f"    ExifTag::Unknown{fm}(v, h, g) => {fu(i, fm)}," for i, fm in enumerate(UNK)])
p("impl ExifTag {")
p("pub open spec fn std_row(&self) -> int { match *self {\n" + arms(lambda i,*a: i, lambda i,*a: 200+i, lambda i,*a: 300+i) + "\n} }")
p("pub open spec fn std_hex(&self) -> u16 { match *self {\n" + arms(lambda i,n,h,*a: h, lambda i,n,h: h, lambda i,f: "h") + "\n} }")
p("pub open spec fn std_grp(&self) -> ExifTagGroup { match *self {\n" + arms(lambda i,n,h,fm,c,w,g: "ExifTagGroup::"+g, lambda i,n,h: "ExifTagGroup::GENERIC", lambda i,f: "g") + "\n} }")
p("pub open spec fn std_fmt(&self) -> ExifTagFormat { match *self {\n" + arms(lambda i,n,h,fm,c,w,g: "ExifTagFormat::"+fm, lambda i,n,h: "ExifTagFormat::INT32U", lambda i,f: "ExifTagFormat::"+f) + "\n} }")
p("pub open spec fn std_writable(&self) -> bool { match *self {\n" + arms(lambda i,n,h,fm,c,w,g: w, lambda i,n,h: "true", lambda i,f: "true") + "\n} }")
def ln(f): return "v.b@.len() + 1" if f == "STRING" else "v@.len()"
def cnt(i, n, h, fm, c, w, g):
    if fm == "STRING" or c is None or c == "": return ln(fm)
    return f"if v@.len() > 0 {{ v@.len() }} else {{ {c} }}"
SC = {"StripOffsets": "ExifTag::StripOffsets(_, v) => v@.len()", "StripByteCounts": "ExifTag::StripByteCounts(v) => v@.len()", "ThumbnailOffset": "ExifTag::ThumbnailOffset(_, _) => 1", "ThumbnailLength": "ExifTag::ThumbnailLength(v) => v@.len()"}
p("/// number of components: the length of the value, or the standard's fixed count for an empty one; text counts its NUL")
p("pub open spec fn std_count(&self) -> nat { match *self {\n" + "\n".join([f"    ExifTag::{r[0]}(v) => {cnt(0, *r)}," for r in rows] + ["    " + SC[n] + "," for n, _ in S] + [f"    ExifTag::Unknown{f}(v, _, _) => {ln(f)}," for f in UNK]) + "\n} }")
p("/// the encoded value")
SE = {"StripOffsets": "Seq::empty()", "ThumbnailOffset": "Seq::empty()"}
p("pub open spec fn val(&self, e: Endian) -> Seq<u8> { match *self {\n" + "\n".join([f"    ExifTag::{r[0]}(v) => v.enc(e)," for r in rows]
  + ["    ExifTag::StripOffsets(_, _) => Seq::empty(),", "    ExifTag::StripByteCounts(v) => v.enc(e),", "    ExifTag::ThumbnailOffset(_, _) => Seq::empty(),", "    ExifTag::ThumbnailLength(v) => v.enc(e),"]
  + [f"    ExifTag::Unknown{f}(v, _, _) => v.enc(e)," for f in UNK]) + "\n} }")
T = {"INT8U": "Vec::<u8>", "STRING": "VxString", "INT16U": "Vec::<u16>", "INT32U": "Vec::<u32>", "RATIONAL64U": "Vec::<uR64>", "INT8S": "Vec::<i8>", "UNDEF": "Vec::<u8>", "INT16S": "Vec::<i16>", "INT32S": "Vec::<i32>", "RATIONAL64S": "Vec::<iR64>", "FLOAT": "Vec::<f32>", "DOUBLE": "Vec::<f64>"}
p("/// the value is what these bytes say (offset tags hold no data yet)")
p("pub open spec fn val_says(&self, b: Seq<u8>, e: Endian) -> bool { match *self {\n" + "\n".join([f"    ExifTag::{r[0]}(v) => {T[r[2]]}::says(b, e, v)," for r in rows]
  + ["    ExifTag::StripOffsets(v, d) => Vec::<u32>::says(b, e, v) && d@.len() == 0,", "    ExifTag::StripByteCounts(v) => Vec::<u32>::says(b, e, v),", "    ExifTag::ThumbnailOffset(v, d) => Vec::<u32>::says(b, e, v) && d@.len() == 0,", "    ExifTag::ThumbnailLength(v) => Vec::<u32>::says(b, e, v),"]
  + [f"    ExifTag::Unknown{f}(v, _, _) => {T[f]}::says(b, e, v)," for f in UNK]) + "\n} }")
def empty(f): return "v.b@.len() == 0" if f == "STRING" else "v@.len() == 0"
p("pub open spec fn std_empty(&self) -> bool { match *self {\n" + "\n".join([f"    ExifTag::{r[0]}(v) => {empty(r[2])}," for r in rows]
  + ["    ExifTag::StripOffsets(v, d) => v@.len() == 0 && d@.len() == 0,", "    ExifTag::StripByteCounts(v) => v@.len() == 0,", "    ExifTag::ThumbnailOffset(v, d) => v@.len() == 0 && d@.len() == 0,", "    ExifTag::ThumbnailLength(v) => v@.len() == 0,"]
  + [f"    ExifTag::Unknown{f}(v, _, _) => {empty(f)}," for f in UNK]) + "\n} }")
p("pub open spec fn is_struct(&self) -> bool { 200 <= self.std_row() < 204 }")
p("pub open spec fn unknown(&self) -> bool { self.std_row() >= 300 }")
p("/// text is text, and does not end in the NUL that ends it in the file")
p("pub open spec fn plain(&self) -> bool { match *self {\n" + "\n".join([f"    ExifTag::{r[0]}(v) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0)," for r in rows if r[2] == "STRING"] + ["    ExifTag::UnknownSTRING(v, _, _) => utf8(v.b@) && (v.b@.len() > 0 ==> v.b@.last() != 0),", "    _ => true,"]) + "\n} }")
p("}")
p("/// the row for a number and group, -1 if there is none")
p("pub open spec fn row_of(h: u16, g: ExifTagGroup) -> int {\n    " + "\n    else ".join(f"if h == {r[1]} && g == ExifTagGroup::{r[5]} {{ {i} }}" for i, r in enumerate(rows)) + "\n    " + "\n    ".join(f"else if h == {h} {{ {200+i} }}" for i, (n, h) in enumerate(S)) + "\n    else { -1 }\n}")
p("/// the row's format")
p("pub open spec fn row_fmt(i: int) -> ExifTagFormat {\n    " + "\n    else ".join(f"if i == {i} {{ ExifTagFormat::{r[2]} }}" for i, r in enumerate(rows)) + "\n    else if 200 <= i < 204 { ExifTagFormat::INT32U }\n    " + "\n    ".join(f"else if i == {300+i} {{ ExifTagFormat::{f} }}" for i, f in enumerate(UNK)) + "\n    else { ExifTagFormat::UNDEF }\n}")
p("/// the row's group")
p("pub open spec fn row_grp(i: int) -> ExifTagGroup {\n    " + "\n    else ".join(f"if i == {i} {{ ExifTagGroup::{r[5]} }}" for i, r in enumerate(rows)) + "\n    else { ExifTagGroup::GENERIC }\n}")
p("pub proof fn lemma_row_grp(t: ExifTag) requires t.std_row() < 300 ensures t.std_grp() == row_grp(t.std_row()) {}")
p("/// the format that the table gives for a number and group, the given one if there is no row")
p("pub open spec fn fmt_of(h: u16, g: ExifTagGroup, d: ExifTagFormat) -> ExifTagFormat {\n    " + "\n    else ".join(f"if h == {r[1]} && g == ExifTagGroup::{r[5]} {{ ExifTagFormat::{r[2]} }}" for i, r in enumerate(rows)) + "\n    " + "\n    ".join(f"else if h == {h} {{ ExifTagFormat::INT32U }}" for i, (n, h) in enumerate(S)) + "\n    else { d }\n}")
p("pub open spec fn code_of(f: ExifTagFormat) -> u16 { match f { " + ", ".join(f"ExifTagFormat::{f} => {i+1}" for i, f in enumerate(UNK)) + " } }")
p("pub open spec fn unknown_row(f: ExifTagFormat) -> int { 299 + code_of(f) }")
p("pub open spec fn size_of_fmt(f: ExifTagFormat) -> int { match f { " + ", ".join(f"ExifTagFormat::{f} => {n}" for f, n in zip(UNK, [1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8])) + " } }")
p("pub open spec fn fits(f: ExifTagFormat, b: Seq<u8>) -> bool { b.len() % (size_of_fmt(f) as nat) == 0 }")
p("// number and group determine the row")
p("pub proof fn lemma_row(t: ExifTag) requires t.std_row() < 300 ensures t.is_struct() ==> row_of(t.std_hex(), t.std_grp()) == t.std_row(), !t.is_struct() ==> row_of(t.std_hex(), t.std_grp()) == t.std_row(), row_fmt(t.std_row()) == t.std_fmt(), fmt_of(t.std_hex(), t.std_grp(), t.std_fmt()) == t.std_fmt() {}")
def eqv(f): return {"STRING": "v.b@ == w.b@", "FLOAT": "v@.len() == w@.len() && forall|i: int| 0 <= i < v@.len() ==> f32_bits(#[trigger] w@[i]) == f32_bits(v@[i])",
   "DOUBLE": "v@.len() == w@.len() && forall|i: int| 0 <= i < v@.len() ==> f64_bits(#[trigger] w@[i]) == f64_bits(v@[i])"}.get(f, "v@ == w@")
L = {k: "lemma_string" if k == "STRING" else "lemma_vec_" + v.replace("Vec::<", "")[:-1] for k, v in T.items()}
def bodyarm(n, f, u): return f"    ExifTag::{n}(v{u}) => {{ if let ExifTag::{n}(w{u}) = r {{ {L[f]}(v, w, e); }} }}"
p("/// the same tag with the same value (floats bit for bit)")
p("pub open spec fn same(t: ExifTag, r: ExifTag) -> bool { match t {\n" + "\n".join([f"    ExifTag::{r[0]}(v) => r matches ExifTag::{r[0]}(w) && ({eqv(r[2])})," for r in rows]
  + ["    ExifTag::StripOffsets(v, d) => r matches ExifTag::StripOffsets(w, x) && v@ == w@ && d@ == x@,", "    ExifTag::StripByteCounts(v) => r matches ExifTag::StripByteCounts(w) && v@ == w@,", "    ExifTag::ThumbnailOffset(v, d) => r matches ExifTag::ThumbnailOffset(w, x) && v@ == w@ && d@ == x@,", "    ExifTag::ThumbnailLength(v) => r matches ExifTag::ThumbnailLength(w) && v@ == w@,"]
  + [f"    ExifTag::Unknown{f}(v, h, g) => r matches ExifTag::Unknown{f}(w, h2, g2) && h == h2 && g == g2 && ({eqv(f)})," for f in UNK]) + "\n} }")
p("""/// P11: rebuilding from number, group, format and encoded data gives the same tag with the same value
#[verifier::spinoff_prover]
pub proof fn lemma_rebuild(t: ExifTag, r: ExifTag, e: Endian)
    requires !t.is_struct(), t.plain(), r.std_row() == t.std_row(), r.std_hex() == t.std_hex(), r.std_grp() == t.std_grp(), r.val_says(t.val(e), e)
    ensures same(t, r)
{ match t {
""" + "\n".join([bodyarm(r[0], r[2], "") for r in rows] + ["    ExifTag::StripOffsets(_, _) => {}", "    ExifTag::StripByteCounts(_) => {}", "    ExifTag::ThumbnailOffset(_, _) => {}", "    ExifTag::ThumbnailLength(_) => {}"] + [bodyarm("Unknown" + f, f, ", _, _") for f in UNK]) + "\n} }")
def lenarm(n, f, u): return f"    ExifTag::{n}(v{u}) => {{ {'' if f == 'STRING' else 'lemma_len_' + T[f].replace('Vec::<', '')[:-1] + '(v, e);'} }}"
p("""/// the encoded value has the format's size per component
#[verifier::spinoff_prover]
pub proof fn lemma_size(t: ExifTag, e: Endian)
    ensures fits(t.std_fmt(), t.val(e)), !t.is_struct() && !(t.std_empty() && t.std_fmt() != ExifTagFormat::STRING) ==> t.val(e).len() == size_of_fmt(t.std_fmt()) * t.std_count()
{ match t {
""" + "\n".join([lenarm(r[0], r[2], "") for r in rows] + ["    ExifTag::StripOffsets(_, _) => {}", "    ExifTag::StripByteCounts(v) => { lemma_len_u32(v, e); }", "    ExifTag::ThumbnailOffset(_, _) => {}", "    ExifTag::ThumbnailLength(v) => { lemma_len_u32(v, e); }"] + [lenarm("Unknown" + f, f, ", _, _") for f in UNK]) + "\n} }")
p("""/// a value without components has no bytes
#[verifier::spinoff_prover]
pub proof fn lemma_empty(t: ExifTag, e: Endian)
    requires t.std_empty(), t.std_fmt() != ExifTagFormat::STRING
    ensures t.val(e).len() == 0
{ match t {
""" + "\n".join([lenarm(r[0], r[2], "") for r in rows] + ["    ExifTag::StripOffsets(_, _) => {}", "    ExifTag::StripByteCounts(v) => { lemma_len_u32(v, e); }", "    ExifTag::ThumbnailOffset(_, _) => {}", "    ExifTag::ThumbnailLength(v) => { lemma_len_u32(v, e); }"] + [lenarm("Unknown" + f, f, ", _, _") for f in UNK]) + "\n} }")
p("} // verus!")
import re
fm = [l for l in o if re.match(r"pub open spec fn (code_of|unknown_row|size_of_fmt|fits)\(", l)]
o = [l for l in o if l not in fm]
open(f"{R}/proofs/exif_std.rs", "w").write("\n".join(o) + "\n")
open(f"{R}/proofs/fmt_std.rs", "w").write("verus! {\n" + "\n".join(fm) + "\n}\n")
