//! P05: the RIFF container after writing and clearing; P06: the canvas size of converted images
use crate::jxl::decoded;
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension as F;
use little_exif::metadata::Metadata;

#[derive(Clone)]
struct C { name: [u8; 4], raw: Vec<u8> }       // raw: header, payload and padding
impl C { fn is(&self, n: &[u8; 4]) -> bool { self.name.eq_ignore_ascii_case(n) } fn payload(&self) -> &[u8] { &self.raw[8..] } }
struct W { chunks: Vec<C>, tail: Vec<u8> }
fn parse(s: &[u8]) -> Option<W> {
    if s.len() < 12 || &s[..4] != b"RIFF" || &s[8..12] != b"WEBP" || u32::from_le_bytes(s[4..8].try_into().unwrap()) as usize + 8 != s.len() { return None; }
    let (mut chunks, mut p) = (vec![], 12);
    while s.len() - p >= 8 {
        let n = u32::from_le_bytes(s[p + 4..p + 8].try_into().unwrap()) as usize; let e = p + 8 + n + n % 2;
        if e > s.len() || std::str::from_utf8(&s[p..p + 4]).is_err() { return None; }
        chunks.push(C { name: s[p..p + 4].try_into().unwrap(), raw: s[p..e].to_vec() }); p = e;
    }
    Some(W { chunks, tail: s[p..].to_vec() })
}
impl W {
    fn bytes(&self) -> Vec<u8> {
        let b: Vec<u8> = self.chunks.iter().flat_map(|c| c.raw.clone()).chain(self.tail.clone()).collect();
        let mut v = b"RIFF".to_vec(); v.extend((b.len() as u32 + 4).to_le_bytes()); v.extend(b"WEBP"); v.extend(b); v
    }
}
fn clear(s: &[u8]) -> Option<W> {
    let mut w = parse(s)?;
    let f = w.chunks.first()?.clone();
    let simple = &f.name == b"VP8 " || &f.name == b"VP8L";
    if !simple && (!f.is(b"VP8X") || f.payload().len() < 4) { return None; }
    w.chunks.retain(|c| !c.is(b"EXIF"));
    if !simple { w.chunks[0].raw[8] &= !8; }
    Some(w)
}
/// width - 1 and height - 1, from the bitstream
fn dims(c: &C) -> Option<(u32, u32)> {
    let p = c.payload();
    if &c.name == b"VP8L" { let b = p.get(1..5)?; Some((b[0] as u32 | (b[1] as u32 & 0x3f) << 8, (b[1] as u32) >> 6 | (b[2] as u32) << 2 | (b[3] as u32 & 0xf) << 10)) }
    else if p.get(3..6)? == [0x9d, 1, 0x2a] { let b = p.get(6..10)?; Some(((b[0] as u32 | (b[1] as u32 & 0x3f) << 8).checked_sub(1)?, (b[2] as u32 | (b[3] as u32 & 0x3f) << 8).checked_sub(1)?)) }
    else { None }
}
fn vp8x(d: (u32, u32), flags: u8) -> C {
    let mut raw = b"VP8X\x0a\0\0\0".to_vec(); raw.extend([flags, 0, 0, 0]); raw.extend(&d.0.to_le_bytes()[..3]); raw.extend(&d.1.to_le_bytes()[..3]);
    C { name: *b"VP8X", raw }
}
const BEFORE: [&[u8; 4]; 7] = [b"VP8X", b"VP8 ", b"VP8L", b"ICCP", b"ALPH", b"ANIM", b"ANMF"];
fn exif(x: &[u8]) -> C { chunk(b"EXIF", x) }
fn chunk(n: &[u8; 4], x: &[u8]) -> C { let mut raw = n.to_vec(); raw.extend((x.len() as u32).to_le_bytes()); raw.extend(x); if x.len() % 2 == 1 { raw.push(0); } C { name: *n, raw } }
fn write(s: &[u8], x: &[u8]) -> Option<W> {
    let mut w = clear(s)?;
    let at = w.chunks.iter().position(|c| !BEFORE.iter().any(|b| c.is(b))).unwrap_or(w.chunks.len());
    w.chunks.insert(at, exif(x));
    if w.chunks[0].is(b"VP8X") { w.chunks[0].raw[8] |= 8; } else { let d = dims(&w.chunks[0])?; w.chunks.insert(0, vp8x(d, 8)); }
    Some(w)
}
fn found(s: &[u8]) -> Option<Vec<u8>> {
    let w = parse(s)?;
    let f = w.chunks.first()?;
    if !f.is(b"VP8X") || w.chunks[0].raw.len() + w.chunks.iter().skip(1).map(|c| c.raw.len()).sum::<usize>() + w.tail.len() < 12 || s[20] & 8 == 0 { return None; }
    for c in &w.chunks {
        if c.name[3] == 0 { return None; }      // names that end in NUL are not recognised while searching
        if c.is(b"EXIF") { return Some(c.payload().to_vec()); }
    }
    None
}
fn meta_of(n: usize) -> Metadata { let mut m = Metadata::new(); if n > 0 { m.set_tag(ExifTag::ImageDescription("a".repeat(n))); } m }
/// metadata whose encoding has an odd length: none, so the odd ones come from XPComment-like byte tags
fn odd(n: usize) -> Metadata { let mut m = Metadata::new(); m.set_tag(ExifTag::UserComment(vec![7; n])); m }

fn compare(what: &str, want: Option<Vec<u8>>, got: Vec<u8>, r: Result<(), std::io::Error>) -> Result<bool, String> {
    match (want, r) {
        (Some(w), Ok(())) => { diff(what, &w, &got)?; Ok(true) }
        (None, Err(_)) => Ok(false),
        (Some(_), Err(e)) => Err(format!("{what}: failed: {e}")),
        (None, Ok(())) => Err(format!("{what}: succeeded on data that is no intact WebP")),
    }
}
pub fn check(c: &Case) -> Res {
    let s = &c.d[0];
    match c.op.as_str() {
        "clear" => {
            let want = clear(s).map(|w| w.bytes());
            let mut got = s.clone(); let r = Metadata::clear_metadata(&mut got, F::WEBP);
            let ok = compare("cleared data", want.clone(), got, r)?;
            Ok(ok && want.as_ref() != Some(s))
        }
        "read" => {
            let want = found(s).and_then(|p| decoded(&p));
            let got = Metadata::new_from_vec(s, F::WEBP).ok().map(|m| format!("{m:?}"));
            if want == got { Ok(want.is_some()) } else { Err(format!("reading: expected {want:?}, got {got:?}").chars().take(600).collect()) }
        }
        "seq" => {      // num: a list of operations: -1 clears, otherwise a write of that size
            let (mut want, mut got, mut any) = (s.clone(), s.clone(), false);
            for n in &c.n {
                if *n < 0 {
                    let w = clear(&want).map(|w| w.bytes()); let r = Metadata::clear_metadata(&mut got, F::WEBP);
                    if !compare("cleared data", w.clone(), got.clone(), r)? { break; }
                    want = w.unwrap();
                } else {
                    let m = if n % 3 == 0 { odd(*n as usize) } else { meta_of(*n as usize) }; let x = encoding(&m)?;
                    let w = write(&want, &x).map(|w| w.bytes()); let r = m.write_to_vec(&mut got, F::WEBP);
                    if !compare("written data", w.clone(), got.clone(), r)? { break; }
                    want = w.unwrap(); any = true;
                    let back = Metadata::new_from_vec(&got, F::WEBP).map_err(|e| format!("cannot read back: {e}"))?;
                    diff("metadata read back", &x, &encoding(&back)?)?;
                    let p = parse(&got).ok_or("the written data is no intact WebP")?;
                    if p.chunks.iter().filter(|c| c.is(b"EXIF")).count() != 1 { return Err("not exactly one EXIF chunk".into()); }
                }
            }
            Ok(any)
        }
        "lower" => {      // what the proof assumes about str::to_lowercase, for one character
            let ch = match char::from_u32(c.n[0] as u32) { Some(x) => x, None => return Ok(false) };
            let l = ch.to_string().to_lowercase();
            if ch.is_ascii() { if l != ch.to_ascii_lowercase().to_string() { return Err("ASCII lower case".into()); } }
            else if l.bytes().all(|b| b < 0x80 && b != 0x6b) { return Err("a non-ASCII character has an ASCII lower case".into()); }
            Ok(true)
        }
        "payload" => {      // as_u8_vec: the EXIF chunk by itself
            let m = if c.n[0] % 3 == 0 { odd(c.n[0] as usize) } else { meta_of(c.n[0] as usize) };
            let got = m.as_u8_vec(F::WEBP).map_err(|e| format!("as_u8_vec failed: {e}"))?;
            diff("the EXIF chunk", &exif(&encoding(&m)?).raw, &got)?; Ok(true)
        }
        _ => {      // "convert" num: lossless, width-1, height-1, scale/alpha bits, size
            let img = image(c.n[0] != 0, c.n[1] as u32, c.n[2] as u32, c.n[3] as u32, &c.d[1]);
            let mut v = s.clone(); let src = W { chunks: vec![img.clone()], tail: vec![] }.bytes();
            v.clear(); v.extend(src);
            let m = meta_of(c.n[4] as usize);
            m.write_to_vec(&mut v, F::WEBP).map_err(|e| format!("write failed: {e}"))?;
            let w = parse(&v).ok_or("the written data is no intact WebP")?;
            if w.chunks.len() != 3 || !w.chunks[0].is(b"VP8X") || w.chunks[0].payload().len() != 10 { return Err("the written data is not VP8X, image, EXIF".into()); }
            let p = w.chunks[0].payload();
            let (gw, gh) = (u32::from_le_bytes([p[4], p[5], p[6], 0]), u32::from_le_bytes([p[7], p[8], p[9], 0]));
            if (gw as i64, gh as i64) != (c.n[1], c.n[2]) { return Err(format!("the image is {}x{}, its canvas {}x{}", c.n[1] + 1, c.n[2] + 1, gw + 1, gh + 1)); }
            diff("image data", &img.raw, &w.chunks[1].raw)?;
            diff("the EXIF chunk", &exif(&encoding(&m)?).raw, &w.chunks[2].raw)?;
            Ok(true)
        }
    }
}
/// a bitstream chunk that states these dimensions
fn image(lossless: bool, w: u32, h: u32, bits: u32, rest: &[u8]) -> C {
    if lossless { let mut x = vec![0x2f]; x.extend((w | h << 14 | (bits & 0xf) << 28).to_le_bytes()); x.extend(rest); chunk(b"VP8L", &x) }
    else { let mut x = vec![0x10, 2, 0, 0x9d, 1, 0x2a]; x.extend(((w + 1) as u16 | ((bits & 3) << 14) as u16).to_le_bytes()); x.extend(((h + 1) as u16 | ((bits >> 2 & 3) << 14) as u16).to_le_bytes()); x.extend(rest); chunk(b"VP8 ", &x) }
}
fn pieces() -> Vec<Vec<u8>> {
    let x = meta_of(3).encode().unwrap();
    vec![vp8x((3, 4), 8).raw, vp8x((3, 4), 0xff).raw, vp8x((3, 4), 0).raw, chunk(b"vp8x", &[8, 0, 0, 0]).raw, chunk(b"VP8X", &[8, 0, 0]).raw, chunk(b"VP8X", &[]).raw,
        image(true, 5, 9, 1, b"ab").raw, image(false, 5, 9, 5, b"a").raw, chunk(b"VP8L", b"\x2f123").raw, chunk(b"VP8 ", &[0; 10]).raw, chunk(b"vp8l", b"\x2f12345").raw,
        exif(&x).raw, exif(b"odd").raw, chunk(b"exif", b"low").raw, exif(b"").raw, chunk(b"ICCP", b"p").raw, chunk(b"XMP ", b"<x/>").raw, chunk(b"abc\0", b"1").raw, chunk(b"EXI\xc4", b"").raw, chunk(b"ANMF", b"EXIF\x01\0\0\0").raw,
        chunk("\u{212a}ab\u{1}".as_bytes()[..4].try_into().unwrap(), b"1").raw, chunk(b"ALPH", b"\xff\xff\xff\xff").raw, b"EXIF\xff\xff\xff\xff".to_vec(), b"EXIF\x09\0\0\0abc".to_vec(), b"VP8 \x01\0\0\0".to_vec(), b"tail".to_vec()]
}
fn riff(body: &[u8]) -> Vec<u8> { let mut v = b"RIFF".to_vec(); v.extend((body.len() as u32 + 4).to_le_bytes()); v.extend(b"WEBP"); v.extend(body); v }
pub fn random_webp(r: &mut Rng) -> Vec<u8> {
    let ps = pieces();
    let mut b = vec![];
    b.extend(match r.below(6) { 0 => ps[6].clone(), 1 => ps[7].clone(), 2 => { let k = r.below(12); let mut p = r.bytes(4 + k); p[0] |= 8; chunk(b"VP8X", &p).raw } _ => vp8x((r.below(1 << 24) as u32, r.below(1 << 24) as u32), r.u8()).raw });
    for _ in 0..r.below(7) {
        match r.below(5) {
            0 => b.extend(r.pick(&ps)),
            1 => { let k = r.below(40); let x = r.bytes(k); b.extend(exif(&x).raw) }
            2 => { let k = r.below(60); b.extend(exif(&meta_of(k).encode().unwrap()).raw) }
            3 => { let n = **r.pick(&BEFORE); let k = r.below(30); let x = r.bytes(k); b.extend(chunk(&n, &x).raw) }
            _ => { let k = r.below(30); let x = r.bytes(k); let n = [r.u8() & 0x7f, r.u8() & 0x7f, r.u8() & 0x7f, r.u8() & 0x7f]; b.extend(chunk(&n, &x).raw) }
        }
    }
    if r.chance(1, 6) { let k = r.below(8); b.extend(r.bytes(k)); }
    if r.chance(1, 8) { let k = r.below(b.len()); b.truncate(k); }
    let mut v = riff(&b);
    match r.below(10) {
        0 => { let k = r.below(v.len()); v[k] = r.u8(); }
        1 => { let k = r.below(v.len()); v[k] = *r.pick(&[0u8, 1, 7, 8, 0x45, 0x65, 0xff]); }
        2 => { let k = r.below(v.len() + 1); v.truncate(k); }
        _ => {}
    }
    v
}
fn all(s: &mut Search, v: &[u8], n: i64) -> bool {
    for op in ["clear", "read", "seq"] { if !s.case(Case::new("P05", op).data(v).num(n).num(-1).num(n + 1)) { return false; } }
    true
}
pub fn gen_p05(s: &mut Search) {
    for c in 0..0x110000 { if !s.case(Case::new("P05", "lower").data(&[]).num(c)) { return; } }
    let ps = pieces(); let n = ps.len();
    for a in 0..n { for b in 0..=n { for e in 0..=n {
        if b == n && e < n { continue; }
        let mut v = vec![]; for k in [a, b, e] { if k < n { v.extend(&ps[k]); } }
        if !all(s, &riff(&v), 5) { return; }
        if b == n { let w = riff(&v); for k in 0..w.len() { if !all(s, &w[..k], 4) { return; } let mut y = w.clone(); for x in [0u8, 1, 0xff] { y[k] = x; if !all(s, &y, 4) { return; } } } }
    } } }
    s.notes.push(format!("all sequences of 1 to 3 of {n} chunk pieces, truncations and byte changes of single ones"));
    for k in (0..300).chain(65500..65560) {
        if !s.case(Case::new("P05", "payload").data(&[]).num(k)) { return; }
        let mut v = vp8x((1, 1), 0).raw; v.extend(chunk(b"VP8L", &vec![0x2f; k as usize % 77]).raw); v.extend(chunk(b"XMP ", &vec![0x20; k as usize]).raw);
        if !s.case(Case::new("P05", "seq").data(&riff(&v)).num(k).num(k / 2).num(-1).num(k)) { return; }
    }
    while s.more() {
        let v = random_webp(&mut s.rng);
        let op = *s.rng.pick(&["clear", "read", "seq", "seq"]);
        let mut c = Case::new("P05", op).data(&v);
        for _ in 0..1 + s.rng.below(4) { let k = if s.rng.chance(1, 4) { -1 } else { s.rng.below(90) as i64 }; c = c.num(k); }
        if !s.case(c) { return; }
    }
}
pub fn gen_p06(s: &mut Search) {
    let mk = |l: bool, w: u32, h: u32, b: u32, k: usize, n: i64| Case::new("P06", "convert").data(&[]).data(&vec![0xa5; k]).num(l as i64).num(w as i64).num(h as i64).num(b as i64).num(n);
    for l in [true, false] {
        let top = if l { 0x4000 } else { 0x3fff };
        for w in 0..top { for h in [0, w, top - 1 - w] { if !s.case(mk(l, w, h, w ^ h >> 3, (w % 5) as usize, 3)) { return; } if !s.case(mk(l, h, w, 0, 0, 0)) { return; } } }
    }
    s.notes.push("every width and every height, lossless and lossy".into());
    let heads: [[u8; 4]; 6] = [*b"VP8L", *b"VP8 ", *b"vp8l", *b"VP8x", *b"ALPH", *b"EXIF"];
    for h in heads { for k in 0..14 { for fill in [0u8, 0x9d, 0xff] {
        let v = riff(&chunk(&h, &vec![fill; k]).raw);
        if !s.case(Case::new("P06", "seq").data(&v).num(4).num(4)) { return; }
    } } }
    while s.more() {
        if s.rng.chance(1, 2) {
            let l = s.rng.chance(1, 2); let (w, h) = (s.rng.below(0x3fff) as u32, s.rng.below(0x3fff) as u32); let b = s.rng.below(16) as u32; let k = s.rng.below(40); let n = s.rng.below(50) as i64;
            if !s.case(mk(l, w, h, b, k, n)) { return; }
        } else {
            let k = s.rng.below(16); let mut x = s.rng.bytes(k); if k >= 6 && s.rng.chance(3, 4) { x[3] = 0x9d; x[4] = 1; x[5] = 0x2a; }
            let mut b = chunk(if s.rng.chance(1, 2) { b"VP8L" } else { b"VP8 " }, &x).raw;
            for _ in 0..s.rng.below(3) { b.extend(chunk(*s.rng.pick(&[b"XMP ", b"EXIF", b"ALPH", b"junk"]), b"123").raw); }
            let (x, y) = (s.rng.below(30) as i64, s.rng.below(30) as i64);
            if !s.case(Case::new("P06", "seq").data(&riff(&b)).num(x).num(y)) { return; }
        }
    }
}
