use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension as F;
use little_exif::metadata::Metadata;

pub const PNG: F = F::PNG { as_zTXt_chunk: true };
const SIG: [u8; 8] = [0x89, b'P', b'N', b'G', 13, 10, 26, 10];
const RAW: &[u8] = b"Raw profile type exif";
const XMP: &[u8] = b"XML:com.adobe.xmp";
/// XMP packets and what remains of them
const PACKETS: [(&str, &str); 3] = [
    ("<x a=\"1\" exif:b=\"2\"/>", "<x a=\"1\"/>"),
    ("<r><exif:A>t</exif:A><k>v</k></r>", "<r><k>v</k></r>"),
    ("<r>plain exif: text</r>", "<r>plain exif: text</r>"),
];

pub fn crc(b: &[u8]) -> u32 { crc::Crc::<u32>::new(&crc::CRC_32_ISO_HDLC).checksum(b) }
pub fn chunk(name: &[u8], d: &[u8]) -> Vec<u8> {
    let mut v = (d.len() as u32).to_be_bytes().to_vec();
    let mut t = name.to_vec(); t.extend(d);
    v.extend(&t); v.extend(crc(&t).to_be_bytes()); v
}
/// (name, content) of every chunk up to the end chunk, and what follows it
pub fn chunks(s: &[u8]) -> Option<(Vec<([u8; 4], Vec<u8>)>, Vec<u8>)> {
    if !s.starts_with(&SIG) { return None; }
    let (mut p, mut v) = (8usize, vec![]);
    loop {
        let h = s.get(p..p + 8)?;
        let l = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
        let d = s.get(p + 8..p + 8 + l)?;
        let c = u32::from_be_bytes(s.get(p + 8 + l..p + 12 + l)?.try_into().unwrap());
        let name: [u8; 4] = h[4..].try_into().unwrap();
        if std::str::from_utf8(&name).is_err() || crc(&s[p + 4..p + 8 + l]) != c { return None; }
        v.push((name, d.to_vec()));
        p += 12 + l;
        if &name == b"IEND" { return Some((v, s[p..].to_vec())); }
    }
}
fn text(n: &[u8; 4]) -> bool { [b"tEXt", b"zTXt", b"iTXt"].contains(&n) }
fn keyword(d: &[u8]) -> &[u8] { let k = d.iter().position(|x| *x == 0).unwrap_or(d.len()); &d[..k] }
fn is_exif(n: &[u8; 4], d: &[u8]) -> bool { n == b"eXIf" || text(n) && keyword(d) == RAW }
fn inflate(d: &[u8]) -> Option<Vec<u8>> { miniz_oxide::inflate::decompress_to_vec_zlib(d).ok() }
fn deflate(d: &[u8]) -> Vec<u8> { miniz_oxide::deflate::compress_to_vec_zlib(d, 8) }
/// start of the text, and whether it is compressed
fn text_start(n: &[u8; 4], d: &[u8]) -> Option<(usize, bool)> {
    let k = keyword(d).len();
    match n {
        b"tEXt" => if k < d.len() { Some((k + 1, false)) } else { None },
        b"zTXt" => if *d.get(k + 1)? == 0 { Some((k + 2, true)) } else { None },
        _ => {
            let (f, m) = (*d.get(k + 1)?, *d.get(k + 2)?);
            let a = k + 3 + d.get(k + 3..)?.iter().position(|x| *x == 0)? + 1;
            let b = a + d.get(a..)?.iter().position(|x| *x == 0)? + 1;
            if f == 0 { Some((b, false)) } else if m == 0 { Some((b, true)) } else { None }
        }
    }
}
fn text_of(n: &[u8; 4], d: &[u8]) -> Option<Vec<u8>> {
    let (k, z) = text_start(n, d)?;
    if z { inflate(&d[k..]) } else { Some(d[k..].to_vec()) }
}
/// Err(()): no statement about this input (an XMP text whose cleaning is P23's business)
fn reference_clear(s: &[u8]) -> Result<Option<Vec<u8>>, ()> {
    let Some((cs, tail)) = chunks(s) else { return Ok(None) };
    let mut out = SIG.to_vec();
    for (n, d) in &cs {
        if is_exif(n, d) { continue; }
        if text(n) && keyword(d) == XMP {
            let Some((k, z)) = text_start(n, d) else { return Ok(None) };
            let Some(t) = text_of(n, d) else { return Ok(None) };
            let Some((_, clean)) = PACKETS.iter().find(|x| x.0.as_bytes() == t || x.1.as_bytes() == t) else { return Err(()) };
            let mut d2 = d[..k].to_vec();
            if z { d2.extend(deflate(clean.as_bytes())); } else { d2.extend(clean.as_bytes()); }
            out.extend(chunk(n, &d2));
        } else { out.extend(chunk(n, d)); }
    }
    out.extend(tail);
    Ok(Some(out))
}

// ---- raw profile ---------------------------------------------------------------------------------------------------------
pub fn raw_encode(x: &[u8]) -> Option<Vec<u8>> {
    let n = format!("{}", x.len() + 7);
    if n.len() > 8 { return None; }
    let mut v = b"\nexif\n".to_vec();
    v.extend(format!("{n:>8}\n").bytes());
    for b in b"Exif\0\0".iter().chain(x).chain(&[0u8]) { v.extend(format!("{b:02x}").bytes()); }
    v.push(b'\n');
    Some(v)
}
/// decoding, as the property states it: pairs of characters with line feeds left out; pairs that are no number are
/// skipped; everything behind the size that precedes the EXIF or TIFF header; None: malformed
pub fn raw_decode(t: &[u8]) -> Option<Vec<u8>> {
    let c: Vec<u8> = t.iter().copied().filter(|b| *b != b'\n').collect();
    if c.len() % 2 == 1 { return None; }
    let mut o = vec![];
    for p in c.chunks(2) {
        let s: String = p.iter().map(|b| *b as char).collect();
        if let Ok(v) = u8::from_str_radix(s.trim(), 16) { o.push(v); }
    }
    let k = (0..=o.len()).find(|k| { let r = &o[*k..]; r.starts_with(b"Exif\0\0") || r.starts_with(&[0x49, 0x49, 0x2a, 0]) || r.starts_with(&[0x4d, 0x4d, 0, 0x2a]) })?;
    if k == 0 { return None; }
    let mut n: u64 = 0;
    for b in &o[k.saturating_sub(4)..k] {
        if b / 16 > 9 || b % 16 > 9 { return None; }
        n = n * 100 + (b / 16 * 10 + b % 16) as u64;
    }
    if n != (o.len() - k) as u64 { return None; }
    Some(o[k..].to_vec())
}
pub fn reference_found(s: &[u8]) -> Option<Vec<u8>> {
    let (cs, _) = chunks(s)?;
    let (n, d) = cs.iter().find(|(n, d)| is_exif(n, d))?;
    if n == b"eXIf" { Some(d.clone()) } else { raw_decode(&text_of(n, d)?) }
}
fn meta_of(n: usize) -> Metadata { let mut m = Metadata::new(); if n > 0 { m.set_tag(ExifTag::ImageDescription("a".repeat(n))); } m }
fn check_read(s: &Vec<u8>) -> Res {
    let want = reference_found(s).and_then(|p| crate::jxl::decoded(&p));
    let got = Metadata::new_from_vec(s, PNG).ok().map(|m| format!("{m:?}"));
    if want == got { Ok(want.is_some()) } else { Err(format!("reading: expected {want:?}, got {got:?}").chars().take(600).collect()) }
}
pub fn check_p03(c: &Case) -> Res {
    let s = &c.d[0];
    let Ok(cleared) = reference_clear(s) else { return match Metadata::clear_metadata(&mut s.clone(), PNG) { _ => Ok(false) } };
    match c.op.as_str() {
        "clear" => {
            let mut got = s.clone();
            match (&cleared, Metadata::clear_metadata(&mut got, PNG)) {
                (Some(w), Ok(())) => { diff("cleared data", w, &got)?; Ok(w != s) }
                (None, Err(_)) => Ok(false),
                (Some(_), Err(e)) => Err(format!("clearing failed: {e}")),
                (None, Ok(())) => Err("clearing succeeded on data that is no intact PNG".into()),
            }
        }
        _ => {
            let m = meta_of(c.n[0] as usize);
            let x = encoding(&m)?;
            let want = cleared.map(|w| {
                let e = 20 + u32::from_be_bytes(w[8..12].try_into().unwrap()) as usize;
                let mut d = RAW.to_vec(); d.extend([0, 0]); d.extend(deflate(&raw_encode(&x).unwrap()));
                (e, [&w[..e], &chunk(b"zTXt", &d)[..], &w[e..]].concat())
            });
            let mut got = s.clone();
            match (&want, m.write_to_vec(&mut got, PNG)) {
                (Some((e, w)), Ok(())) => {
                    // where the compressed bytes differ, their meaning has to be the same
                    if *w != got {
                        let (a, b) = (chunks(w), chunks(&got));
                        let same = match (&a, &b) { (Some(a), Some(b)) => a.1 == b.1 && a.0.len() == b.0.len() && a.0.iter().zip(&b.0).all(|(x, y)| x == y
                            || x.0 == y.0 && keyword(&x.1) == keyword(&y.1) && text(&x.0) && text_start(&x.0, &x.1) == text_start(&y.0, &y.1) && text_of(&x.0, &x.1) == text_of(&y.0, &y.1)), _ => false };
                        if !same { diff("written data", w, &got)?; }
                    }
                    if &w[12..16] == b"IEND" { return Ok(true); }
                    let _ = e;
                    let back = Metadata::new_from_vec(&got, PNG).map_err(|e| format!("cannot read back: {e}"))?;
                    diff("metadata read back", &x, &encoding(&back)?)?;
                    let mut again = got.clone();
                    m.write_to_vec(&mut again, PNG).map_err(|e| format!("second write failed: {e}"))?;
                    diff("data after a second write", &got, &again)?;
                    Ok(true)
                }
                (None, Err(_)) => Ok(false),
                (Some(_), Err(e)) => Err(format!("write failed: {e}")),
                (None, Ok(())) => Err("write succeeded on data that is no intact PNG".into()),
            }
        }
    }
}
pub fn minimal() -> Vec<u8> { with_exif(&chunk(b"IDAT", b"xyz")) }
fn with_exif(d: &[u8]) -> Vec<u8> { [&SIG[..], &chunk(b"IHDR", b"0123456789abc"), d, &chunk(b"IEND", b"")].concat() }
pub fn check_p04(c: &Case) -> Res {
    match c.op.as_str() {
        "asvec" => {
            let m = meta_of(c.n[0] as usize);
            let x = encoding(&m)?;
            let t = m.as_u8_vec(F::PNG { as_zTXt_chunk: false }).map_err(|e| format!("as_u8_vec failed: {e}"))?;
            diff("raw profile", &raw_encode(&x).unwrap(), &t)?;
            let z = m.as_u8_vec(PNG).map_err(|e| format!("as_u8_vec failed: {e}"))?;
            let mut head = b"zTXt".to_vec(); head.extend(RAW); head.extend([0, 0]);
            if c.n.len() > 1 || c.n[0] % 16 == 1 {
                let mut v = with_exif(&chunk(b"IDAT", b"x"));
                m.write_to_vec(&mut v, PNG).map_err(|e| format!("write failed: {e}"))?;
                let r = Metadata::new_from_vec(&v, PNG).map_err(|e| format!("cannot read back: {e}"))?;
                diff("metadata read back", &x, &encoding(&r)?)?;
            }
            if !z.starts_with(&head) || inflate(&z[head.len()..]) != Some(t) { return Err("the zTXt form does not hold the raw profile".into()); }
            Ok(true)
        }
        // a text, in each kind of text chunk
        "text" => {
            let t = &c.d[0];
            let mut any = false;
            for k in 0..4 {
                let mut d = RAW.to_vec();
                let name: &[u8] = match k { 0 => { d.push(0); d.extend(t); b"tEXt" } 1 => { d.extend([0, 0]); d.extend(deflate(t)); b"zTXt" }
                    2 => { d.extend([0, 0, 0, b'e', 0, b'k', 0]); d.extend(t); b"iTXt" } _ => { d.extend([0, 1, 0, 0, 0]); d.extend(deflate(t)); b"iTXt" } };
                let s = with_exif(&chunk(name, &d));
                any |= check_read(&s)?;
            }
            Ok(any)
        }
        // a pair of characters in front of an intact payload, and within the size
        "pair" => {
            let p = [c.n[0] as u8, c.n[1] as u8];
            let x = meta_of(0).encode().map_err(|e| e.to_string())?;
            let t = raw_encode(&x).unwrap();
            let mut a = p.to_vec(); a.extend(&t);
            let mut any = check_text(&a)?;
            let mut b = t.clone(); b[12] = p[0]; b[13] = p[1];
            any |= check_text(&b)?;
            let mut d = t.clone(); let l = d.len(); d[l - 3] = p[0]; d[l - 2] = p[1];
            any |= check_text(&d)?;
            Ok(any)
        }
        "read" => check_read(&c.d[0]),
        _ => { let mut d = RAW.to_vec(); d.extend(&c.d[0]); check_read(&with_exif(&chunk(c.s[0].as_bytes(), &d))) }
    }
}
fn check_text(t: &[u8]) -> Res { let mut d = RAW.to_vec(); d.push(0); d.extend(t); check_read(&with_exif(&chunk(b"tEXt", &d))) }

fn txt(kind: usize, key: &[u8], t: &[u8]) -> Vec<u8> {
    let mut d = key.to_vec();
    match kind { 0 => { d.push(0); d.extend(t); chunk(b"tEXt", &d) } 1 => { d.extend([0, 0]); d.extend(deflate(t)); chunk(b"zTXt", &d) }
        2 => { d.extend([0, 0, 0, b'd', b'e', 0, 0]); d.extend(t); chunk(b"iTXt", &d) }
        4 => { d.extend([0, 0, 9, 0, b't', b'r', 0]); d.extend(t); chunk(b"iTXt", &d) }
        5 => { d.extend([0, 1, 9, 0, 0]); d.extend(deflate(t)); chunk(b"iTXt", &d) }
        6 => { d.extend([0, 9]); d.extend(deflate(t)); chunk(b"zTXt", &d) }
        7 => { d.extend([0, 7, 0, b'x', 0, b'y', 0]); d.extend(deflate(t)); chunk(b"iTXt", &d) }
        _ => { d.extend([0, 1, 0, 0, b'k', 0]); d.extend(deflate(t)); chunk(b"iTXt", &d) } }
}
fn random_chunk(r: &mut Rng) -> Vec<u8> {
    let x = meta_of(r.below(40)).encode().unwrap();
    match r.below(12) {
        0 => chunk(b"eXIf", &x),
        1 | 2 => { let mut t = raw_encode(&x).unwrap(); if r.chance(1, 4) { let k = r.below(t.len()); t[k] = r.u8(); } txt(r.below(9), RAW, &t) }
        3 => { let p = r.pick(&PACKETS); txt(r.below(9), XMP, p.0.as_bytes()) }
        4 => txt(r.below(9), b"Comment", b"Raw profile type exif"),
        5 => { let k = r.below(RAW.len() + 2); let mut d = RAW.to_vec(); d.extend(b"\0"); d.truncate(k); chunk(*r.pick(&[b"tEXt", b"zTXt", b"iTXt"]), &d) }
        6 => { let n = r.below(12); let d = r.bytes(n); chunk(*r.pick(&[b"tEXt", b"zTXt", b"iTXt"]), &d) }
        7 => { let n = r.below(40); let d = r.bytes(n); chunk(*r.pick(&[b"abCd", b"acTL", b"fdAT", b"tIME", b"zzzz"]), &d) }
        8 => chunk(b"PLTE", &[]),
        9 => { let mut d = XMP.to_vec(); let n = r.below(8); d.push(0); d.extend(r.bytes(n)); chunk(*r.pick(&[b"zTXt", b"iTXt"]), &d) }
        _ => { let n = r.below(50); let d = r.bytes(n); chunk(b"IDAT", &d) }
    }
}
pub fn random_png(r: &mut Rng) -> Vec<u8> {
    let mut v = SIG.to_vec();
    if !r.chance(1, 10) { v.extend(chunk(b"IHDR", b"0123456789abc")); }
    for _ in 0..r.below(6) { v.extend(random_chunk(r)); }
    if !r.chance(1, 15) { v.extend(chunk(b"IEND", b"")); }
    match r.below(12) {
        0 => { let k = r.below(v.len() + 1); v.truncate(k); }
        1 => { let k = r.below(v.len()); v[k] = r.u8(); }
        2 => { let n = r.below(20); v.extend(r.bytes(n)); }
        _ => {}
    }
    v
}
pub fn gen_p03(s: &mut Search) {
    let x = meta_of(3).encode().unwrap();
    let raw = raw_encode(&x).unwrap();
    let mut pieces: Vec<Vec<u8>> = vec![chunk(b"IDAT", b"idat"), chunk(b"eXIf", &x), chunk(b"abCd", b""), chunk(b"IEND", b""), chunk(b"tEXt", RAW), chunk(b"tEXt", b"Raw profile type exiX\0"), txt(0, b"", b"")];
    for k in 0..9 { pieces.push(txt(k, RAW, &raw)); pieces.push(txt(k, XMP, PACKETS[k % 3].0.as_bytes())); }
    let n = pieces.len();
    for a in 0..=n { for b in 0..=n { for e in 0..=n {
        if e < n && (a == n || b == n || a > 12 && b > 12 && e > 12) { continue; }
        let mut v = SIG.to_vec(); v.extend(chunk(b"IHDR", b"0123456789abc"));
        for k in [a, b, e] { if k < n { v.extend(&pieces[k]); } }
        v.extend(chunk(b"IEND", b""));
        for op in ["clear", "write"] { if !s.case(Case::new("P03", op).data(&v).num(5)) { return; } }
        if e == n && b == n {
            for cut in 1..v.len() { for op in ["clear", "write"] { if !s.case(Case::new("P03", op).data(&v[..v.len() - cut]).num(5)) { return; } } }
            for k in 0..v.len() { for y in [v[k] ^ 1, v[k] ^ 0x80] { let mut w = v.clone(); w[k] = y; for op in ["clear", "write"] { if !s.case(Case::new("P03", op).data(&w).num(5)) { return; } } } }
        }
    } } }
    s.notes.push(format!("all sequences of <=3 of {n} chunk pieces between header and end; every truncation and every single-byte change (two values) of those of <=1"));
    for n in 0..300 {
        let mut v = SIG.to_vec(); v.extend(chunk(b"IHDR", b"0123456789abc")); v.extend(chunk(b"IDAT", b"x")); v.extend(chunk(b"IEND", b""));
        if !s.case(Case::new("P03", "write").data(&v).num(n)) { return; }
    }
    while s.more() {
        let v = random_png(&mut s.rng);
        let op = *s.rng.pick(&["clear", "write"]);
        let n = s.rng.below(64);
        if !s.case(Case::new("P03", op).data(&v).num(n as i64)) { return; }
    }
}
pub fn gen_p04(s: &mut Search) {
    for a in 0..256 { for b in 0..256 { if !s.case(Case::new("P04", "pair").num(a).num(b)) { return; } } }
    s.notes.push("all 65536 pairs of characters at three places of the text".into());
    for n in (0..1100).chain(9950..10010).chain(99960..99990) { if !s.case(Case::new("P04", "asvec").num(n)) { return; } }
    for n in [999_900i64, 999_980, 1_000_000, 2_000_000, 12_345_678] { if !s.case(Case::new("P04", "asvec").num(n).num(1)) { return; } }
    let x = meta_of(7).encode().unwrap();
    let t = raw_encode(&x).unwrap();
    for k in 0..t.len() {
        let mut a = t.clone(); a.truncate(k);
        let mut b = t.clone(); b.remove(k);
        let mut c = t.clone(); c.insert(k, b'\n');
        let mut d = t.clone(); d.insert(k, b'1');
        let mut e = t.clone(); e[k] = b'9';
        let mut f = t.clone(); f[k] = b' ';
        for v in [a, b, c, d, e, f] { if !s.case(Case::new("P04", "text").data(&v)) { return; } }
    }
    for v in [&b""[..], b"\n", b"4949", b"49492a00", b"0449492a00", b" 449492a00", b"0000000449492a00", b"000449492a00", b"044d4d002a", b"454578696600", b"Af", b"0a49492a00", b"a049492a00"] {
        if !s.case(Case::new("P04", "text").data(v)) { return; }
    }
    for n in 0..12 { for name in ["tEXt", "zTXt", "iTXt"] { for fill in [0u8, 1, 65] { if !s.case(Case::new("P04", "rest").data(&vec![fill; n]).st(name)) { return; } } } }
    while s.more() {
        if s.rng.chance(1, 3) { let v = random_png(&mut s.rng); if !s.case(Case::new("P04", "read").data(&v)) { return; } continue; }
        let n = s.rng.below(60);
        let x = meta_of(n).encode().unwrap();
        let mut t = raw_encode(&x).unwrap();
        for _ in 0..s.rng.below(3) {
            let k = s.rng.below(t.len());
            match s.rng.below(4) { 0 => { t.remove(k); } 1 => { let b = s.rng.u8(); t.insert(k, b); } 2 => { t[k] = s.rng.u8(); } _ => { t[k] = *s.rng.pick(b"\n +-0123456789abcdefABCDEF\x0b\x85\xa0"); } }
        }
        if !s.case(Case::new("P04", "text").data(&t)) { return; }
    }
}
