use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension as F;
use little_exif::metadata::Metadata;

pub const SIG: [u8; 12] = [0, 0, 0, 12, b'J', b'X', b'L', b' ', 13, 10, 0x87, 10];
pub const FTYP: [u8; 20] = *b"\0\0\0\x14ftypjxl \0\0\0\0jxl ";

struct B { ty: [u8; 4], start: usize, content: usize, end: usize }
/// box at p (end may lie behind the data)
fn box_at(s: &[u8], p: usize) -> Option<B> {
    let h = s.get(p..p + 8)?;
    let n = u32::from_be_bytes(h[..4].try_into().unwrap()) as u64;
    let ty: [u8; 4] = h[4..].try_into().unwrap();
    let (content, len) = match n {
        0 => (p + 8, (s.len() - p) as u64),
        1 => { let l = u64::from_be_bytes(s.get(p + 8..p + 16)?.try_into().unwrap()); if l < 16 { return None; } (p + 16, l) }
        2..=7 => return None,
        _ => (p + 8, n),
    };
    Some(B { ty, start: p, content, end: (p as u128 + len as u128).min(usize::MAX as u128 / 2) as usize })
}
fn is_exif(s: &[u8], b: &B) -> Option<bool> {
    if &b.ty == b"Exif" { return Some(true); }
    if &b.ty == b"brob" && b.end - b.content >= 4 { return Some(s.get(b.content..b.content + 4)? == b"Exif"); }
    Some(false)
}
/// the kept pieces, glued together: works on the input only, left to right
pub fn reference_clear(s: &[u8]) -> Option<Vec<u8>> {
    if !s.starts_with(&SIG) { return None; }
    let mut out = vec![];
    let mut p = 0;
    // a kept open-ended box is last; a removed one leaves nothing behind it either
    while p < s.len() {
        let b = box_at(s, p)?;
        let e = b.end.min(s.len());
        if !is_exif(s, &b)? { out.extend(&s[b.start..e]); }
        p = e;
    }
    Some(out)
}
fn reference_pos(s: &[u8]) -> Option<usize> {
    let mut p = 0;
    loop {
        let b = box_at(s, p)?;
        if &b.ty != b"JXL " && &b.ty != b"ftyp" { return Some(p); }
        p = b.end;
        if p >= s.len() { return None; }
    }
}
fn reference_found(s: &[u8]) -> Option<Vec<u8>> {
    if !s.starts_with(&SIG) { return None; }
    let mut p = 0;
    loop {
        let b = box_at(s, p)?;
        if is_exif(s, &b)? {
            let c = s.get(b.content..b.end)?;
            let c = if &b.ty == b"brob" { let mut o = vec![]; brotli::BrotliDecompress(&mut &c[4..], &mut o).ok()?; o } else { c.to_vec() };
            return c.get(4..).map(|x| x.to_vec());
        }
        p = b.end;
        if p >= s.len() { return None; }
    }
}

fn compress(x: &[u8]) -> Vec<u8> { let mut o = vec![]; brotli::BrotliCompress(&mut &x[..], &mut o, &Default::default()).unwrap(); o }
fn bx(ty: &[u8; 4], c: &[u8]) -> Vec<u8> { let mut v = ((c.len() + 8) as u32).to_be_bytes().to_vec(); v.extend(ty); v.extend(c); v }
fn bx64(ty: &[u8; 4], c: &[u8]) -> Vec<u8> { let mut v = vec![0, 0, 0, 1]; v.extend(ty); v.extend(((c.len() + 16) as u64).to_be_bytes()); v.extend(c); v }
fn bx0(ty: &[u8; 4], c: &[u8]) -> Vec<u8> { let mut v = vec![0, 0, 0, 0]; v.extend(ty); v.extend(c); v }
fn exif_content(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![0, 0, 0, if r.chance(1, 2) { 6 } else { 0 }];
    if v[3] == 6 { v.extend(b"Exif\0\0"); }
    match r.below(4) {
        0 => { let k = r.below(20); v.extend(r.bytes(k)); }
        1 => { let k = r.below(5); v.truncate(k); }
        _ => { let mut m = Metadata::new(); m.set_tag(ExifTag::ImageDescription(format!("d{}", r.below(1000)))); if r.chance(1, 2) { m.set_tag(ExifTag::ISO(vec![r.below(60000) as u16])); } v.extend(m.encode().unwrap()); }
    }
    v
}
fn random_box(r: &mut Rng, last: bool) -> Vec<u8> {
    let form = r.below(8);
    let (ty, c): ([u8; 4], Vec<u8>) = match r.below(9) {
        0 | 1 => (*b"Exif", exif_content(r)),
        2 => { let mut c = b"Exif".to_vec(); let x = exif_content(r); c.extend(compress(&x)); if r.chance(1, 8) { let k = r.below(c.len() + 1); c.truncate(k); } (*b"brob", c) }
        3 => { let mut c = b"xml ".to_vec(); c.extend(compress(b"<xmp/>")); (*b"brob", c) }
        4 => { let k = r.below(30); (*b"jxlc", r.bytes(k)) }
        5 => { let k = r.below(30); (*b"jxlp", r.bytes(k)) }
        6 => (*b"xml ", b"Exif inside text".to_vec()),
        7 => { let k = r.below(8); (*b"brob", r.bytes(k)) }
        _ => (*b"ftyp", b"jxl \0\0\0\0".to_vec()),
    };
    if form == 0 { bx64(&ty, &c) } else if form == 1 && last { bx0(&ty, &c) } else { bx(&ty, &c) }
}
pub fn random_jxl(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 10) { let k = r.below(60); let mut v = vec![0xff, 0x0a]; v.extend(r.bytes(k)); return v; }
    let mut v = SIG.to_vec();
    if r.chance(7, 8) { v.extend(FTYP); }
    let n = r.below(6);
    for i in 0..n { v.extend(random_box(r, i + 1 == n)); }
    match r.below(10) {
        0 => { let k = r.below(v.len() + 1); v.truncate(k); }
        1 => { let k = r.below(v.len()); v[k] = r.u8(); }
        2 => { let k = r.below(v.len()); v[k] = *r.pick(&[0u8, 1, 7, 8, 9, 0xff]); }
        3 => { let k = r.below(12); v.extend(r.bytes(k)); }
        _ => {}
    }
    v
}
fn meta_of(n: usize) -> Metadata { let mut m = Metadata::new(); if n > 0 { m.set_tag(ExifTag::ImageDescription("a".repeat(n))); } m }

/// decode a payload that may or may not start with the EXIF identifier
pub fn decoded(p: &[u8]) -> Option<String> {
    let b = if p.starts_with(b"Exif\0\0") { &p[6..] } else { p };
    Metadata::new_from_vec(&b.to_vec(), F::TIFF).ok().map(|m| format!("{m:?}"))
}
fn check_read(s: &Vec<u8>) -> Res {
    let want = reference_found(s).and_then(|p| decoded(&p));
    let got = Metadata::new_from_vec(s, F::JXL).ok().map(|m| format!("{m:?}"));
    if want == got { Ok(want.is_some()) } else { Err(format!("reading: expected {want:?}, got {got:?}").chars().take(600).collect()) }
}
pub fn check_p07(c: &Case) -> Res {
    let s = &c.d[0];
    match c.op.as_str() {
        "clear" => {
            let want = reference_clear(s);
            let mut got = s.clone();
            match (&want, Metadata::clear_metadata(&mut got, F::JXL)) {
                (Some(w), Ok(())) => { diff("cleared data", w, &got)?; Ok(w != s) }
                (None, Err(_)) => Ok(false),
                (Some(_), Err(e)) => Err(format!("clearing failed: {e}")),
                (None, Ok(())) => Err("clearing succeeded on data that is no intact JXL container".into()),
            }
        }
        "read" => check_read(s),
        _ => {
            let m = meta_of(c.n[0] as usize);
            let x = encoding(&m)?;
            let mut base = s.clone();
            if s.starts_with(&[0xff, 0x0a]) {
                base = SIG.to_vec(); base.extend(FTYP); base.extend(bx(b"jxlc", s));
            }
            let want = reference_clear(&base).and_then(|w| reference_pos(&w).map(|p| {
                let mut v = w[..p].to_vec();
                let mut c = vec![0, 0, 0, 6]; c.extend(b"Exif\0\0"); c.extend(&x);
                v.extend(bx(b"Exif", &c)); v.extend(&w[p..]); v }));
            let mut got = s.clone();
            match (&want, m.write_to_vec(&mut got, F::JXL)) {
                (Some(w), Ok(())) => {
                    diff("written data", w, &got)?;
                    let back = Metadata::new_from_vec(&got, F::JXL).map_err(|e| format!("cannot read back: {e}"))?;
                    diff("metadata read back", &x, &encoding(&back)?)?;
                    let mut again = got.clone();
                    m.write_to_vec(&mut again, F::JXL).map_err(|e| format!("second write failed: {e}"))?;
                    diff("data after a second write", &got, &again)?;
                    Ok(true)
                }
                (None, Err(_)) => Ok(false),
                (Some(_), Err(e)) => Err(format!("write failed: {e}")),
                (None, Ok(())) => Err("write succeeded on data that is no intact JXL container".into()),
            }
        }
    }
}
pub fn gen_p07(s: &mut Search) {
    let x = { let mut v = vec![0, 0, 0, 6]; v.extend(b"Exif\0\0"); v.extend(meta_of(3).encode().unwrap()); v };
    let brob = { let mut v = b"Exif".to_vec(); v.extend(compress(&x)); v };
    let pieces: Vec<Vec<u8>> = vec![
        bx(b"Exif", &x), bx(b"brob", &brob), bx(b"brob", b"xml \x0b\x02\x80x\x03"), bx(b"jxlc", b"\xff\x0aabc"), bx64(b"Exif", &x), bx64(b"jxlp", b"12"),
        bx0(b"jxlc", b"open"), bx0(b"Exif", &x), FTYP.to_vec(), bx(b"brob", b"Exi"), bx(b"Exif", b"123"), vec![0, 0, 0, 7, 65, 66, 67, 68, 69], vec![1, 2, 3],
        vec![0, 0, 0, 40, b'j', b'x', b'l', b'p', 1], bx(b"jxlp", b""),
    ];
    let n = pieces.len();
    for a in 0..=n { for b in 0..=n { for e in 0..=n {
        let mut v = SIG.to_vec();
        for k in [a, b, e] { if k < n { v.extend(&pieces[k]); } }
        for op in ["clear", "read", "write"] { if !s.case(Case::new("P07", op).data(&v).num(5)) { return; } }
        if e == n { for cut in 1..v.len().min(20) { for op in ["clear", "read", "write"] { if !s.case(Case::new("P07", op).data(&v[..v.len() - cut]).num(5)) { return; } } } }
    } } }
    s.notes.push(format!("all sequences of <=3 of {n} box pieces, truncations of those of <=2"));
    for n in (0..260).chain(65500..65560) {
        let mut v = SIG.to_vec(); v.extend(FTYP); v.extend(bx(b"jxlc", b"data"));
        if !s.case(Case::new("P07", "write").data(&v).num(n)) { return; }
        let bare: Vec<u8> = [0xff, 0x0a].into_iter().chain((0..n).map(|i| (i * 7) as u8)).collect();
        if n < 260 && !s.case(Case::new("P07", "write").data(&bare).num(n)) { return; }
    }
    while s.more() {
        let v = random_jxl(&mut s.rng);
        let op = *s.rng.pick(&["clear", "read", "write"]);
        let n = s.rng.below(64);
        if !s.case(Case::new("P07", op).data(&v).num(n as i64)) { return; }
    }
}
