//! P19: which format an extension and the leading bytes select
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::{get_file_type, FileExtension as F};
use little_exif::metadata::Metadata;
use std::io::{Cursor, Seek, SeekFrom};
use std::str::FromStr;

pub fn kind(f: F) -> &'static str { match f { F::PNG { .. } => "PNG", F::JPEG => "JPEG", F::JXL => "JXL", F::NAKED_JXL => "NAKED", F::TIFF => "TIFF", F::WEBP => "WEBP", F::HEIF => "HEIF" } }
pub fn of_kind(k: &str) -> F { match k { "PNG" => F::PNG { as_zTXt_chunk: true }, "JPEG" => F::JPEG, "JXL" => F::JXL, "NAKED" => F::NAKED_JXL, "TIFF" => F::TIFF, "WEBP" => F::WEBP, _ => F::HEIF } }
pub const KINDS: [&str; 7] = ["PNG", "JPEG", "JXL", "NAKED", "TIFF", "WEBP", "HEIF"];
/// (format, pattern): `?` stands for any byte
fn patterns() -> Vec<(&'static str, Vec<Option<u8>>)> {
    let any = |n: usize| vec![None; n];
    let lit = |b: &[u8]| b.iter().map(|x| Some(*x)).collect::<Vec<_>>();
    let ftyp = |b: &[u8]| [any(4), lit(b"ftyp"), lit(b)].concat();
    vec![("PNG", lit(b"\x89PNG")), ("JPEG", lit(&[0xff, 0xd8])), ("TIFF", lit(b"II*\0")), ("TIFF", lit(b"MM\0*")), ("WEBP", [lit(b"RIFF"), any(4), lit(b"WEBP")].concat()),
        ("NAKED", lit(&[0xff, 0x0a])), ("JXL", lit(&crate::jxl::SIG)), ("HEIF", ftyp(b"heic")), ("HEIF", ftyp(b"heif")), ("HEIF", ftyp(b"avif"))]
}
pub fn signature(b: &[u8]) -> Option<&'static str> {
    if b.len() < 4 { return None; }
    patterns().into_iter().find(|(_, p)| b.len() >= p.len() && p.iter().zip(b).all(|(x, y)| x.is_none() || *x == Some(*y))).map(|x| x.0)
}
const NAMES: [(&str, &str); 11] = [("png", "PNG"), ("jpg", "JPEG"), ("jpeg", "JPEG"), ("jxl", "JXL"), ("tif", "TIFF"), ("tiff", "TIFF"), ("webp", "WEBP"), ("heif", "HEIF"), ("hif", "HEIF"), ("heic", "HEIF"), ("avif", "HEIF")];
fn by_name(s: &str) -> Option<&'static str> { NAMES.iter().find(|n| n.0.eq_ignore_ascii_case(s)).map(|n| n.1) }

/// a scratch directory of this process
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let p = std::path::PathBuf::from(format!("{base}/replay-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap(); Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { std::fs::remove_dir_all(&self.0).ok(); } }

/// an image of each format, carrying the description d (an empty one where the format's own samples carry none)
pub fn image(k: &str, d: &str) -> Vec<u8> {
    let mut m = Metadata::new(); m.set_tag(ExifTag::ImageDescription(d.into()));
    let x = m.encode().unwrap();
    match k {
        "PNG" => { let mut v = crate::png::minimal(); m.write_to_vec(&mut v, of_kind(k)).unwrap(); v }
        "JPEG" => { let mut v = vec![0xff, 0xd8, 0xff, 0xd9]; m.write_to_vec(&mut v, of_kind(k)).unwrap(); v }
        "JXL" => { let mut v = vec![0xff, 0x0a, 1, 2, 3]; m.write_to_vec(&mut v, F::JXL).unwrap(); v }
        "NAKED" => vec![0xff, 0x0a, 1, 2, 3],
        "TIFF" => x,
        "WEBP" => {
            let mut c = b"VP8X\x0a\0\0\0\x08\0\0\0\0\0\0\0\0\0".to_vec(); c.extend(b"VP8L\x06\0\0\0\x2f\0\0\0\0\0EXIF"); 
            let mut x = x; if x.len() % 2 == 1 { x.push(0); }
            c.extend((x.len() as u32).to_le_bytes()); c.extend(&x);
            let mut v = b"RIFF".to_vec(); v.extend((c.len() as u32 + 4).to_le_bytes()); v.extend(b"WEBP"); v.extend(c); v
        }
        _ => heif(&x),
    }
}
fn bx(ty: &[u8], c: &[u8]) -> Vec<u8> { let mut v = ((c.len() + 8) as u32).to_be_bytes().to_vec(); v.extend(ty); v.extend(c); v }
/// one image item and one EXIF item
pub fn heif(x: &[u8]) -> Vec<u8> {
    let ftyp = bx(b"ftyp", b"avif\0\0\0\0avif");
    let infe = |id: u8, ty: &[u8]| { let mut c = vec![2, 0, 0, 0, 0, id, 0, 0]; c.extend(ty); c.push(0); bx(b"infe", &c) };
    let mut iinf = vec![0, 0, 0, 0, 0, 2]; iinf.extend(infe(1, b"av01")); iinf.extend(infe(2, b"Exif"));
    let meta = |a: u32| {
        let mut iloc = vec![0, 0, 0, 0, 0x44, 0, 0, 2];
        for (id, off, len) in [(1u8, a, 4u32), (2, a + 4, x.len() as u32 + 4)] { iloc.extend([0, id, 0, 0, 0, 1]); iloc.extend(off.to_be_bytes()); iloc.extend(len.to_be_bytes()); }
        let mut c = vec![0, 0, 0, 0];
        c.extend(bx(b"hdlr", b"\0\0\0\0\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0")); c.extend(bx(b"pitm", b"\0\0\0\0\0\x01"));
        c.extend(bx(b"iloc", &iloc)); c.extend(bx(b"iinf", &iinf));
        c.extend(bx(b"iref", &[vec![0, 0, 0, 0], bx(b"cdsc", b"\0\x02\0\x01\0\x01")].concat()));
        bx(b"meta", &c)
    };
    let a = ftyp.len() + meta(0).len() + 8;
    let mut d = b"data\0\0\0\0".to_vec(); d.extend(x);
    let mut v = ftyp; v.extend(meta(a as u32)); v.extend(bx(b"mdat", &d)); v
}
pub fn description(m: &Metadata) -> Option<String> {
    m.get_tag(&ExifTag::ImageDescription(String::new())).find_map(|t| match t { ExifTag::ImageDescription(s) => Some(s.clone()), _ => None })
}

pub fn check_p19(c: &Case) -> Res {
    match c.op.as_str() {
        "bytes" => {
            let at = c.n[0] as u64; let b = &c.d[0];
            let mut cur = Cursor::new(b); cur.seek(SeekFrom::Start(at)).unwrap();
            let want = signature(b.get(at as usize..).unwrap_or(&[]));
            let got = F::auto_detect(&mut cur).map(kind);
            if want != got { return Err(format!("the bytes denote {want:?}, detected is {got:?}")); }
            Ok(want.is_some())
        }
        "name" => {
            let want = by_name(&c.s[0]);
            match F::from_str(&c.s[0]) {
                Ok(f) if Some(kind(f)) == want => Ok(true),
                Err(e) if want.is_none() => if e.kind() == std::io::ErrorKind::Unsupported { Ok(false) } else { Err(format!("an unknown name is rejected as {:?}", e.kind())) },
                r => Err(format!("the name denotes {want:?}, from_str gives {:?}", r.map(kind))),
            }
        }
        "path" => {      // get_file_type of a file of this name
            let s = Scratch::new(); let p = s.0.join(&c.s[0]);
            if get_file_type(&p).is_ok() { return Err("a file that does not exist has a type".into()); }
            if std::fs::write(&p, b"x").is_err() { return Ok(false); }
            let want = p.extension().and_then(|e| e.to_str()).and_then(by_name);
            let got = get_file_type(&p).ok().map(kind);
            if want != got { return Err(format!("the extension denotes {want:?}, get_file_type gives {got:?}")); }
            Ok(want.is_some())
        }
        "open" => {      // content of one format in a file named after another
            let (k, name) = (&c.s[0], &c.s[1]);
            let s = Scratch::new(); let p = s.0.join(name);
            let v = image(k, "told apart");
            std::fs::write(&p, &v).unwrap();
            let got = Metadata::new_from_path(&p).ok();
            if k == "NAKED" { return if got.is_none() { Ok(true) } else { Err("a bare codestream has metadata".into()) }; }
            let ext = p.extension();
            let rejected = ext.is_some() && ext.and_then(|e| e.to_str()).and_then(by_name).is_none();
            if rejected { return if got.is_none() { Ok(true) } else { Err("a file with an unsupported extension is read".into()) }; }
            match got.as_ref().map(description) { Some(Some(d)) if d == "told apart" => {}, r => return Err(format!("{k} content in {name}: the description read is {r:?}")) }
            if std::fs::read(&p).unwrap() != v { return Err("reading changed the file".into()); }
            Ok(true)
        }
        "foreign" => {   // content of one format handled as another
            let (k, f) = (&c.s[0], of_kind(&c.s[1]));
            let v = image(k, "told apart");
            let what = format!("{k} data treated as {}", c.s[1]);
            if Metadata::new_from_vec(&v, f).is_ok() { return Err(format!("{what}: reading succeeds")); }
            let mut w = v.clone();
            if Metadata::clear_metadata(&mut w, f).is_ok() { return Err(format!("{what}: clearing succeeds{}", if w != v { " and changes the data" } else { "" })); }
            let mut w = v.clone(); let mut m = Metadata::new(); m.set_tag(ExifTag::ImageDescription("new".into()));
            if m.write_to_vec(&mut w, f).is_ok() { return Err(format!("{what}: writing succeeds{}", if w != v { " and changes the data" } else { "" })); }
            let s = Scratch::new(); let p = s.0.join(format!("x.{}", NAMES.iter().find(|n| n.1 == c.s[1]).map(|n| n.0).unwrap_or("jxl")));
            std::fs::write(&p, &v).unwrap();
            if m.write_to_file(&p).is_ok() { return Err(format!("{what}: writing to the file succeeds")); }
            Ok(true)
        }
        _ => {           // own format: reading gives the description back
            let k = &c.s[0]; let v = image(k, &c.s[1]);
            if signature(&v) != Some(k.as_str()) { return Err(format!("HARNESS {k}")); }
            let m = Metadata::new_from_vec(&v, of_kind(k)).map_err(|e| format!("{k}: reading fails: {e}"))?;
            if description(&m).as_deref() != Some(&c.s[1]) { return Err(format!("{k}: the description read is {:?}", description(&m))); }
            Ok(true)
        }
    }
}
pub fn gen_p19(s: &mut Search) {
    let ps = patterns();
    for k in KINDS { if k != "NAKED" { if !s.case(Case::new("P19", "own").st(k).st("abc")) { return; } } }
    for k in KINDS { for f in KINDS {
        if k == f || (k == "NAKED" && f == "JXL") || (k == "JXL" && f == "NAKED") { continue; }
        if !s.case(Case::new("P19", "foreign").st(k).st(f)) { return; }
    } }
    for k in KINDS { for n in ["a", "a.b.png", "x.bmp", "x.", ".png", "x.gif"].into_iter().map(String::from).chain(NAMES.iter().map(|n| format!("y.{}", n.0))).chain(NAMES.iter().map(|n| format!("Z.{}", n.0.to_uppercase()))) {
        if !s.case(Case::new("P19", "open").st(k).st(&n)) { return; }
    } }
    s.notes.push("7 formats' content under every extension and format argument".into());
    for (_, p) in &ps { for fill in [0u8, 0x41, 0xff] {
        let v: Vec<u8> = p.iter().map(|x| x.unwrap_or(fill)).collect();
        for extra in [0, 1, 4, 20, 40] {
            let mut w = v.clone(); w.extend(vec![fill; extra]);
            for n in 0..=w.len() { if !s.case(Case::new("P19", "bytes").num(0).data(&w[..n])) { return; } }
            for i in 0..w.len().min(14) { for b in 0..=255u8 { let mut x = w.clone(); x[i] = b; if !s.case(Case::new("P19", "bytes").num(0).data(&x)) { return; } } }
        }
        for at in 0..40 { let mut w = vec![fill; at as usize]; w.extend(&v); for to in [at, 0, at + 1, at + 60] { if !s.case(Case::new("P19", "bytes").num(to).data(&w)) { return; } } }
    } }
    for (_, p) in &ps { for (_, q) in &ps { for cut in 0..=p.len() { for from in 0..q.len() {   // one signature running into another
        let v: Vec<u8> = p[..cut].iter().chain(&q[from..]).map(|x| x.unwrap_or(0)).collect();
        if !s.case(Case::new("P19", "bytes").num(0).data(&v)) { return; }
    } } } }
    s.notes.push("every signature with every byte value at each of its places, all truncations and positions".into());
    for (n, _) in NAMES {
        let b = n.as_bytes();
        for m in 0..1 << b.len() {
            let t: String = b.iter().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { *c } as char).collect();
            if !s.case(Case::new("P19", "name").st(&t)) { return; }
            if !s.case(Case::new("P19", "path").st(&format!("a.b.{t}"))) { return; }
        }
        for i in 0..=b.len() { for c in (1..127u8).map(|x| x as char).chain(['İ', 'ſ', 'K', 'é']) {
            let mut t: Vec<char> = n.chars().collect(); t.insert(i, c);
            if !s.case(Case::new("P19", "name").st(&t.iter().collect::<String>())) { return; }
            t.remove(i); if i < t.len() { t[i] = c; } else { t.pop(); }
            if !s.case(Case::new("P19", "name").st(&t.iter().collect::<String>())) { return; }
        } }
    }
    for t in ["", ".", "png.", "png ", " png", "..", "a", "png.jpg", "JPG.txt", ".jpg", "x.jpg.", "x..jpg", "x.j p g", "x.JPEG", "ü.webp", "x.wëbp", "x"] {
        if !s.case(Case::new("P19", "name").st(t)) { return; }
        if !t.trim_matches('.').is_empty() && !s.case(Case::new("P19", "path").st(t)) { return; }
    }
    s.notes.push("every letter case, one-character insertion and replacement of the 11 extensions".into());
    while s.more() {
        let v: Vec<u8> = if s.rng.chance(1, 2) { let n = s.rng.below(40); s.rng.bytes(n) } else {
            let p = s.rng.pick(&ps).1.clone(); let mut v: Vec<u8> = p.iter().map(|x| x.unwrap_or_else(|| s.rng.u8())).collect();
            let n = s.rng.below(30); v.extend(s.rng.bytes(n));
            for _ in 0..s.rng.below(3) { let i = s.rng.below(v.len()); v[i] = s.rng.u8(); }
            v };
        let at = if s.rng.chance(1, 4) { s.rng.below(8) } else { 0 };
        if !s.case(Case::new("P19", "bytes").num(at as i64).data(&v)) { return; }
    }
}
