//! P12: encoded EXIF against an independent TIFF reader; P13: encode then decode; P14: decoding arbitrary bytes
use crate::meta::{parent, tab};
use crate::tags::*;
use crate::util::*;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat as Fm;
use little_exif::filetype::FileExtension;
use little_exif::ifd::ExifTagGroup as G;
use little_exif::metadata::Metadata;
use std::collections::BTreeMap;

/// what a directory entry has to hold
#[derive(Clone)]
pub enum Want { Bytes(Vec<u8>), Blocks(Vec<Vec<u8>>), Sub(usize) }
#[derive(Clone)]
pub struct Item { pub tag: ExifTag, pub fmt: usize, pub count: u32, pub want: Want, pub writable: bool, pub back: ExifTag }
pub type Dirs = BTreeMap<(u32, usize), BTreeMap<u16, Item>>;

/// the bytes of n components taken from the source, written here from the format's definition
pub fn value_bytes(f: usize, s: &mut Src, n: usize, e: &Endian) -> Vec<u8> {
    let mut o = vec![];
    let w16 = |o: &mut Vec<u8>, x: u16| if *e == Endian::Big { o.extend([(x >> 8) as u8, x as u8]) } else { o.extend([x as u8, (x >> 8) as u8]) };
    let w32 = |o: &mut Vec<u8>, x: u32| if *e == Endian::Big { o.extend(x.to_be_bytes()) } else { o.extend(x.to_le_bytes()) };
    match f {
        0 | 6 => o = s.INT8U(n), 5 => o = s.INT8S(n).iter().map(|x| *x as u8).collect(),
        1 => { o = s.STRING(n).into_bytes(); o.push(0); }
        2 => for x in s.INT16U(n) { w16(&mut o, x) }, 7 => for x in s.INT16S(n) { w16(&mut o, x as u16) },
        3 => for x in s.INT32U(n) { w32(&mut o, x) }, 8 => for x in s.INT32S(n) { w32(&mut o, x as u32) },
        4 => for x in s.RATIONAL64U(n) { w32(&mut o, x.nominator); w32(&mut o, x.denominator) },
        9 => for x in s.RATIONAL64S(n) { w32(&mut o, x.nominator as u32); w32(&mut o, x.denominator as u32) },
        10 => for x in s.FLOAT(n) { w32(&mut o, x.to_bits()) },
        _ => for x in s.DOUBLE(n) { let b = x.to_bits(); if *e == Endian::Big { o.extend(b.to_be_bytes()) } else { o.extend(b.to_le_bytes()) } },
    }
    o
}
fn fi(f: &Fm) -> usize { FORMATS.iter().position(|x| x == f).unwrap() }
/// the entry a plain (not structural) tag has to become
fn item(kind: usize, n: usize, bytes: &[u8], e: &Endian, t: &[Row]) -> Item {
    let tag = build(kind, n, bytes, t);
    let (f, writable, fixed) = if kind < t.len() { (fi(&t[kind].format), t[kind].writable, t[kind].count) } else { (((kind - t.len() - 4) % 12), true, None) };
    let mut v = value_bytes(f, &mut Src(bytes, 0), n, e);
    let mut count = (v.len() / SIZES[f]) as u32;
    let mut back = tag.clone();
    if f != 1 && n == 0 { if let Some(c) = fixed { count = c; v = vec![0; c as usize * SIZES[f]]; back = (t[kind].make)(&mut Src(&[0; 1024], 0), c as usize); } }
    Item { tag, fmt: f, count, want: Want::Bytes(v), writable, back }
}
fn empty_of(e: bool) -> Metadata {
    if !e { return Metadata::new(); }
    Metadata::new_from_vec(&vec![0x4d, 0x4d, 0, 42, 0, 0, 0, 8, 0, 0, 0, 0, 0, 0], FileExtension::TIFF).expect("an empty big-endian directory")
}
fn touch(m: &mut Dirs, g: G, n: u32) { let mut c = Some(g); while let Some(x) = c { m.entry((n, gi(x))).or_default(); c = parent(x); } }
fn is_sub(h: u16, g: G) -> bool { (g == G::GENERIC && (h == 0x8769 || h == 0x8825)) || (g == G::EXIF && h == 0xa005) }

/// metadata from numbers: [byte order, (operation, kind, components, page)...]
pub fn make(c: &Case, contiguous: bool) -> (Metadata, Dirs, Endian) {
    let t = tab();
    let e = endian(c.n[0] != 0);
    let mut m = empty_of(c.n[0] != 0);
    let mut d: Dirs = BTreeMap::new();
    if c.n[0] != 0 { touch(&mut d, G::GENERIC, 0); }
    for (i, o) in c.n[1..].chunks(4).enumerate() {
        if o.len() < 4 { break; }
        let (n, pg) = (o[2] as usize, o[3] as u32);
        let mut bytes = c.d[0].clone();
        if !bytes.is_empty() { let k = i % bytes.len(); bytes.rotate_left(k); }
        let le = |x: &[u32]| -> Vec<u8> { x.iter().flat_map(|v| if e == Endian::Big { v.to_be_bytes() } else { v.to_le_bytes() }).collect() };
        if contiguous { for p in 0..=pg { m.create_ifd(G::GENERIC, p); touch(&mut d, G::GENERIC, p); } }
        match o[0] {
            1 => {
                // strips
                let strips: Vec<Vec<u8>> = (0..o[1] as usize % 9).map(|k| (0..(n * (k + 3) / 3) % 50).map(|j| bytes.get((j + k) % bytes.len().max(1)).copied().unwrap_or(0)).collect()).collect();
                let lens: Vec<u32> = strips.iter().map(|s| s.len() as u32).collect();
                let (a, b) = (ExifTag::StripOffsets(vec![7; o[1] as usize % 3], strips.clone()), ExifTag::StripByteCounts(lens.clone()));
                m.get_ifd_mut(G::GENERIC, pg).set_tag(a.clone()); m.get_ifd_mut(G::GENERIC, pg).set_tag(b.clone());
                touch(&mut d, G::GENERIC, pg);
                let x = d.get_mut(&(pg, 0)).unwrap();
                x.insert(0x0111, Item { back: ExifTag::StripOffsets(vec![], strips.clone()), tag: a, fmt: 3, count: lens.len() as u32, want: Want::Blocks(strips), writable: true });
                x.insert(0x0117, Item { back: b.clone(), tag: b, fmt: 3, count: lens.len() as u32, want: Want::Bytes(le(&lens)), writable: true });
            }
            2 => {
                let data: Vec<u8> = (0..n * 3).map(|j| bytes.get(j % bytes.len().max(1)).copied().unwrap_or(0)).collect();
                let (a, b) = (ExifTag::ThumbnailOffset(vec![1; o[1] as usize % 3], data.clone()), ExifTag::ThumbnailLength(vec![data.len() as u32]));
                m.get_ifd_mut(G::GENERIC, pg).set_tag(a.clone()); m.get_ifd_mut(G::GENERIC, pg).set_tag(b.clone());
                touch(&mut d, G::GENERIC, pg);
                let x = d.get_mut(&(pg, 0)).unwrap();
                let lens = vec![data.len() as u32];
                x.insert(0x0201, Item { back: ExifTag::ThumbnailOffset(vec![], data.clone()), tag: a, fmt: 3, count: 1, want: Want::Blocks(vec![data]), writable: true });
                x.insert(0x0202, Item { back: b.clone(), tag: b, fmt: 3, count: 1, want: Want::Bytes(le(&lens)), writable: true });
            }
            3 => { let g = GROUPS[o[1] as usize % 4]; m.create_ifd(g, pg); touch(&mut d, g, pg); }
            op => {
                let mut kind = o[1] as usize % kinds(t);
                if kind >= t.len() && kind < t.len() + 4 { kind = 0; }
                let it = item(kind, n, &bytes, &e, t);
                let (h, g) = (it.tag.as_u16(), it.tag.get_group());
                if op == 5 { m.get_ifd_mut(g, pg).remove_tag(h); touch(&mut d, g, pg); d.get_mut(&(pg, gi(g))).unwrap().remove(&h); continue; }
                if op == 4 { m.set_tag(it.tag.clone()); touch(&mut d, g, 0); d.get_mut(&(0, gi(g))).unwrap().insert(h, it); }
                else { m.get_ifd_mut(g, pg).set_tag(it.tag.clone()); touch(&mut d, g, pg); d.get_mut(&(pg, gi(g))).unwrap().insert(h, it); }
            }
        }
    }
    (m, d, e)
}
/// the entries a directory has to be written with
fn entries(d: &Dirs, n: u32, g: usize) -> BTreeMap<u16, Item> {
    let mut w: BTreeMap<u16, Item> = d[&(n, g)].iter().filter(|(h, i)| i.writable && !is_sub(**h, GROUPS[g])).map(|(h, i)| (*h, i.clone())).collect();
    for (h, sub) in [(0x8769u16, G::EXIF), (0x8825, G::GPS), (0xa005, G::INTEROP)] {
        if parent(sub) == Some(GROUPS[g]) && d.contains_key(&(n, gi(sub))) {
            let t = ExifTag::ExifOffset(vec![]);
            w.insert(h, Item { back: t.clone(), tag: t, fmt: 3, count: 1, want: Want::Sub(gi(sub)), writable: true });
        }
    }
    w
}
struct Rd<'a> { b: &'a [u8], big: bool, areas: Vec<(usize, usize, String)> }
impl Rd<'_> {
    fn u16(&self, p: usize) -> Result<u16, String> { let s = self.b.get(p..p + 2).ok_or(format!("offset {p} is out of bounds"))?; Ok(if self.big { u16::from_be_bytes([s[0], s[1]]) } else { u16::from_le_bytes([s[0], s[1]]) }) }
    fn u32(&self, p: usize) -> Result<u32, String> { let s = self.b.get(p..p + 4).ok_or(format!("offset {p} is out of bounds"))?; Ok(if self.big { u32::from_be_bytes([s[0], s[1], s[2], s[3]]) } else { u32::from_le_bytes([s[0], s[1], s[2], s[3]]) }) }
    fn area(&mut self, p: usize, l: usize, what: String) -> Result<(), String> {
        if p + l > self.b.len() { return Err(format!("{what} at {p} with {l} bytes is out of bounds ({} bytes)", self.b.len())); }
        if l > 0 { self.areas.push((p, l, what)); }
        Ok(())
    }
    fn dir(&mut self, at: usize, d: &Dirs, n: u32, g: usize) -> Result<u32, String> {
        let name = format!("directory {:?} {n}", GROUPS[g]);
        if at % 2 != 0 { return Err(format!("{name} starts at the odd offset {at}")); }
        let want = entries(d, n, g);
        let cnt = self.u16(at)? as usize;
        if cnt != want.len() { return Err(format!("{name} has {cnt} entries, expected {}", want.len())); }
        self.area(at, 6 + 12 * cnt, name.clone())?;
        for (k, (h, i)) in want.iter().enumerate() {
            let p = at + 2 + 12 * k;
            let en = format!("entry {h:04x} of {name}");
            if self.u16(p)? != *h { return Err(format!("entry {k} of {name} is {:04x}, expected {h:04x}", self.u16(p)?)); }
            if self.u16(p + 2)? as usize != i.fmt + 1 { return Err(format!("{en} has format code {}, expected {}", self.u16(p + 2)?, i.fmt + 1)); }
            if self.u32(p + 4)? != i.count { return Err(format!("{en} has {} components, expected {}", self.u32(p + 4)?, i.count)); }
            let size = i.count as usize * SIZES[i.fmt];
            let vp = if size <= 4 { p + 8 } else { self.u32(p + 8)? as usize };
            if size > 4 { if vp % 2 != 0 { return Err(format!("the value of {en} is at the odd offset {vp}")); } self.area(vp, size, format!("value of {en}"))?; }
            match &i.want {
                Want::Bytes(v) => {
                    diff(&format!("value of {en}"), v, &self.b[vp..vp + size])?;
                    if size <= 4 { diff(&format!("padding of {en}"), &[0; 4][size..], &self.b[vp + size..vp + 4])?; }
                }
                Want::Blocks(bs) => for (j, b) in bs.iter().enumerate() {
                    let o = self.u32(vp + 4 * j)? as usize;
                    self.area(o, b.len(), format!("block {j} of {en}"))?;
                    diff(&format!("block {j} of {en}"), b, &self.b[o..o + b.len()])?;
                },
                Want::Sub(sg) => { let o = self.u32(vp)? as usize; let l = self.dir(o, d, n, *sg)?; if l != 0 { return Err(format!("the sub-directory of {en} links to {l}")); } }
            }
        }
        self.u32(at + 2 + 12 * cnt)
    }
}
pub fn check_p12(c: &Case) -> Res {
    let (m, d, e) = make(c, false);
    let b = encoding(&m)?;
    if d.is_empty() { return Ok(false); }
    let mut r = Rd { b: &b, big: e == Endian::Big, areas: vec![] };
    r.area(0, 8, "header".into())?;
    diff("header", if r.big { b"MM\0\x2a" } else { b"II\x2a\0" }, &b[..4])?;
    let mut next = r.u32(4)? as usize;
    for (n, _) in d.keys().filter(|k| k.1 == 0) {
        if next == 0 { return Err(format!("the chain of page directories ends before page {n}")); }
        next = r.dir(next, &d, *n, 0)? as usize;
    }
    if next != 0 { return Err(format!("the last page directory links to {next}")); }
    r.areas.sort();
    for w in r.areas.windows(2) { if w[0].0 + w[0].1 > w[1].0 { return Err(format!("{} ({}..{}) overlaps {} ({}..)", w[0].2, w[0].0, w[0].0 + w[0].1, w[1].2, w[1].0)); } }
    Ok(d.values().any(|x| !x.is_empty()))
}
fn same_dirs(got: &Metadata, want: &Dirs) -> Result<(), String> {
    let mut g: Vec<((u32, usize), Vec<ExifTag>)> = got.get_ifds().iter().map(|i| ((i.get_generic_ifd_nr(), gi(i.get_ifd_type())), i.get_tags().clone())).collect();
    g.sort_by_key(|x| x.0);
    let w: Vec<((u32, usize), Vec<ExifTag>)> = want.iter().map(|((n, k), v)| ((*n, *k), v.iter().filter(|(h, i)| i.writable && !is_sub(**h, GROUPS[*k])).map(|(_, i)| i.back.clone()).collect())).collect();
    let (gk, wk): (Vec<_>, Vec<_>) = (g.iter().map(|x| x.0).collect(), w.iter().map(|x| x.0).collect());
    if gk != wk { return Err(format!("directories (page, kind) {gk:?}, expected {wk:?}")); }
    for (a, b) in g.iter().zip(&w) { if a.1 != b.1 { return Err(format!("directory {:?} {} holds {:?}, expected {:?}", GROUPS[a.0 .1], a.0 .0, a.1, b.1)); } }
    Ok(())
}
pub fn check_p13(c: &Case) -> Res {
    let (m, mut d, e) = make(c, true);
    if d.is_empty() { return Ok(false); }
    let b = encoding(&m)?;
    let x = Metadata::new_from_vec(&b, FileExtension::TIFF).map_err(|er| format!("the encoded metadata does not decode: {er}"))?;
    if x.get_endian() != e { return Err(format!("decoded with byte order {:?}, expected {e:?}", x.get_endian())); }
    same_dirs(&x, &d)?;
    let b2 = encoding(&x)?;
    diff("encoding again", &b, &b2)?;
    // change the decoded metadata and go around once more
    let t = tab();
    let it = item(t.iter().position(|r| r.name == "Copyright").unwrap(), 5, &c.d[0], &e, t);
    let mut x = x;
    x.set_tag(it.tag.clone());
    touch(&mut d, G::GENERIC, 0);
    d.get_mut(&(0, 0)).unwrap().insert(0x8298, it);
    let y = Metadata::new_from_vec(&encoding(&x)?, FileExtension::TIFF).map_err(|er| format!("the changed metadata does not decode: {er}"))?;
    same_dirs(&y, &d)?;
    Ok(d.values().any(|x| !x.is_empty()))
}
pub fn arb(s: &mut Search, p: &str) -> Case {
    let t = tab();
    let k = kinds(t);
    let len = match s.rng.below(8) { 0 => 60 + s.rng.below(100), 1 => 0, _ => 1 + s.rng.below(20) };
    let pages = *s.rng.pick(&[1usize, 1, 2, 3, 6]);
    let focus = if s.rng.chance(1, 3) { Some(s.rng.below(t.len()) as i64) } else { None };
    let mut c = Case::new(p, "enc").num(s.rng.below(2) as i64);
    for _ in 0..len {
        let op = *s.rng.pick(&[0i64, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5]);
        let kind = match (s.rng.below(4), focus) { (0, _) => s.rng.below(k) as i64, (1, Some(f)) => f, _ => s.rng.below(t.len()) as i64 };
        let n = match s.rng.below(40) { 0 => 500 + s.rng.below(2000), 1 => 60 + s.rng.below(300), _ => arb_n(&mut s.rng) } as i64;
        let pg = match s.rng.below(20) { 0 if p == "P12" => 50, _ => s.rng.below(pages) } as i64;
        c = c.num(op).num(kind).num(n).num(pg);
    }
    let b = s.rng.bytes(24);
    c.data(&b)
}
fn gen_enc(s: &mut Search, p: &str) {
    let t = tab();
    for e in 0..2 { for k in 0..kinds(t) as i64 { for n in 0..=9 {
        if !s.case(Case::new(p, "enc").num(e).num(0).num(k).num(n).num(0).data(&[3, 140, 27, 90, 255, 0, 61])) { return; }
    } } }
    // every combination of sub-directories, strips and thumbnail, over two pages
    let w: Vec<i64> = ["Make", "FNumber", "GPSLatitude", "InteroperabilityIndex", "ImageWidth", "MakerNote", "ExifOffset", "InteropOffset"].iter().map(|n| t.iter().position(|r| r.name == *n).unwrap() as i64).collect();
    for e in 0..2 { for mask in 0..2048i64 { for n in [1i64, 3] {
        let mut c = Case::new(p, "enc").num(e);
        for (b, k) in w.iter().enumerate() { if mask >> b & 1 == 1 { c = c.num(0).num(*k).num(n + b as i64).num(if mask >> 10 & 1 == 1 { b as i64 % 2 } else { 0 }); } }
        if mask >> 8 & 1 == 1 { c = c.num(1).num(n + 1).num(5 * n).num(mask >> 10 & 1); }
        if mask >> 9 & 1 == 1 { c = c.num(2).num(n).num(n + 2).num(mask >> 10 & 1); }
        if !s.case(c.data(&[9, 77, 1, 200, 0, 31])) { return; }
    } } }
    s.notes.push(format!("{} kinds of tag x 10 sizes x 2 byte orders; 2048 combinations of sub-directories, strips, thumbnail, pages", kinds(t)));
    while s.more() { let c = arb(s, p); if !s.case(c) { return; } }
}
pub fn gen_p12(s: &mut Search) { gen_enc(s, "P12") }
pub fn gen_p13(s: &mut Search) { gen_enc(s, "P13") }

// ---------------------------------------------------------------- P14
pub fn jxl_with(exif: &[u8]) -> Vec<u8> {
    let mut o = vec![0, 0, 0, 12, b'J', b'X', b'L', b' ', 0x0d, 0x0a, 0x87, 0x0a, 0, 0, 0, 20];
    o.extend(b"ftypjxl \0\0\0\0jxl ");
    o.extend(((exif.len() + 12) as u32).to_be_bytes()); o.extend(b"Exif\0\0\0\0"); o.extend(exif);
    o
}
pub fn decode(op: &str, d: &[u8]) -> Result<Metadata, std::io::Error> {
    match op { "jxl" => Metadata::new_from_vec(&jxl_with(d), FileExtension::JXL), _ => Metadata::new_from_vec(&d.to_vec(), FileExtension::TIFF) }
}
pub fn check_p14(c: &Case) -> Res {
    let d = &c.d[0];
    let r = largest_allocation(|| decode(&c.op, d));
    let limit = 64 * d.len() + (1 << 20);
    if r.1 > limit { return Err(format!("decoding {} bytes allocates {} bytes at once", d.len(), r.1)); }
    Ok(match &r.0 { Ok(m) => m.into_iter().next().is_some(), Err(_) => d.len() >= 14 })
}
/// the invariants of decoded metadata (P16)
pub fn check_decoded(c: &Case) -> Res {
    let Ok(mut m) = decode(&c.op, &c.d[0]) else { return Ok(false) };
    crate::meta::dir_invariants(&m, false)?;
    let n = m.into_iter().count();
    m.set_tag(ExifTag::InteroperabilityIndex("R98".into()));
    m.get_ifd_mut(G::GPS, 1);
    crate::meta::dir_invariants(&m, false)?;
    Ok(n > 0)
}
pub const BASES: usize = 4;
/// well-formed data to start from
pub fn base(k: usize, e: i64) -> Vec<u8> {
    let t = tab();
    let ix = |n: &str| t.iter().position(|r| r.name == n).unwrap() as i64;
    let mut c = Case::new("P14", "enc").num(e);
    match k {
        0 => c = c.num(0).num(ix("Make")).num(9).num(0),
        1 => c = c.num(0).num(ix("Make")).num(2).num(0).num(0).num(ix("FNumber")).num(1).num(0).num(0).num(ix("GPSLatitude")).num(3).num(0).num(0).num(ix("InteroperabilityIndex")).num(3).num(0).num(0).num(ix("ISO")).num(3).num(0),
        2 => c = c.num(1).num(3).num(6).num(0).num(2).num(0).num(4).num(0).num(0).num(ix("ImageWidth")).num(1).num(0).num(0).num(ix("Compression")).num(1).num(1),
        _ => c = c.num(0).num(ix("ShutterSpeedValue")).num(1).num(0).num(0).num(t.len() as i64 + 4 + 10).num(3).num(0).num(0).num(ix("GPSAltitudeRef")).num(1).num(0).num(0).num(ix("XResolution")).num(1).num(2).num(0).num(ix("MakerNote")).num(20).num(1),
    }
    encoding(&make(&c.data(&[5, 66, 1, 130, 8, 0, 21]), true).0).unwrap()
}
pub fn interesting(r: &mut Rng, len: usize) -> u32 {
    match r.below(8) { 0 => 0, 1 => 8, 2 => len as u32, 3 => (len as u32).wrapping_sub(1 + r.below(20) as u32), 4 => *r.pick(&[0xffffffff, 0x7fffffff, 0x80000000, 0x40000000, 0x20000000, 0xfffffff0, 0x00010000, 0x0000ffff]), _ => r.below(len + 10) as u32 }
}
/// a directory chain with entries chosen at random, mostly plausible
pub fn wild(s: &mut Search) -> Vec<u8> {
    let t = tab();
    let big = s.rng.chance(1, 2);
    let total = 40 + s.rng.below(300);
    let mut o = vec![0u8; total];
    for b in o.iter_mut() { *b = if s.rng.chance(1, 2) { 0 } else { s.rng.u8() }; }
    let p16 = |o: &mut Vec<u8>, p: usize, v: u16| if p + 2 <= o.len() { o[p..p + 2].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() }) };
    let p32 = |o: &mut Vec<u8>, p: usize, v: u32| if p + 4 <= o.len() { o[p..p + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() }) };
    o[..2].copy_from_slice(if big { b"MM" } else { b"II" });
    p16(&mut o, 2, 42);
    let ndirs = 1 + s.rng.below(4);
    let starts: Vec<usize> = (0..ndirs).map(|_| 8 + s.rng.below(total.saturating_sub(14).max(1))).collect();
    p32(&mut o, 4, starts[0] as u32);
    for i in 0..ndirs {
        let a = starts[i];
        let n = s.rng.below(5).min((total.saturating_sub(a + 6)) / 12);
        p16(&mut o, a, n as u16);
        for k in 0..n {
            let p = a + 2 + 12 * k;
            let row = &t[s.rng.below(t.len())];
            let (h, f) = if s.rng.chance(1, 3) { (*s.rng.pick(&[0x8769u16, 0x8825, 0xa005, 0x0111, 0x0117, 0x0201, 0x0202, 0x0005, 0x001b]), *s.rng.pick(&[4u16, 4, 3, 2, 1, 7])) }
                else { (row.hex, if s.rng.chance(3, 4) { fi(&row.format) as u16 + 1 } else { s.rng.below(14) as u16 }) };
            p16(&mut o, p, h); p16(&mut o, p + 2, f);
            p32(&mut o, p + 4, match s.rng.below(8) { 0 => interesting(&mut s.rng, total), _ => s.rng.below(6) as u32 });
            p32(&mut o, p + 8, if s.rng.chance(1, 2) { *s.rng.pick(&starts) as u32 } else { interesting(&mut s.rng, total) });
        }
        p32(&mut o, a + 2 + 12 * n, match s.rng.below(3) { 0 => 0, 1 => *s.rng.pick(&starts) as u32, _ => interesting(&mut s.rng, total) });
    }
    o
}
pub fn gen_bytes(s: &mut Search, p: &str) {
    for op in ["tiff", "jxl"] { for l in 0..16 { for f in [0u8, 0x49, 0x4d, 0xff] { if !s.case(Case::new(p, op).data(&vec![f; l])) { return; } } } }
    for k in 0..BASES { for e in 0..2 {
        let b = base(k, e);
        for op in ["tiff", "jxl"] { for l in 0..=b.len() { if !s.case(Case::new(p, op).data(&b[..l])) { return; } } }
        for i in 0..b.len() {
            for v in [0u8, 1, 2, 3, 4, 5, 7, 8, 12, 13, 0x7f, 0x80, 0xfe, 0xff] { let mut x = b.clone(); x[i] = v; if !s.case(Case::new(p, "tiff").data(&x)) { return; } }
            if i + 4 <= b.len() { for v in [0u32, 8, b.len() as u32, b.len() as u32 - 1, 0xffffffff, 0x7fffffff, 0x40000001, 0x20000000] {
                for le in [true, false] { let mut x = b.clone(); x[i..i + 4].copy_from_slice(&if le { v.to_le_bytes() } else { v.to_be_bytes() }); if !s.case(Case::new(p, "tiff").data(&x)) { return; } }
            } }
        }
    } }
    s.notes.push("4 well-formed files in both byte orders: all truncations, 14 values at every byte, 8 numbers at every place".into());
    while s.more() {
        let op = if s.rng.chance(1, 6) { "jxl" } else { "tiff" };
        let d = match s.rng.below(4) {
            0 => { let l = s.rng.below(200); let mut x = s.rng.bytes(l); if l > 14 { x[..8].copy_from_slice(b"II\x2a\0\x08\0\0\0"); x[8] %= 8; x[9] = 0; } x }
            1 => { let mut x = base(s.rng.below(BASES), s.rng.below(2) as i64); for _ in 0..1 + s.rng.below(6) { let i = s.rng.below(x.len()); let l = x.len(); if s.rng.chance(1, 2) { x[i] = s.rng.u8(); } else if i + 4 <= l { let v = interesting(&mut s.rng, l); x[i..i + 4].copy_from_slice(&v.to_le_bytes()); } } x }
            _ => wild(s),
        };
        if !s.case(Case::new(p, op).data(&d)) { return; }
    }
}
pub fn gen_p14(s: &mut Search) { gen_bytes(s, "P14") }
