//! P10: value codec against byte-level references; P11: tag table against the table of tags.rs
use crate::meta::tab;
use crate::tags::*;
use crate::util::*;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat as Fm;
use little_exif::ifd::ExifTagGroup as G;
use little_exif::rational::{iR64, uR64};
use little_exif::u8conversion::U8conversion;

/// the bytes of components given in little-endian order, in the order asked for
fn ordered(le: &[u8], part: usize, e: &Endian) -> Vec<u8> {
    if *e == Endian::Little { return le.to_vec(); }
    le.chunks(part).flat_map(|c| c.iter().rev().copied().collect::<Vec<u8>>()).collect()
}
/// a decoder's answer, or what it panicked with
fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| "panic".to_string())
}
/// scalar and list of one component type, `part` bytes per number
fn numeric<T: U8conversion<T> + Clone + PartialEq + std::fmt::Debug>(name: &str, size: usize, part: usize, data: &[u8], e: &Endian, mk: impl Fn(&[u8]) -> T, same: impl Fn(&T, &T) -> bool) -> Res
where Vec<T>: U8conversion<Vec<T>> {
    let full = &data[..data.len() / size * size];
    let vals: Vec<T> = full.chunks(size).map(|c| mk(c)).collect();
    let want = ordered(full, part, e);
    for (v, w) in vals.iter().zip(want.chunks(size)) {
        diff(&format!("{name} {v:?} in {e:?} order"), w, &v.to_u8_vec(e))?;
        let back = caught(|| T::from_u8_vec_res(w, e))?.map_err(|x| format!("{name}: decoding {} fails: {x}", hex(w)))?;
        if !same(&back, v) { return Err(format!("{name}: {v:?} in {e:?} order decodes to {back:?}")); }
        let back = caught(|| T::from_u8_vec(w, e))?;
        if !same(&back, v) { return Err(format!("{name}: {v:?} in {e:?} order decodes to {back:?}")); }
    }
    diff(&format!("list of {} {name} in {e:?} order", vals.len()), &want, &vals.to_u8_vec(e))?;
    let back = caught(|| Vec::<T>::from_u8_vec_res(&want, e))?.map_err(|x| format!("list of {name}: decoding fails: {x}"))?;
    if back.len() != vals.len() || back.iter().zip(&vals).any(|(a, b)| !same(a, b)) { return Err(format!("list of {name}: {vals:?} in {e:?} order decodes to {back:?}")); }
    let back = caught(|| Vec::<T>::from_u8_vec(&want, e))?;
    if back.len() != vals.len() || back.iter().zip(&vals).any(|(a, b)| !same(a, b)) { return Err(format!("list of {name}: {vals:?} in {e:?} order decodes to {back:?}")); }
    // every length of the data: only the right ones decode
    for l in 0..data.len().min(3 * size) + 1 {
        let b = &data[..l.min(data.len())];
        let s = caught(|| T::from_u8_vec_res(b, e)).map_err(|_| format!("{name}: decoding {} bytes panics", b.len()))?;
        if s.is_ok() != (b.len() == size) { return Err(format!("{name}: decoding {} bytes gives {s:?}", b.len())); }
        let s = caught(|| Vec::<T>::from_u8_vec_res(b, e)).map_err(|_| format!("list of {name}: decoding {} bytes panics", b.len()))?;
        if s.is_ok() != (b.len() % size == 0) { return Err(format!("list of {name}: decoding {} bytes gives {s:?}", b.len())); }
        if let Ok(v) = s { if v.len() != b.len() / size { return Err(format!("list of {name}: {} bytes decode to {} components", b.len(), v.len())); } }
    }
    Ok(!vals.is_empty())
}
fn text(data: &[u8], e: &Endian) -> Res {
    let t: String = String::from_utf8_lossy(data).trim_end_matches('\0').to_string();
    let mut want = t.as_bytes().to_vec(); want.push(0);
    diff(&format!("text {t:?}"), &want, &t.to_u8_vec(e))?;
    for extra in 0..3 {
        let mut b = want.clone(); b.resize(want.len() - 1 + extra, 0);
        let back = caught(|| String::from_u8_vec_res(&b, e))?.map_err(|x| format!("text: {x}"))?;
        if back != t { return Err(format!("text {t:?} with {extra} zero bytes decodes to {back:?}")); }
    }
    if std::str::from_utf8(data).is_err() {
        let back = caught(|| String::from_u8_vec_res(data, e))?.map_err(|x| format!("text: {x}"))?;
        let w: String = data.iter().filter(|b| **b > 0).map(|b| *b as char).collect();
        if back != w { return Err(format!("text bytes {} decode to {back:?}, expected {w:?}", hex(data))); }
    }
    Ok(!t.is_empty())
}
fn le<const N: usize>(b: &[u8]) -> [u8; N] { let mut a = [0; N]; a.copy_from_slice(&b[..N]); a }
pub fn check_p10(c: &Case) -> Res {
    let e = endian(c.n[1] != 0);
    let d = &c.d[0];
    if c.op == "all16" {
        // every 16-bit value, alone
        for x in 0..=u16::MAX {
            if x.to_u8_vec(&e) != ordered(&x.to_le_bytes(), 2, &e) || u16::from_u8_vec_res(&ordered(&x.to_le_bytes(), 2, &e), &e).ok() != Some(x) { return Err(format!("INT16U {x} in {e:?} order")); }
            let y = x as i16;
            if y.to_u8_vec(&e) != ordered(&y.to_le_bytes(), 2, &e) || i16::from_u8_vec_res(&ordered(&y.to_le_bytes(), 2, &e), &e).ok() != Some(y) { return Err(format!("INT16S {y} in {e:?} order")); }
        }
        return Ok(true);
    }
    match c.n[0] {
        0 => numeric("INT8U", 1, 1, d, &e, |b| b[0], |a, b| a == b),
        1 => numeric("INT8S", 1, 1, d, &e, |b| b[0] as i8, |a, b| a == b),
        2 => numeric("INT16U", 2, 2, d, &e, |b| u16::from_le_bytes(le(b)), |a, b| a == b),
        3 => numeric("INT16S", 2, 2, d, &e, |b| i16::from_le_bytes(le(b)), |a, b| a == b),
        4 => numeric("INT32U", 4, 4, d, &e, |b| u32::from_le_bytes(le(b)), |a, b| a == b),
        5 => numeric("INT32S", 4, 4, d, &e, |b| i32::from_le_bytes(le(b)), |a, b| a == b),
        6 => numeric("64-bit", 8, 8, d, &e, |b| u64::from_le_bytes(le(b)), |a, b| a == b),
        7 => numeric("64-bit signed", 8, 8, d, &e, |b| i64::from_le_bytes(le(b)), |a, b| a == b),
        8 => numeric("FLOAT", 4, 4, d, &e, |b| f32::from_le_bytes(le(b)), |a, b| a.to_bits() == b.to_bits()),
        9 => numeric("DOUBLE", 8, 8, d, &e, |b| f64::from_le_bytes(le(b)), |a, b| a.to_bits() == b.to_bits()),
        10 => numeric("RATIONAL64U", 8, 4, d, &e, |b| uR64 { nominator: u32::from_le_bytes(le(b)), denominator: u32::from_le_bytes(le(&b[4..])) }, |a, b| a == b),
        11 => numeric("RATIONAL64S", 8, 4, d, &e, |b| iR64 { nominator: i32::from_le_bytes(le(b)), denominator: i32::from_le_bytes(le(&b[4..])) }, |a, b| a == b),
        _ => text(d, &e),
    }
}
pub fn gen_p10(s: &mut Search) {
    for e in 0..2 { if !s.case(Case::new("P10", "all16").num(0).num(e).data(&[])) { return; } }
    for k in 0..13 { for e in 0..2 {
        // every byte at every place, over a few fillings
        for fill in [0u8, 0xff, 0x7f, 0x80] { for p in 0..8 { for b in 0..=255u8 {
            let mut d = vec![fill; 8]; d[p] = b;
            if !s.case(Case::new("P10", "val").num(k).num(e).data(&d)) { return; }
        } } }
        for l in 0..70 { let d = s.rng.bytes(l); if !s.case(Case::new("P10", "val").num(k).num(e).data(&d)) { return; } }
    } }
    s.notes.push("all 16-bit values; every byte value at each of 8 places over 4 fillings; all lengths up to 69; for each type and byte order".into());
    let edge = [0u8, 0xff, 0x7f, 0x80, 1, 0xc2, 0xa0, 0xe2, 0x82, 0xac];
    while s.more() {
        let l = match s.rng.below(10) { 0 => s.rng.below(2000), 1..=4 => 8 * s.rng.below(12), _ => s.rng.below(60) };
        let d: Vec<u8> = (0..l).map(|_| if s.rng.chance(1, 2) { *s.rng.pick(&edge) } else { s.rng.u8() }).collect();
        let c = Case::new("P10", "val").num(s.rng.below(13) as i64).num(s.rng.below(2) as i64).data(&d);
        if !s.case(c) { return; }
    }
}

fn fi(f: &Fm) -> usize { FORMATS.iter().position(|x| x == f).unwrap() }
const STRUCT: [u16; 4] = [0x0111, 0x0117, 0x0201, 0x0202];
fn check_tag(t: &ExifTag, hex: u16, g: G, f: &Fm) -> Result<(), String> {
    let g = if STRUCT.contains(&hex) { G::GENERIC } else { g };
    if t.as_u16() != hex { return Err(format!("{t:?} reports number {:04x}, expected {hex:04x}", t.as_u16())); }
    if t.get_group() != g { return Err(format!("{t:?} reports group {:?}, expected {g:?}", t.get_group())); }
    if t.format() != *f { return Err(format!("{t:?} reports format {:?}, expected {f:?}", t.format())); }
    if t.is_string() != (*f == Fm::STRING) { return Err(format!("{t:?} is_string {}", t.is_string())); }
    Ok(())
}
pub fn check_p11(c: &Case) -> Res {
    let t = tab();
    match c.op.as_str() {
        // one number in all groups
        "number" => {
            let h = c.n[0] as u16;
            for g in GROUPS {
                let known = t.iter().find(|r| r.hex == h && r.group == g);
                match caught(|| ExifTag::from_u16(h, &g)).map_err(|_| format!("looking up {h:04x} in {g:?} panics"))? {
                    Ok(x) => {
                        if x.is_unknown() { return Err(format!("{h:04x} in {g:?} gives {x:?}")); }
                        if STRUCT.contains(&h) && known.is_none() { check_tag(&x, h, g, &Fm::INT32U)?; }
                        else {
                            let r = known.ok_or(format!("{h:04x} in {g:?} gives {x:?}, but there is no such tag"))?;
                            check_tag(&x, h, g, &r.format)?;
                            let d = format!("{x:?}");
                            if !d.starts_with(&format!("{}(", r.name)) { return Err(format!("{h:04x} in {g:?} gives {d}, expected {}", r.name)); }
                            if x.is_writable() != r.writable { return Err(format!("{d} is_writable is {}", x.is_writable())); }
                            let n = if r.format == Fm::STRING { 1 } else { r.count.unwrap_or(0) };
                            if x.number_of_components() != n { return Err(format!("empty {d} has {} components, expected {n}", x.number_of_components())); }
                        }
                    }
                    Err(_) => if let Some(r) = known { return Err(format!("{h:04x} in {g:?} is not recognised ({})", r.name)); }
                              else if STRUCT.contains(&h) { return Err(format!("{h:04x} in {g:?} is not recognised")); },
                }
                // with data: the same tag, or an Unknown tag of that format
                for (i, f) in FORMATS.iter().enumerate() {
                    let want = known.map(|r| r.format.clone()).unwrap_or(if STRUCT.contains(&h) { Fm::INT32U } else { f.clone() });
                    let _ = i;
                    if want != *f { continue; }
                    let x = caught(|| ExifTag::from_u16_with_data(h, f, &vec![], &Endian::Little, &g)).map_err(|_| format!("{h:04x} in {g:?} with no data panics"))?.map_err(|e| format!("{h:04x} in {g:?}: {e}"))?;
                    check_tag(&x, h, g, f)?;
                    if x.is_unknown() != (known.is_none() && !STRUCT.contains(&h)) { return Err(format!("{h:04x} in {g:?} with data gives {x:?}")); }
                    let y = unknown(i, &mut Src(&[], 0), 0, h, g);
                    check_tag(&y, h, if STRUCT.contains(&h) { y.get_group() } else { g }, f).or_else(|m| if STRUCT.contains(&h) { Ok(()) } else { Err(m) })?;
                    if y.unknown_is_justified() != (known.is_none() && !STRUCT.contains(&h)) { return Err(format!("unknown_is_justified of {y:?} is {}", y.unknown_is_justified())); }
                }
            }
            Ok(t.iter().any(|r| r.hex == h))
        }
        // one format code
        "code" => {
            let h = c.n[0] as u16;
            let want = if (1..=12).contains(&h) { Some(FORMATS[h as usize - 1].clone()) } else { None };
            let got = caught(|| Fm::from_u16(h)).map_err(|_| format!("format code {h} panics"))?;
            if got != want { return Err(format!("format code {h} gives {got:?}, expected {want:?}")); }
            if let Some(f) = got {
                if f.as_u16() != h { return Err(format!("{f:?} has code {}, expected {h}", f.as_u16())); }
                if f.bytes_per_component() as usize != SIZES[h as usize - 1] { return Err(format!("{f:?} has {} bytes per component", f.bytes_per_component())); }
                return Ok(true);
            }
            Ok(false)
        }
        // a tag with a value, rebuilt
        _ => {
            let tag = build(c.n[0] as usize, c.n[1] as usize, &c.d[0], t);
            let e = endian(c.n[2] != 0);
            let (h, g, f) = (tag.as_u16(), tag.get_group(), tag.format());
            if let Some(r) = t.get(c.n[0] as usize) { check_tag(&tag, r.hex, r.group, &r.format)?; }
            let n = tag.number_of_components() as usize;
            if STRUCT.contains(&h) { return Ok(false); }
            let b = tag.value_as_u8_vec(&e);
            let len = b.len() / f.bytes_per_component() as usize;
            if b.len() % SIZES[fi(&f)] != 0 { return Err(format!("{tag:?} encodes to {} bytes", b.len())); }
            if c.n[1] > 0 && n != len { return Err(format!("{tag:?} has {n} components but encodes to {len}")); }
            if f != Fm::STRING && len != c.n[1] as usize { return Err(format!("{tag:?} encodes to {len} components, expected {}", c.n[1])); }
            let x = caught(|| ExifTag::from_u16_with_data(h, &f, &b, &e, &g)).map_err(|_| format!("rebuilding {tag:?} panics"))?.map_err(|m| format!("rebuilding {tag:?}: {m}"))?;
            if x != tag { return Err(format!("{tag:?} is rebuilt as {x:?}")); }
            check_tag(&x, h, g, &f)?;
            Ok(c.n[1] > 0)
        }
    }
}
pub fn gen_p11(s: &mut Search) {
    let t = tab();
    for h in 0..=u16::MAX { if !s.case(Case::new("P11", "number").num(h as i64)) { return; } }
    for h in 0..=u16::MAX { if !s.case(Case::new("P11", "code").num(h as i64)) { return; } }
    for k in 0..kinds(t) as i64 { for n in [0, 1, 2, 3, 4, 7] { for e in 0..2 {
        let d = s.rng.bytes(40);
        if !s.case(Case::new("P11", "rebuild").num(k).num(n).num(e).data(&d)) { return; }
    } } }
    s.notes.push(format!("all 65536 numbers x 4 groups x formats, all 65536 format codes, {} kinds of tag x 6 sizes x 2 byte orders", kinds(t)));
    while s.more() {
        let d = { let l = 8 + s.rng.below(400); s.rng.bytes(l) };
        let c = Case::new("P11", "rebuild").num(s.rng.below(kinds(t)) as i64).num(arb_n(&mut s.rng) as i64).num(s.rng.below(2) as i64).data(&d);
        if !s.case(c) { return; }
    }
}
