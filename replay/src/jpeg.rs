use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension as F;
use little_exif::metadata::Metadata;

const EXIF: &[u8] = b"Exif\0\0";

/// end of entropy-coded data starting at i (index of the 0xFF of the next marker)
fn scan_end(s: &[u8], mut i: usize) -> Option<usize> {
    while i + 1 < s.len() {
        if s[i] == 0xff {
            if s[i + 1] == 0 || (0xd0..=0xd7).contains(&s[i + 1]) { i += 2; } else { return Some(i); }
        } else { i += 1; }
    }
    None
}

/// (kind, start of 0xFF directly before the marker, end) of the segments up to EOI / end of data; Err: mangled
fn segments(s: &[u8]) -> (Vec<(u8, usize, usize)>, bool) {
    let mut v = vec![];
    let mut i = 2;
    loop {
        // to the next marker: 0xFF, then fill bytes, then something that is not 0xFF
        while i < s.len() && s[i] != 0xff { i += 1; }
        while i < s.len() && s[i] == 0xff { i += 1; }
        if i >= s.len() { return (v, true); }
        let m = s[i];
        if m == 0xd9 { return (v, true); }
        if i + 3 > s.len() { return (v, false); }
        let l = s[i + 1] as usize * 256 + s[i + 2] as usize;
        if l < 2 { return (v, false); }
        let e = i + 1 + l;
        v.push((m, i - 1, e));
        i = e;
        if m == 0xda {
            match scan_end(s, e) { Some(j) => i = j, None => return (v, true) }
        }
    }
}
/// the input without its matching segments, found one after the other
pub fn reference_clear(s: &[u8], marker: u8, prefix: Option<&[u8]>) -> Option<Vec<u8>> {
    if s.len() < 2 || s[0] != 0xff || s[1] != 0xd8 { return None; }
    let mut cur = s.to_vec();
    let mut done = 2;           // everything before this position has been walked
    loop {
        // walk from `done`
        let mut t = vec![0xff, 0xd8]; t.extend(&cur[done..]);
        let (segs, ok) = segments(&t);
        let mut hit = None;
        for (m, a, e) in &segs {
            if *m != marker { continue; }
            match prefix {
                None => { hit = Some((*a, *e)); break; }
                Some(p) => {
                    if p.len() > e - (a + 4) { continue; }
                    if a + 4 + p.len() > t.len() { return None; }
                    if &t[a + 4..a + 4 + p.len()] == p { hit = Some((*a, *e)); break; }
                }
            }
        }
        match hit {
            None => return if ok { Some(cur) } else { None },
            Some((a, e)) => {
                let mut n = cur[..done + a - 2].to_vec();
                if done + e - 2 < cur.len() { n.extend(&cur[done + e - 2..]); }
                done = done + a - 2;
                cur = n;
            }
        }
    }
}

fn seg(m: u8, p: &[u8]) -> Vec<u8> { let l = p.len() + 2; let mut v = vec![0xff, m, (l >> 8) as u8, l as u8]; v.extend(p); v }

pub fn random_jpeg(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![0xff, 0xd8];
    let n = r.below(7);
    for _ in 0..n {
        if r.chance(1, 12) { v.push(0xff); if r.chance(1, 3) { v.push(0xff); } }
        if r.chance(1, 40) { let g = r.below(4); v.extend((0..g).map(|i| 0x10 + i as u8)); }
        match r.below(12) {
            0 | 1 => { let k = r.below(30); let mut p = EXIF.to_vec(); p.extend(r.bytes(k)); v.extend(seg(0xe1, &p)); }
            2 => { let mut p = b"http://ns.adobe.com/xap/1.0/\0".to_vec(); let k = r.below(20); p.extend(r.bytes(k)); v.extend(seg(0xe1, &p)); }
            3 => { let k = r.below(8); v.extend(seg(0xe1, &EXIF[..k.min(6)])); }
            4 => { let k = r.below(20); let b = r.bytes(k); v.extend(seg(0xec, &b)); }
            5 => { let k = r.below(20); let b = r.bytes(k); v.extend(seg(0xed, &b)); }
            6 => { let k = r.below(20); let mut b = r.bytes(k); if k > 4 { b[2] = 0xff; b[3] = 0xe1; } v.extend(seg(0xe0, &b)); }
            7 => { let k = r.below(300); let b = r.bytes(k); v.extend(seg(0xdb, &b)); }
            8 | 9 => {
                let k = r.below(6); let b = r.bytes(k); v.extend(seg(0xda, &b));
                for _ in 0..r.below(20) {
                    match r.below(5) { 0 => v.extend([0xff, 0]), 1 => v.extend([0xff, 0xd0 + r.below(8) as u8]), 2 => v.extend([0xe1, 0xd9]), _ => { let x = r.u8(); v.push(if x == 0xff { 1 } else { x }) } }
                }
            }
            10 => { let k = r.below(4); let mut b = b"Exif".to_vec(); b.extend(r.bytes(k)); v.extend(seg(0xe1, &b)); }
            _ => { let k = r.below(10); let mut b = EXIF.to_vec(); b.extend(r.bytes(k)); let m = *r.pick(&[0xe0u8, 0xe2, 0xec, 0xed]); v.extend(seg(m, &b)); }
        }
    }
    if r.chance(5, 6) { v.extend([0xff, 0xd9]); }
    if r.chance(1, 4) { v.extend(r.bytes(5)); if r.chance(1, 2) { v.extend(seg(0xe1, b"Exif\0\0after the end")); } }
    match r.below(12) {
        0 => { let k = r.below(v.len() + 1); v.truncate(k); }
        1 => { let k = r.below(v.len()); v[k] = *r.pick(&[0u8, 1, 0xff, 0xe1, 0xd9, 0xda]); }
        2 => { let k = r.below(v.len()); v.remove(k); }
        _ => {}
    }
    v
}

const OPS: [(&str, u8, Option<&[u8]>); 3] = [("exif", 0xe1, Some(EXIF)), ("app12", 0xec, None), ("app13", 0xed, None)];
fn apply(op: &str, v: &mut Vec<u8>) -> std::io::Result<()> {
    match op {
        "exif" => Metadata::clear_metadata(v, F::JPEG),
        "app12" => Metadata::clear_app12_segment(v, F::JPEG),
        _ => Metadata::clear_app13_segment(v, F::JPEG),
    }
}

pub fn check_p01(c: &Case) -> Res {
    let (_, m, p) = OPS.iter().find(|o| o.0 == c.op).unwrap();
    let s = &c.d[0];
    let want = reference_clear(s, *m, *p);
    let mut got = s.clone();
    let r = apply(&c.op, &mut got);
    match (&want, &r) {
        (Some(w), Ok(())) => { diff("cleared data", w, &got)?; Ok(w != s) }
        (None, Err(_)) => Ok(false),
        (Some(_), Err(e)) => Err(format!("clearing failed on data that can be cleared: {e}")),
        (None, Ok(())) => Err("clearing succeeded on mangled data".into()),
    }
}

pub fn gen_p01(s: &mut Search) {
    // every sequence of up to 3 of these pieces after SOI, each cut off at every length
    let pieces: Vec<Vec<u8>> = vec![
        seg(0xe1, b"Exif\0\0x"), seg(0xe1, b"http"), seg(0xe1, b"Exi"), seg(0xec, b"12"), seg(0xed, b""), seg(0xe0, b"\xff\xe1"),
        { let mut v = seg(0xda, b"s"); v.extend([1, 0xff, 0, 0xff, 0xd3, 2]); v }, vec![0xff], vec![0xff, 0xd9], vec![7],
        vec![0xff, 0xe1, 0, 1], vec![0xff, 0xe1, 0, 40, 69], vec![0xff, 0xdb, 0, 40], seg(0xd8, b"x"),
    ];
    let n = pieces.len();
    for a in 0..=n { for b in 0..=n { for e in 0..=n {
        let mut v = vec![0xff, 0xd8];
        for k in [a, b, e] { if k < n { v.extend(&pieces[k]); } }
        for op in OPS { if !s.case(Case::new("P01", op.0).data(&v)) { return; } }
        for cut in 1..v.len().min(12) { if !s.case(Case::new("P01", "exif").data(&v[..v.len() - cut])) { return; } }
    } } }
    s.notes.push(format!("all sequences of <=3 of {n} pieces, all truncations by <12 bytes"));
    while s.more() {
        let v = random_jpeg(&mut s.rng);
        let op = s.rng.pick(&OPS).0;
        if !s.case(Case::new("P01", op).data(&v)) { return; }
    }
}

/// metadata whose encoding has a length close to n
fn meta_of(n: usize) -> Metadata { let mut m = Metadata::new(); if n > 0 { m.set_tag(ExifTag::ImageDescription("a".repeat(n))); } m }

pub fn check_p02(c: &Case) -> Res {
    let s = &c.d[0];
    let m = meta_of(c.n[0] as usize);
    let x = crate::util::encoding(&m)?;
    let clear = reference_clear(s, 0xe1, Some(EXIF));
    let fits = x.len() + 8 <= 0xffff;
    let segm = m.as_u8_vec(F::JPEG);
    let mut want_seg = vec![0xff, 0xe1, ((x.len() + 8) >> 8) as u8, (x.len() + 8) as u8];
    want_seg.extend(EXIF); want_seg.extend(&x);
    match &segm {
        Ok(v) => { if !fits { return Err(format!("a segment of {} bytes was produced", v.len())); } diff("segment", &want_seg, v)?; }
        Err(e) => if fits { return Err(format!("encoding failed: {e}")); }
    }
    let mut got = s.clone();
    let r = m.write_to_vec(&mut got, F::JPEG);
    match (&clear, fits, &r) {
        (Some(w), true, Ok(())) => {
            let mut want = vec![0xff, 0xd8]; want.extend(&want_seg); want.extend(&w[2..]);
            diff("written data", &want, &got)?;
            let back = Metadata::new_from_vec(&got, F::JPEG).map_err(|e| format!("cannot read back: {e}"))?;
            diff("metadata read back", &x, &encoding(&back)?)?;
            let want2 = { let c2 = reference_clear(&got, 0xe1, Some(EXIF)); c2.map(|w| { let mut v = vec![0xff, 0xd8]; v.extend(&want_seg); v.extend(&w[2..]); v }) };
            let r2 = m.write_to_vec(&mut got, F::JPEG);
            if let (Some(w2), Ok(())) = (&want2, &r2) { diff("data after a second write", w2, &got)?; }
            else if want2.is_some() { return Err("second write failed".into()); }
            Ok(true)
        }
        (_, _, Err(_)) if clear.is_none() || !fits => { if clear.is_some() { diff("buffer after a refused write", s, &got)?; } Ok(false) }
        (_, _, Err(e)) => Err(format!("write failed: {e}")),
        _ => Err("write succeeded although it must be refused".into()),
    }
}

pub fn gen_p02(s: &mut Search) {
    let base = { let mut v = vec![0xff, 0xd8]; v.extend(seg(0xe0, b"JFIF\0")); v.extend(seg(0xe1, b"Exif\0\0old")); v.extend(seg(0xe1, b"http://xmp")); v.extend([0xff, 0xd9]); v };
    let e0 = encoding(&meta_of(1000)).map(|x| x.len()).unwrap_or(1030);
    let over = e0 - 1000;
    for n in (0..300).chain(32740..32790).chain(65527 - over - 12..65527 - over + 12).chain([65536, 66000, 70000, 131072, 200000]) {
        if !s.case(Case::new("P02", "write").data(&base).num(n as i64)) { return; }
    }
    s.notes.push("payload sizes 0..300, around 2^15 and around the segment limit".into());
    while s.more() {
        let v = random_jpeg(&mut s.rng);
        let n = s.rng.below(64);
        if !s.case(Case::new("P02", "write").data(&v).num(n as i64)) { return; }
    }
}
