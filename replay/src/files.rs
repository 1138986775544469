//! P21: an operation on a file does what the operation on a buffer does; P22: reading never panics or hangs
use crate::filetype::{image, of_kind, signature, Scratch};
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension as F;
use little_exif::metadata::Metadata;
use std::str::FromStr;

const NAMES: [(&str, &str); 6] = [("png", "PNG"), ("jpg", "JPEG"), ("jxl", "JXL"), ("tif", "TIFF"), ("webp", "WEBP"), ("heic", "HEIF")];
fn show(r: &Result<(), std::io::Error>) -> String { match r { Ok(()) => "success".into(), Err(e) => format!("an error ({e})") } }

// num: operations (0 clear, 1 and 2 clear APP12, APP13, 3 read, 10+i write metadata i); data: content, TIFF encodings of metadata; str: extension
pub fn check(c: &Case) -> Res {
    let f = F::from_str(&c.s[0]).map_err(|_| "case")?;
    let ms: Vec<Metadata> = c.d[1..].iter().map(|x| if x.is_empty() { Ok(Metadata::new()) } else { Metadata::new_from_vec(x, F::TIFF) }).collect::<Result<_, _>>().map_err(|e| format!("case {e}"))?;
    let s = Scratch::new(); let p = s.0.join(format!("x.{}", c.s[0]));
    if c.op == "missing" {
        for n in &c.n {
            let r = match n { 0 => Metadata::file_clear_metadata(&p), 1 => Metadata::file_clear_app12_segment(&p), 2 => Metadata::file_clear_app13_segment(&p), 3 => Metadata::new_from_path(&p).map(|_| ()), n => ms[*n as usize - 10].write_to_file(&p) };
            if r.is_ok() || p.exists() { return Err("an operation on a missing file succeeds or creates it".into()); }
        }
        return Ok(true);
    }
    let mut v = c.d[0].clone();
    std::fs::write(&p, &v).unwrap();
    let mut any = false;
    for n in &c.n {
        let before = v.clone();
        if *n == 3 {
            let g = signature(&v).map(of_kind).unwrap_or(f);
            let (a, b) = (Metadata::new_from_vec(&v, g), Metadata::new_from_path(&p));
            match (&a, &b) {
                (Ok(a), Ok(b)) => {
                    let same = match (a.encode(), b.encode()) { (Ok(x), Ok(y)) => x == y, (Err(_), Err(_)) => true, _ => false };
                    if !same { return Err("the metadata read from the file differs from that read from the buffer".into()); }
                    any |= !a.get_ifds().is_empty();
                }
                (Err(_), Err(_)) => {}
                _ => return Err(format!("reading the buffer gives {}, reading the file {}", show(&a.map(|_| ())), show(&b.map(|_| ())))),
            }
            diff("the file after reading it", &before, &std::fs::read(&p).unwrap())?;
            continue;
        }
        let (what, a, b) = match n {
            0 => ("clear", Metadata::clear_metadata(&mut v, f), Metadata::file_clear_metadata(&p)),
            1 => ("clear of APP12", Metadata::clear_app12_segment(&mut v, f), Metadata::file_clear_app12_segment(&p)),
            2 => ("clear of APP13", Metadata::clear_app13_segment(&mut v, f), Metadata::file_clear_app13_segment(&p)),
            n => { let m = &ms[*n as usize - 10]; ("write", m.write_to_vec(&mut v, f), m.write_to_file(&p)) }
        };
        if a.is_ok() != b.is_ok() { return Err(format!("{what}: on the buffer {}, on the file {}", show(&a), show(&b))); }
        if a.is_err() { v = before; diff(&format!("the file after a {what} that failed"), &v, &std::fs::read(&p).unwrap())?; continue; }
        diff(&format!("the file after a {what}"), &v, &std::fs::read(&p).unwrap())?;
        any |= v != before;
    }
    Ok(any)
}
/// a TIFF with what a TIFF has to have
fn tiff_image(r: &mut Rng) -> Metadata {
    let mut m = Metadata::new();
    let x = r.below(400); let strips = vec![r.bytes(x), vec![1, 2, 3]];
    m.set_tag(ExifTag::ImageWidth(vec![4])); m.set_tag(ExifTag::ImageHeight(vec![4])); m.set_tag(ExifTag::Compression(vec![1])); m.set_tag(ExifTag::PhotometricInterpretation(vec![1])); m.set_tag(ExifTag::RowsPerStrip(vec![2]));
    m.set_tag(ExifTag::StripByteCounts(strips.iter().map(|x| x.len() as u32).collect())); m.set_tag(ExifTag::StripOffsets(vec![], strips));
    m.set_tag(ExifTag::XResolution(vec![72u32.into()])); m.set_tag(ExifTag::YResolution(vec![72u32.into()])); m.set_tag(ExifTag::ResolutionUnit(vec![2]));
    if r.chance(1, 2) { m.set_tag(ExifTag::Orientation(vec![1])); }
    m
}
fn extra(r: &mut Rng, m: &mut Metadata) {
    let n = match r.below(6) { 0 => 0, 1 => r.below(70000), 2 => r.below(2000), _ => r.below(100) };
    if n > 0 { m.set_tag(ExifTag::ImageDescription("d".repeat(n))); }
    if r.chance(1, 3) { m.set_tag(ExifTag::ISO(vec![100])); }
    if r.chance(1, 3) { m.set_tag(ExifTag::UserComment(r.bytes(n % 37))); }
    if r.chance(1, 5) { m.set_tag(ExifTag::GPSLatitudeRef("N".into())); }
}
fn any_meta(s: &mut Search, required: bool) -> Vec<u8> {
    let mut m = match s.rng.below(5) {
        0 => { let c = crate::tiff::arb(s, "P21"); crate::tiff::make(&c, false).0 }
        1 => Metadata::new(),
        _ if required || s.rng.chance(1, 4) => tiff_image(&mut s.rng),
        _ => Metadata::new(),
    };
    extra(&mut s.rng, &mut m);
    match m.encode() { Ok(x) if !m.get_ifds().is_empty() && Metadata::new_from_vec(&x, F::TIFF).is_ok() => x, _ => vec![] }
}
/// content of the given format: intact, unusual or damaged
pub fn content(s: &mut Search, k: &str) -> Vec<u8> {
    let mut v = match k {
        "PNG" => crate::png::random_png(&mut s.rng),
        "JPEG" => crate::jpeg::random_jpeg(&mut s.rng),
        "JXL" => crate::jxl::random_jxl(&mut s.rng),
        "WEBP" => crate::webp::random_webp(&mut s.rng),
        "HEIF" => crate::heif::random_heif(&mut s.rng),
        _ => match s.rng.below(3) { 0 => crate::tiff::wild(s), 1 => crate::tiff::base(s.rng.below(crate::tiff::BASES), s.rng.below(2) as i64), _ => { let mut m = tiff_image(&mut s.rng); extra(&mut s.rng, &mut m); m.encode().unwrap() } },
    };
    if s.rng.chance(1, 6) { let n = s.rng.below(v.len() + 1); v.truncate(n); }
    if s.rng.chance(1, 6) { for _ in 0..1 + s.rng.below(3) { if !v.is_empty() { let i = s.rng.below(v.len()); v[i] = s.rng.u8(); } } }
    if s.rng.chance(1, 8) { let n = s.rng.below(20); v.extend(s.rng.bytes(n)); }
    v
}
pub fn gen_p21(s: &mut Search) {
    for (e, _) in NAMES { if !s.case(Case::new("P21", "missing").num(0).num(1).num(2).num(3).num(10).data(&[]).data(&[]).st(e)) { return; } }
    // every format's content under every extension, one operation and what follows it
    let small = { let mut m = Metadata::new(); m.set_tag(ExifTag::Orientation(vec![1])); m.encode().unwrap() };
    let full = tiff_image(&mut s.rng).encode().unwrap();
    for k in crate::filetype::KINDS { for (e, _) in NAMES { for d in ["", "a longer description"] {
        let v = image(k, d);
        for ops in [&[3i64, 0, 3][..], &[1, 2], &[10, 3, 0, 3], &[11, 3, 0, 3], &[12, 10, 11, 0, 10], &[0, 0, 11, 3]] {
            let mut c = Case::new("P21", "ops").data(&v).data(&small).data(&full).data(&[]).st(e); c.n.extend(ops);
            if !s.case(c) { return; }
            for n in [0usize, 1, 3, v.len() / 2, v.len() - 1] { let mut c = Case::new("P21", "ops").data(&v[..n.min(v.len())]).data(&small).data(&full).data(&[]).st(e); c.n.extend(ops); if !s.case(c) { return; } }
        }
    } } }
    s.notes.push("7 formats' content, whole and cut, under 6 extensions with 6 sequences of operations".into());
    while s.more() {
        let (e, k) = *s.rng.pick(&NAMES);
        let foreign = s.rng.chance(1, 30); let other = s.rng.pick(&NAMES).1;
        let v = content(s, if foreign { other } else { k });
        let mut c = Case::new("P21", "ops").data(&v).st(e);
        let n = 1 + s.rng.below(4); let mut ms = 0;
        for _ in 0..n {
            let op = match s.rng.below(8) { 0 | 1 => 0, 2 => 1 + s.rng.below(2) as i64, 3 => 3, _ => { let x = any_meta(s, k == "TIFF"); c = c.data(&x); ms += 1; 9 + ms } };
            c = c.num(op);
        }
        if !s.case(c) { return; }
    }
}

/// EXIF data in a container of each format
fn with_exif(k: &str, x: &[u8]) -> Vec<u8> {
    match k {
        "PNG" => [&b"\x89PNG\r\n\x1a\n"[..], &crate::png::chunk(b"IHDR", &[0; 13]), &crate::png::chunk(b"eXIf", x), &crate::png::chunk(b"IDAT", b"data"), &crate::png::chunk(b"IEND", b"")].concat(),
        "JPEG" => { let l = (x.len() + 8).min(65535); [&[0xff, 0xd8, 0xff, 0xe1, (l >> 8) as u8, l as u8][..], b"Exif\0\0", &x[..l - 8], &[0xff, 0xd9]].concat() }
        "JXL" => crate::tiff::jxl_with(x),
        "WEBP" => { let mut c = b"WEBPVP8X\x0a\0\0\0\x08\0\0\0\0\0\0\0\0\0VP8L\x06\0\0\0\x2f\0\0\0\0\0EXIF".to_vec(); c.extend((x.len() as u32).to_le_bytes()); c.extend(x); if x.len() % 2 == 1 { c.push(0); } [&b"RIFF"[..], &(c.len() as u32).to_le_bytes(), &c].concat() }
        "HEIF" => crate::filetype::heif(x),
        _ => x.to_vec(),
    }
}
/// data: content; str: format, extension or nothing
pub fn check_read(c: &Case) -> Res {
    let d = c.d[0].clone(); let f = of_kind(&c.s[0]); let name = c.s[1].clone();
    let s = if name.is_empty() { None } else { let s = Scratch::new(); let p = s.0.join(format!("x.{name}")); std::fs::write(&p, &d).unwrap(); Some((s, p)) };
    let p = s.as_ref().map(|x| x.1.clone());
    // what any thread of a program has to be able to do
    let r = std::thread::Builder::new().stack_size(2 << 20).spawn(move || largest_allocation(|| match p { None => Metadata::new_from_vec(&d, f), Some(p) => Metadata::new_from_path(&p) })).unwrap().join();
    let (r, n) = match r { Ok(r) => r, Err(e) => return Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("?".into()))) };
    // HEIF reserves what a box states, which may fail and is handled
    if n > (1 << 30) && c.s[0] != "HEIF" && c.s[1] != "heic" && !c.d[0].get(4..8).map_or(false, |x| x == b"ftyp") { return Err(format!("reading {} bytes allocates {n} bytes at once", c.d[0].len())); }
    Ok(match r { Ok(m) => m.into_iter().next().is_some(), Err(_) => c.d[0].len() >= 12 })
}
pub fn gen_p22(s: &mut Search) {
    const K: [&str; 7] = crate::filetype::KINDS;
    let one = |s: &mut Search, k: &str, v: &[u8]| s.case(Case::new("P22", "read").data(v).st(k).st(""));
    for k in K { for n in 0..9 { for b in [0u8, 1, 0x41, 0xff] { if !one(s, k, &vec![b; n]) { return; } } } }
    for k in K { if k == "NAKED" { continue; }
        let v = image(k, "abc");
        for n in 0..=v.len() { if !one(s, k, &v[..n]) { return; } }
        for i in 0..v.len() {
            for b in [0u8, 1, 2, 7, 8, 9, 0x10, 0x7f, 0x80, 0xff] { let mut x = v.clone(); x[i] = b; if !one(s, k, &x) { return; } }
            if i + 4 <= v.len() { for b in [0u32, 1, 7, 8, v.len() as u32, v.len() as u32 - i as u32, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8] { for le in [true, false] { let mut x = v.clone(); x[i..i + 4].copy_from_slice(&if le { b.to_le_bytes() } else { b.to_be_bytes() }); if !one(s, k, &x) { return; } } } }
        }
    }
    s.notes.push("each format's image: all truncations, 10 values at every byte, 10 numbers in both byte orders at every place".into());
    // deep and long structures
    for n in [1usize, 5, 100, 1000, 20000] {
        let nest = |ty: &[u8], full: bool| { let step = if full { 12 } else { 8 }; let mut v = vec![]; for i in 0..n { v.extend(((step * (n - i)) as u32).to_be_bytes()); v.extend(ty); if full { v.extend([0; 4]); } } v };
        for (ty, full) in [(&b"meta"[..], true), (b"iinf", true), (b"iprp", false), (b"ipco", false), (b"iref", true), (b"moov", false), (b"jxlc", false)] {
            let v = nest(ty, full);
            for k in ["HEIF", "JXL"] { let head: &[u8] = if k == "JXL" { &crate::jxl::SIG } else { b"\0\0\0\x10ftypheic\0\0\0\0" }; if !one(s, k, &[head, &v].concat()) { return; } }
        }
        let many: Vec<u8> = b"\0\0\0\x08free".repeat(n); if !one(s, "HEIF", &many) { return; }
        if !one(s, "JXL", &[&crate::jxl::SIG[..], &many].concat()) { return; }
        if !one(s, "JPEG", &[&[0xff, 0xd8][..], &[0xff, 0xe0, 0, 2].repeat(n)].concat()) { return; }
        if !one(s, "JPEG", &[&[0xff, 0xd8, 0xff, 0xda, 0, 2][..], &[0xff; 1].repeat(n)].concat()) { return; }
        if !one(s, "PNG", &[&b"\x89PNG\r\n\x1a\n"[..], &crate::png::chunk(b"IHDR", &[0; 13]), &crate::png::chunk(b"tEXt", b"").repeat(n)].concat()) { return; }
        if !one(s, "WEBP", &[&b"RIFF\xff\xff\xff\xffWEBP"[..], &b"ABCD\0\0\0\0".repeat(n)].concat()) { return; }
        // a chain of directories
        let mut t = b"II*\0\x08\0\0\0".to_vec(); for i in 0..n { t.extend([0, 0]); t.extend((8 + 6 * (i as u32 + 1)).to_le_bytes()); }
        if !one(s, "TIFF", &t) { return; }
        let l = t.len(); t[l - 4..].copy_from_slice(&8u32.to_le_bytes());
        if !one(s, "TIFF", &t) { return; }
    }
    s.notes.push("nesting and chains of up to 20000 boxes, segments, chunks and directories".into());
    while s.more() {
        let k = *s.rng.pick(&K); let k = if k == "NAKED" { "JXL" } else { k };
        let mut v = match s.rng.below(6) {
            0 => { let n = s.rng.below(120); s.rng.bytes(n) }
            1 => { let x = crate::tiff::wild(s); with_exif(k, &x) }
            2 => { let x = crate::tiff::base(s.rng.below(crate::tiff::BASES), s.rng.below(2) as i64); with_exif(k, &x) }
            _ => content(s, k),
        };
        for _ in 0..s.rng.below(5) {
            if v.is_empty() { break; }
            let i = s.rng.below(v.len());
            match s.rng.below(7) {
                0 => v[i] = s.rng.u8(),
                1 => { let n = v.len(); for (j, b) in crate::tiff::interesting(&mut s.rng, n).to_be_bytes().iter().enumerate() { if i + j < n { v[i + j] = *b; } } }
                2 => { let n = v.len(); for (j, b) in crate::tiff::interesting(&mut s.rng, n).to_le_bytes().iter().enumerate() { if i + j < n { v[i + j] = *b; } } }
                3 => { let j = (i + s.rng.below(24)).min(v.len()); v.drain(i..j); }
                4 => { let j = (i + s.rng.below(60)).min(v.len()); let x = v[i..j].to_vec(); let at = s.rng.below(v.len()); v.splice(at..at, x); }
                5 => { for j in i..(i + 8).min(v.len()) { v[j] = *s.rng.pick(&[0u8, 0xff, 0x80, 0x7f]); } }
                _ => { v[i] = v[i].wrapping_add(*s.rng.pick(&[1u8, 255, 2, 254, 128])); }
            }
        }
        let name = if s.rng.chance(1, 8) { s.rng.pick(&NAMES).0 } else { "" };
        let f = if s.rng.chance(1, 12) { *s.rng.pick(&K) } else { k };
        if !s.case(Case::new("P22", "read").data(&v).st(f).st(name)) { return; }
    }
}
