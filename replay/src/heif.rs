//! P08: boxes and item tables survive parsing and writing; P09: every item keeps locating its own data
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::FileExtension as F;
use little_exif::metadata::Metadata;

// ---------------------------------------------------------------- an independent reader of the container
#[derive(Clone, Debug, PartialEq)]
struct B { ty: [u8; 4], at: usize, body: usize, end: usize }     // body: behind size, type, large size and user type
fn be(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
/// the boxes in s[at..end], and where they stop
fn boxes(s: &[u8], at: usize, end: usize, top: bool) -> (Vec<B>, usize) {
    let (mut v, mut p) = (vec![], at);
    while end - p >= 8 {
        let ty: [u8; 4] = s[p + 4..p + 8].try_into().unwrap();
        let (mut n, mut h) = (be(&s[p..p + 4]), 8);
        if n == 1 { if end - p < 16 { break; } n = be(&s[p + 8..p + 16]); h = 16; }
        if n == 0 { if !top { break; } n = (end - p) as u64; }
        if &ty == b"uuid" { h += 16; }
        if n < h as u64 || n > (end - p) as u64 { break; }
        v.push(B { ty, at: p, body: p + h, end: p + n as usize }); p += n as usize;
    }
    (v, p)
}
#[derive(Clone, Debug, PartialEq)]
struct Item { id: u64, method: u64, other: u64, base: u64, ext: Vec<(u64, u64, u64)> }    // index, offset, length
impl Item { fn here(&self) -> bool { self.method == 0 && self.other == 0 } }
#[derive(Debug)]
struct H { top: Vec<B>, stop: usize, meta: B, kids: Vec<B>, iloc: Vec<Item>, infe: Vec<(u64, [u8; 4], Vec<u8>)>, refs: Vec<(Vec<u8>, [u8; 4], u64, Vec<u64>)>, primary: u64 }
struct R<'a>(&'a [u8], usize);
impl R<'_> {
    fn n(&mut self, n: usize) -> Option<u64> { let v = be(self.0.get(self.1..self.1 + n)?); self.1 += n; Some(v) }
    fn done(&self) -> Option<()> { if self.1 == self.0.len() { Some(()) } else { None } }
}
fn read(s: &[u8]) -> Option<H> {
    let (top, stop) = boxes(s, 0, s.len(), true);
    let meta = top.iter().find(|b| &b.ty == b"meta")?.clone();
    let (kids, e) = boxes(s, meta.body + 4, meta.end, false);
    if e != meta.end { return None; }
    let kid = |t: &[u8; 4]| kids.iter().find(|b| &b.ty == t);
    let b = kid(b"iloc")?; let mut r = R(&s[b.body..b.end], 0);
    let ver = r.n(4)? >> 24; let sz = r.n(2)?; let z = |i: u64| (sz >> (12 - 4 * i) & 15) as usize;
    let idx = if ver == 0 { 0 } else { z(3) };
    let n = r.n(if ver == 2 { 4 } else { 2 })?;
    let mut iloc = vec![];
    for _ in 0..n {
        let id = r.n(if ver == 2 { 4 } else { 2 })?; let method = if ver == 0 { 0 } else { r.n(2)? & 15 };
        let other = r.n(2)?; let base = r.n(z(2))?; let k = r.n(2)?;
        let mut ext = vec![]; for _ in 0..k { ext.push((r.n(idx)?, r.n(z(0))?, r.n(z(1))?)); }
        iloc.push(Item { id, method, other, base, ext });
    }
    r.done()?;
    let b = kid(b"iinf")?; let mut r = R(&s[b.body..b.end], 0);
    let n = if r.n(4)? >> 24 == 0 { r.n(2)? } else { r.n(4)? };
    let (l, e) = boxes(s, b.body + r.1, b.end, false);
    if l.len() as u64 != n || e != b.end { return None; }
    let mut infe = vec![];
    for b in l {
        let mut r = R(&s[b.body..b.end], 0); let ver = r.n(4)? >> 24;
        let id = r.n(if ver == 3 { 4 } else { 2 })?; r.n(2)?;
        infe.push((id, if ver >= 2 { (r.n(4)? as u32).to_be_bytes() } else { [0; 4] }, s[b.at..b.end].to_vec()));
    }
    let mut refs = vec![];
    if let Some(b) = kid(b"iref") {
        let ver = be(s.get(b.body..b.body + 4)?) >> 24; let w = if ver == 0 { 2 } else { 4 };
        let (l, e) = boxes(s, b.body + 4, b.end, false); if e != b.end { return None; }
        for x in l { let mut r = R(&s[x.body..x.end], 0); let f = r.n(w)?; let k = r.n(2)?; let mut v = vec![]; for _ in 0..k { v.push(r.n(w)?); } r.done()?; refs.push((s[x.at..x.end].to_vec(), x.ty, f, v)); }
    }
    let primary = kid(b"pitm").and_then(|b| { let p = &s[b.body..b.end]; if p[0] == 0 { Some(be(p.get(4..6)?)) } else { Some(be(p.get(4..8)?)) } }).unwrap_or(1);
    Some(H { top, stop, meta, kids, iloc, infe, refs, primary })
}
impl H {
    fn exif(&self) -> Option<u64> { self.infe.iter().find(|i| &i.1 == b"Exif").map(|i| i.0) }
    fn item(&self, id: u64) -> Option<&Item> { self.iloc.iter().find(|i| i.id == id) }
}
/// the bytes each extent denotes
fn data<'a>(s: &'a [u8], i: &Item) -> Option<Vec<&'a [u8]>> { i.ext.iter().map(|e| { let a = (i.base + e.1) as usize; s.get(a..a + e.2 as usize) }).collect() }

/// what a write may change: everything else has to be there as before
fn compare(old: &[u8], new: &[u8], area: &dyn Fn(&[u8]) -> Vec<u8>) -> Result<(), String> {
    let (o, n) = (read(old).ok_or("case")?, read(new).ok_or("the result is no intact HEIF file")?);
    diff("what follows the last box", &old[o.stop..], &new[n.stop..])?;
    if o.top.iter().map(|b| b.ty).ne(n.top.iter().map(|b| b.ty)) { return Err("the top-level boxes differ".into()); }
    let id = n.exif().ok_or("there is no EXIF item")?;
    let was = o.exif();
    if was.is_some() && was != Some(id) { return Err("the EXIF item has got another ID".into()); }
    let (ne, oe) = (n.item(id).ok_or("the EXIF item has no location")?, was.and_then(|i| o.item(i)));
    if !ne.here() || ne.ext.len() != 1 { return Err("the EXIF item is not located in this file".into()); }
    let (na, oa) = ((ne.base + ne.ext[0].1) as usize, oe.map(|i| (i.base + i.ext[0].1) as usize));
    for (a, b) in o.top.iter().zip(&n.top) {
        if &a.ty == b"meta" && a == &o.meta { continue; }
        let holds = na >= b.body && na + ne.ext[0].2 as usize <= b.end && !(na == b.end && ne.ext[0].2 == 0);
        if !holds { diff(&format!("box {:?}", String::from_utf8_lossy(&a.ty)), &old[a.at..a.end], &new[b.at..b.end])?; continue; }
        let (x, y) = match oa { Some(p) => (p, p + oe.unwrap().ext[0].2 as usize), None => (a.end, a.end) };
        if x < a.body || y > a.end { return Err("the EXIF data is in another box".into()); }
        diff("the data in front of the EXIF data", &old[a.body..x], &new[b.body..na])?;
        diff("the data behind the EXIF data", &old[y..a.end], &new[na + ne.ext[0].2 as usize..b.end])?;
        diff("the EXIF data", &area(&old[x..y]), &new[na..na + ne.ext[0].2 as usize])?;
    }
    // the tables
    let mut k = n.kids.clone();
    if o.refs.is_empty() && !o.kids.iter().any(|b| &b.ty == b"iref") { k.retain(|b| &b.ty != b"iref"); }
    if o.kids.iter().map(|b| b.ty).ne(k.iter().map(|b| b.ty)) { return Err("the boxes inside of the meta box differ".into()); }
    for (a, b) in o.kids.iter().zip(&k) {
        if ![b"iloc", b"iinf", b"iref"].contains(&&a.ty) { diff(&format!("box {:?}", String::from_utf8_lossy(&a.ty)), &old[a.at..a.end], &new[b.at..b.end])?; }
    }
    let fresh = if was.is_some() { 0 } else { 1 };
    if n.infe[..].len() != o.infe.len() + fresh || n.infe[..o.infe.len()] != o.infe[..] { return Err("the item information differs".into()); }
    if n.refs.len() != o.refs.len() + fresh || n.refs[..o.refs.len()] != o.refs[..] { return Err("the item references differ".into()); }
    if fresh == 1 {
        let r = n.refs.last().unwrap();
        if (&r.1, r.2, &r.3) != (b"cdsc", id, &vec![o.primary]) { return Err(format!("the reference of the EXIF item is {r:?}, the primary item is {}", o.primary)); }
        if o.infe.iter().any(|i| i.0 == id) || o.iloc.iter().any(|i| i.id == id) { return Err(format!("the ID {id} is in use")); }
    }
    if n.iloc.len() != o.iloc.len() + fresh { return Err("the number of item locations differs".into()); }
    for (a, b) in o.iloc.iter().zip(&n.iloc) {
        if (a.id, a.method, a.other, a.ext.len()) != (b.id, b.method, b.other, b.ext.len()) || a.ext.iter().map(|e| e.0).ne(b.ext.iter().map(|e| e.0)) { return Err(format!("item {}: {a:?} has become {b:?}", a.id)); }
        if Some(a.id) == was { continue; }
        if !a.here() { if a != b { return Err(format!("item {}, stored elsewhere: {a:?} has become {b:?}", a.id)); } continue; }
        if a.ext.iter().map(|e| e.2).ne(b.ext.iter().map(|e| e.2)) { return Err(format!("item {}: its lengths differ", a.id)); }
        let (x, y) = (data(old, a), data(new, b));
        if x.is_some() && x != y { return Err(format!("item {}: locates other bytes than before: {a:?} has become {b:?}", a.id)); }
    }
    Ok(())
}

// ---------------------------------------------------------------- files from a list of choices
struct Plan<'a> { c: &'a [i64], i: usize }
impl Plan<'_> {
    fn k(&mut self, n: usize) -> usize { let v = self.c.get(self.i).copied().unwrap_or(0); self.i += 1; (v.unsigned_abs() as usize) % n }
    fn bytes(&mut self, n: usize) -> Vec<u8> { let mut r = Rng(0x9e37 + self.k(1000) as u64 * 7919); (0..n).map(|_| r.u8()).collect() }
}
fn bx(ty: &[u8], c: &[u8], large: bool) -> Vec<u8> {
    let mut v = if large { 1u32.to_be_bytes().to_vec() } else { ((c.len() + 8) as u32).to_be_bytes().to_vec() };
    v.extend(ty); if large { v.extend(((c.len() + 16) as u64).to_be_bytes()); } v.extend(c); v
}
const TYPES: [&[u8; 4]; 90] = [b"dinf", b"iprp", b"ipco", b"ipma", b"mdat", b"pdin", b"mvhd", b"tkhd", b"mdhd", b"nmhd", b"elng", b"stsd", b"stdp", b"stts", b"ctts", b"cslg", b"stss", b"stsh", b"sdtp", b"elst", b"url ", b"urn ", b"dref", b"stsz", b"stz2", b"stsc", b"stco", b"co64", b"padb", b"subs", b"saiz", b"saio", b"mehd", b"trex", b"mfhd", b"tfhd", b"trun", b"tfra", b"mfro", b"tfdt", b"leva", b"trep", b"assp", b"sbgp", b"sgpd", b"cprt", b"tsel", b"kind", b"xml ", b"bxml", b"ipro", b"mere", b"schm", b"fiin", b"fpar", b"fecr", b"gitn", b"fire", b"stri", b"stsg", b"stvi", b"sidx", b"ssix", b"prft", b"srpp", b"vmhd", b"smhd", b"srat", b"chnl", b"dmix", b"ludt", b"txtC", b"uri ", b"uriI", b"hmhd", b"sthd",
    b"uuid", b"free", b"skip", b"moov", b"udta", b"grpl", b"styp", b"abcd", b"\xff\xfe\x00\x80", b"\xa9xyz", b"    ", b"\0\0\0\0", b"META", b"Mdat"];
/// any other box
fn other(p: &mut Plan, top: bool) -> Vec<u8> {
    let mut t = TYPES[p.k(TYPES.len())]; if t == b"mdat" && !top { t = b"free"; }
    let n = 4 + p.k(20) + if t == b"uuid" { 16 } else { 0 }; let n = if p.k(8) == 0 && n < 8 && (t == b"free" || t == b"abcd") { 0 } else { n };
    let c = p.bytes(n); let large = p.k(6) == 0; bx(t, &c, large)
}
struct Built { s: Vec<u8>, sure: bool }
fn put(v: &mut Vec<u8>, x: u64, n: usize) { v.extend(&x.to_be_bytes()[8 - n..]); }
fn build(p: &mut Plan, exif: Option<&[u8]>) -> Built {
    let mut sure = true;
    let ver = p.k(3); let z = [4, 8, 0]; let mut osz = z[[0, 0, 1, 0, 2][p.k(5)]]; let lsz = z[[0, 0, 0, 1, 1, 1, 2][p.k(7)].min(if exif.is_some() { 1 } else { 2 })]; let bsz = z[[2, 2, 0, 1][p.k(4)]]; let isz = z[[2, 2, 0, 1][p.k(4)]];
    let reserved = if p.k(4) == 0 { p.k(16) } else { 0 };
    if osz == 0 && bsz == 0 { osz = 4; }
    if lsz == 0 { sure = false; }
    let nm = 1 + p.k(2);                              // media data boxes
    let n = p.k(6);                                   // items besides EXIF
    // pieces of data: (which box, bytes)
    let mut pieces: Vec<(usize, Vec<u8>)> = vec![];
    struct P { id: u64, method: u64, other: u64, ext: Vec<usize>, rel: u64 }        // ext: pieces
    let big = p.k(12) == 0;
    let mut ids: Vec<u64> = vec![]; let mut items: Vec<P> = vec![];
    for i in 0..n {
        let id = match p.k(6) { 0 => 2 * i as u64 + 7, 1 if big && ver == 2 => 70000 + i as u64, 2 => 300 + i as u64, _ => 1 + i as u64 };
        if ids.contains(&id) { continue; }
        ids.push(id);
        let method = if ver == 0 { 0 } else { [0, 0, 0, 1, 2][p.k(5)] }; let other = if p.k(9) == 0 { 1 + p.k(3) as u64 } else { 0 };
        let k = if osz == 0 || lsz == 0 { 1 } else { [1, 1, 1, 2, 3, 0][p.k(6)] };
        let mut ext = vec![];
        for _ in 0..k {
            if !pieces.is_empty() && p.k(8) == 0 { ext.push(p.k(pieces.len())); continue; }   // shared with another item
            let l = if lsz == 0 { 0 } else { [3, 1, 20, 0, 7][p.k(5)] }; pieces.push((p.k(nm), p.bytes(l))); ext.push(pieces.len() - 1);
        }
        items.push(P { id, method, other, ext, rel: p.k(3) as u64 });
    }
    let mut xid = None;
    if let Some(x) = exif {
        let mut id = 1 + p.k(9) as u64; while ids.contains(&id) { id += 1; }
        if big && ver == 2 && p.k(2) == 0 { id = 65536 + p.k(4) as u64; while ids.contains(&id) { id += 1; } }
        ids.push(id); xid = Some(id);
        pieces.push((p.k(nm), x.to_vec()));
        let at = p.k(items.len() + 1);
        items.insert(at, P { id, method: 0, other: 0, ext: vec![pieces.len() - 1], rel: p.k(3) as u64 });
    }
    // an order of the pieces
    let mut order: Vec<usize> = (0..pieces.len()).collect();
    for i in (1..order.len()).rev() { let j = p.k(i + 1); order.swap(i, j); }
    let gap = p.k(3);
    // the order of boxes
    let first = p.k(4) == 0;                           // media data in front of the meta box
    let (x0, x1, x2) = (p.k(3) == 0, p.k(3) == 0, p.k(3) == 0);
    let (a0, a1, a2) = (other(p, true), other(p, true), other(p, true));
    let lm: Vec<bool> = (0..nm).map(|_| p.k(5) == 0).collect(); let lmeta = p.k(6) == 0; let lk: Vec<bool> = (0..6).map(|_| p.k(8) == 0).collect();
    let open = p.k(6) == 0 && !x2;                     // the last box extends to the end of the file
    let tail = if !open && p.k(4) == 0 { let n = 1 + p.k(7); p.bytes(n) } else { vec![] };
    let mut lay: Vec<usize> = (0..5).collect(); for i in (1..5).rev() { let j = p.k(i + 1); lay.swap(i, j); }
    let prim = *ids.first().unwrap_or(&1); let pv = if prim > 65535 || p.k(4) == 0 { 1 } else { 0 };
    let mut pitm = vec![pv as u8, 0, 0, 0]; put(&mut pitm, prim, if pv == 0 { 2 } else { 4 });
    let nopitm = p.k(12) == 0;
    let iv = p.k(2) as u8;
    let mut iinf = vec![iv, 0, 0, 0]; let named = p.k(3) == 0;
    let extra: Option<u64> = if p.k(5) == 0 { let m = ids.iter().max().copied().unwrap_or(0) + 3; Some(m) } else { None };     // an item without location
    put(&mut iinf, ids.len() as u64 + extra.is_some() as u64, if iv == 0 { 2 } else { 4 });
    for id in ids.iter().copied().chain(extra) {
        let v = if id > 65535 { 3 } else { [2, 2, 3, 2, 0, 1][p.k(6)] }; let v = if Some(id) == xid && v < 2 { 2 } else { v };
        let mut c = vec![v as u8, 0, 0, p.k(2) as u8]; put(&mut c, id, if v == 3 { 4 } else { 2 }); put(&mut c, 0, 2);
        if v >= 2 { c.extend(if Some(id) == xid { b"Exif" } else { [b"hvc1", b"grid", b"mime", b"av01", b"exif"][p.k(5)] }); }
        if named { c.extend("n\u{e4}me".as_bytes()); } c.push(0);
        if p.k(4) == 0 { c.extend(b"application/rdf+xml\0"); }
        iinf.extend(bx(b"infe", &c, p.k(10) == 0));
    }
    let rv = p.k(2) as u8 | (prim > 65535) as u8 | (ids.iter().any(|i| *i > 65535)) as u8; let hasref = p.k(3) != 0;
    let mut iref = vec![rv, 0, 0, 0];
    for _ in 0..p.k(3) { let w = if rv == 0 { 2 } else { 4 }; let mut c = vec![]; put(&mut c, ids.first().copied().unwrap_or(1), w); let k = p.k(3); put(&mut c, k as u64, 2); for j in 0..k { put(&mut c, j as u64 + 1, w); } iref.extend(bx([b"dimg", b"thmb", b"auxl"][p.k(3)], &c, p.k(8) == 0)); }
    let idat = bx(b"idat", b"0123456789abcdefghijklmnopqrstuvwxyz", lk[5]);
    let xk = if p.k(2) == 0 { other(p, false) } else { vec![] };
    if extra.map_or(false, |e| e >= 65534) || ids.iter().any(|i| *i >= 65535) { if exif.is_none() { sure = false; } }    // no 16 bit ID is left
    let hdlr = { let mut c = b"\0\0\0\0\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(); let n = p.k(5); c.extend(p.bytes(n)); bx(b"hdlr", &c, p.k(8) == 0) };
    let assemble = |loc: &dyn Fn(usize) -> u64| -> (Vec<u8>, Vec<u64>) {
        let mut c = vec![ver as u8, 0, 0, 0]; put(&mut c, (osz << 12 | lsz << 8 | bsz << 4 | if ver == 0 { reserved } else { isz }) as u64, 2);
        put(&mut c, items.len() as u64, if ver == 2 { 4 } else { 2 });
        for (i, it) in items.iter().enumerate() {
            put(&mut c, it.id, if ver == 2 { 4 } else { 2 }); if ver > 0 { put(&mut c, it.method | if i % 3 == 2 { 0x0550 } else { 0 }, 2); }
            put(&mut c, it.other, 2);
            let offs: Vec<u64> = it.ext.iter().enumerate().map(|(j, e)| if it.method == 0 && it.other == 0 { loc(*e) } else { 3 * j as u64 + it.rel }).collect();
            let least = offs.iter().min().copied().unwrap_or(0);
            let base = if bsz == 0 { 0 } else if osz == 0 { least } else { match it.rel { 0 => 0, 1 => least, _ => least / 2 } };
            put(&mut c, base, bsz); put(&mut c, it.ext.len() as u64, 2);
            for (j, e) in it.ext.iter().enumerate() { if ver > 0 { put(&mut c, j as u64 + 1, isz); } put(&mut c, offs[j] - base, osz); put(&mut c, if lsz == 0 { 0 } else { pieces[*e].1.len() as u64 }, lsz); }
        }
        let kids = [bx(b"iloc", &c, lk[0]), bx(b"iinf", &iinf, lk[1]), if hasref { bx(b"iref", &iref, lk[2]) } else { vec![] }, if nopitm { vec![] } else { bx(b"pitm", &pitm, lk[3]) }, [idat.clone(), xk.clone()].concat()];
        let mut m = vec![0, 0, 0, 0]; m.extend(&hdlr); for i in &lay { m.extend(&kids[*i]); }
        let meta = bx(b"meta", &m, lmeta);
        let mut v = bx(b"ftyp", b"heic\0\0\0\0heicmif1", false);
        if x0 { v.extend(&a0); }
        let mut at = vec![0; pieces.len()];
        if !first { v.extend(&meta); if x1 { v.extend(&a1); } }
        for m in 0..nm {
            let mut c = vec![]; for i in &order { if pieces[*i].0 == m { c.extend(vec![0x2e; gap]); at[*i] = c.len() as u64; c.extend(&pieces[*i].1); } }
            c.extend(vec![0x2d; gap]);
            let last = m + 1 == nm && !first;
            let mut b = bx(b"mdat", &c, lm[m]); let h = b.len() - c.len();
            if last && open { b[..4].copy_from_slice(if lm[m] { &[0, 0, 0, 1] } else { &[0; 4] }); }
            for i in &order { if pieces[*i].0 == m { at[*i] += (v.len() + h) as u64; } }
            v.extend(b);
        }
        if first { v.extend(&meta); }
        if x2 { v.extend(&a2); }
        v.extend(&tail);
        (v, at)
    };
    let (_, at) = assemble(&|_| 0);
    let (s, _) = assemble(&|i| at[i]);
    Built { s, sure }
}
/// metadata of different sizes; the last one stays when clearing
fn meta(n: i64) -> Metadata {
    let mut m = Metadata::new();
    if n % 3 != 0 { m.set_tag(ExifTag::ImageDescription("a".repeat((n / 3) as usize % 70000))); }
    if n % 2 == 0 { m.set_tag(ExifTag::Orientation(vec![(n % 8) as u16])); }
    if n % 5 == 0 { m.set_tag(ExifTag::XResolution(vec![72u32.into()])); m.set_tag(ExifTag::ISO(vec![100])); }
    m
}
/// what clearing keeps
fn kept(m: &Metadata) -> Metadata {
    let mut k = Metadata::new();
    for t in [0x112u16, 0x11a, 0x11b, 0x128] { if let Some(x) = m.get_tag_by_hex(t, None).next() { k.set_tag(x.clone()); } }
    k
}
fn area(prefix: usize, m: &Metadata) -> Vec<u8> {
    let x = m.encode().unwrap(); let pre: Vec<u8> = match prefix { 0 => vec![0, 0, 0, 0], 1 => b"\0\0\0\x06Exif\0\0".to_vec(), _ => b"\0\0\0\x09.padding.".to_vec() };
    [pre, x].concat()
}
fn apply(s: &mut Vec<u8>, n: i64, sure: bool) -> Result<bool, String> {
    let before = s.clone();
    let exists = read(&before).ok_or("case")?.exif().is_some();
    let m = if n < 0 {
        let m = if exists { Metadata::new_from_vec(&before, F::HEIF).map_err(|e| format!("cannot read: {e}"))? } else { Metadata::new() };
        kept(&m)
    } else { meta(n) };
    let r = if n < 0 { Metadata::clear_metadata(s, F::HEIF) } else { m.write_to_vec(s, F::HEIF) };
    match r {
        Err(e) => {
            diff("the file after a failed write", &before, s)?;
            if sure && (n >= 0 || exists) { return Err(format!("{} failed: {e}", if n < 0 { "clear" } else { "write" })); }
            Ok(false)
        }
        Ok(()) => {
            let any = m.get_ifds().len() > 0;
            let x = if any { m.encode().map_err(|e| e.to_string())? } else { vec![] };
            compare(&before, s, &|old: &[u8]| {
                let pre = if old.is_empty() { b"\0\0\0\x06Exif\0\0".to_vec() } else { old[..4 + be(&old[..4]) as usize].to_vec() };
                [pre, x.clone()].concat()
            })?;
            if any {
                let back = Metadata::new_from_vec(s, F::HEIF).map_err(|e| format!("cannot read back: {e}"))?;
                diff("metadata read back", &x, &back.encode().map_err(|e| e.to_string())?)?;
            }
            Ok(any)
        }
    }
}
pub fn check(c: &Case) -> Res {
    let mut p = Plan { c: c.n.get(3..).unwrap_or(&[]), i: 0 };
    match c.op.as_str() {
        // num: prefix, metadata, -, choices: writing what is there already changes nothing
        "same" => {
            let m = meta(c.n[1]); let b = build(&mut p, Some(&area(c.n[0] as usize, &m)));
            let mut s = b.s.clone();
            m.write_to_vec(&mut s, F::HEIF).map_err(|e| format!("write failed: {e}"))?;
            diff("the file after writing the metadata it has", &b.s, &s)?;
            Ok(true)
        }
        // num: prefix or -1 (no EXIF), metadata, number of operations, operations, choices
        "ops" => {
            let k = c.n[2] as usize; let mut p = Plan { c: &c.n[3 + k..], i: 0 };
            let x = if c.n[0] < 0 { None } else { Some(area(c.n[0] as usize, &meta(c.n[1]))) };
            let b = build(&mut p, x.as_deref());
            let (mut s, mut any) = (b.s, false);
            for n in &c.n[3..3 + k] { if !apply(&mut s, *n, b.sure)? { break; } any = true; }
            Ok(any)
        }
        // damaged: an error leaves the file alone, otherwise the items are intact
        _ => {
            let mut s = c.d[0].clone(); let before = s.clone();
            let r = if c.n[0] < 0 { Metadata::clear_metadata(&mut s, F::HEIF) } else { meta(c.n[0]).write_to_vec(&mut s, F::HEIF) };
            if r.is_err() { diff("the file after a failed write", &before, &s)?; }
            Ok(r.is_ok())
        }
    }
}
/// a file from random choices, with and without EXIF
pub fn random_heif(r: &mut Rng) -> Vec<u8> {
    let c = choices(r); let x = if r.chance(1, 4) { None } else { Some(area(r.below(3), &meta(1 + r.below(60) as i64))) };
    build(&mut Plan { c: &c, i: 0 }, x.as_deref()).s
}
fn choices(r: &mut Rng) -> Vec<i64> { let calm = r.below(4); (0..220).map(|_| if r.below(4) < calm { 0 } else { r.below(10000) as i64 }).collect() }
fn case(prop: &str, op: &str, n: &[i64], c: &[i64]) -> Case { let c = &c[..c.iter().rposition(|v| *v != 0).map_or(0, |i| i + 1)]; let mut x = Case::new(prop, op); x.n.extend(n); x.n.extend(c); x }
pub fn gen_p08(s: &mut Search) {
    let mut one = vec![0i64; 220];
    if !s.case(case("P08", "same", &[1, 4, 0], &one)) { return; }
    // every choice by itself
    for i in 0..220 { for v in 1..=(if i < 60 { 12 } else { 4 }) { one[i] = v; if !s.case(case("P08", "same", &[1, 4, 0], &one)) { return; } } one[i] = 0; }
    s.notes.push("every single choice of the file builder".into());
    while s.more() {
        let c = choices(&mut s.rng); let (a, m) = (s.rng.below(3) as i64, 1 + s.rng.below(60) as i64);
        let m = if m % 3 == 0 && m % 2 == 1 && m % 5 != 0 { 4 } else { m };
        if !s.case(case("P08", "same", &[a, m, 0], &c)) { return; }
        if s.rng.chance(1, 4) { let w = s.rng.below(400) as i64; if !s.case(case("P08", "ops", &[s.rng.0 as i64 % 2 - 1, m, 1, w], &c)) { return; } }
    }
}
pub fn gen_p09(s: &mut Search) {
    let one = vec![0i64; 220];
    for pre in -1..3 { for w in [4i64, 100, 3000, -1] { if !s.case(case("P09", "ops", &[pre, 2, 1, w], &one)) { return; } } }
    while s.more() {
        let c = choices(&mut s.rng); let (a, m) = (s.rng.below(4) as i64 - 1, 2 * s.rng.below(90) as i64 + 2);
        let k = 1 + s.rng.below(3);
        let ops: Vec<i64> = (0..k).map(|_| match s.rng.below(5) { 0 => -1, 1 => s.rng.below(9000) as i64, _ => s.rng.below(200) as i64 }).collect();
        let mut n = vec![a, m, k as i64]; n.extend(ops);
        if !s.case(case("P09", "ops", &n, &c)) { return; }
        if s.rng.chance(1, 6) {
            let x = area(1, &meta(4)); let mut p = Plan { c: &c, i: 0 }; let mut b = build(&mut p, if a < 0 { None } else { Some(&x) }).s;
            for _ in 0..1 + s.rng.below(3) { let i = s.rng.below(b.len()); match s.rng.below(4) { 0 => { b[i] = s.rng.u8(); } 1 => { b[i] = *s.rng.pick(&[0, 1, 0xff, 4, 8]); } 2 => b.truncate(i), _ => { b.insert(i, s.rng.u8()); } } if b.is_empty() { break; } }
            let w = ops_of(&mut s.rng); if !s.case(Case::new("P09", "damaged").num(w).data(&b)) { return; }
        }
    }
}
fn ops_of(r: &mut Rng) -> i64 { if r.chance(1, 4) { -1 } else { r.below(200) as i64 } }
