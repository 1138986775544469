//! P15-P18: metadata as a map, directory invariants, iteration, reduction - against a plain list-of-lists model
use crate::tags::*;
use crate::util::*;
use little_exif::exif_tag::ExifTag;
use little_exif::ifd::ExifTagGroup as G;
use little_exif::metadata::Metadata;
use std::cell::OnceCell;
use std::collections::BTreeMap;

thread_local! { static T: OnceCell<&'static [Row]> = const { OnceCell::new() }; }
pub fn tab() -> &'static [Row] { T.with(|c| *c.get_or_init(|| Box::leak(table().into_boxed_slice()))) }

/// (page, kind of directory) -> number -> tag
type Model = BTreeMap<(u32, usize), BTreeMap<u16, ExifTag>>;
pub fn parent(g: G) -> Option<G> { match g { G::GENERIC => None, G::EXIF | G::GPS => Some(G::GENERIC), G::INTEROP => Some(G::EXIF) } }
fn touch(m: &mut Model, g: G, n: u32) { let mut c = Some(g); while let Some(x) = c { m.entry((n, gi(x))).or_default(); c = parent(x); } }
const KEEP: [u16; 15] = [0x0111, 0x0117, 0x0201, 0x0202, 0x0100, 0x0101, 0x0102, 0x0103, 0x0106, 0x0115, 0x0116, 0x011a, 0x011b, 0x0128, 0x0140];

/// at most one directory per kind and number, parents present, entries ascending and in their directory
pub fn dir_invariants(m: &Metadata, strict: bool) -> Result<(), String> {
    let dirs = m.get_ifds();
    for (i, d) in dirs.iter().enumerate() {
        let (g, n) = (d.get_ifd_type(), d.get_generic_ifd_nr());
        if dirs[..i].iter().any(|e| e.get_ifd_type() == g && e.get_generic_ifd_nr() == n) { return Err(format!("directory {g:?} {n} exists twice")); }
        if let Some(p) = parent(g) { if !dirs.iter().any(|e| e.get_ifd_type() == p && e.get_generic_ifd_nr() == n) { return Err(format!("directory {g:?} {n} has no parent directory")); } }
        let h: Vec<u16> = d.get_tags().iter().map(|t| t.as_u16()).collect();
        if h.windows(2).any(|w| w[0] > w[1] || (strict && w[0] == w[1])) { return Err(format!("entries of directory {g:?} {n} are not ascending: {h:04x?}")); }
        if let Some(t) = d.get_tags().iter().find(|t| t.get_group() != g && (strict || ![0x0111, 0x0117, 0x0201, 0x0202].contains(&t.as_u16()))) { return Err(format!("{t:?} in a directory of kind {g:?}")); }
    }
    Ok(())
}
fn check_state(m: &Metadata, model: &Model, prop: &str, probe: &ExifTag) -> Result<(), String> {
    let dirs = m.get_ifds();
    if prop == "P16" {
        dir_invariants(m, true)?;
        let want: Vec<(u32, usize)> = model.keys().copied().collect();
        let mut got: Vec<(u32, usize)> = dirs.iter().map(|d| (d.get_generic_ifd_nr(), gi(d.get_ifd_type()))).collect();
        got.sort();
        if want != got { return Err(format!("directories are {got:?}, expected {want:?}")); }
        let max = dirs.iter().filter(|d| d.get_ifd_type() == G::GENERIC).map(|d| d.get_generic_ifd_nr()).max().unwrap_or(0);
        if m.get_max_generic_ifd_number() != max { return Err(format!("get_max_generic_ifd_number is {}, expected {max}", m.get_max_generic_ifd_number())); }
    }
    if prop == "P15" {
        // every stored entry, exactly once, in its directory
        for ((n, g), tags) in model {
            let d = m.get_ifd(GROUPS[*g], *n).ok_or(format!("directory {:?} {n} is gone", GROUPS[*g]))?;
            let mut got: Vec<ExifTag> = d.get_tags().clone();
            got.sort_by_key(|t| t.as_u16());
            let want: Vec<ExifTag> = tags.values().cloned().collect();
            if got != want { return Err(format!("directory {:?} {n} holds {got:?}, expected {want:?}", GROUPS[*g])); }
        }
        for d in dirs { if !d.get_tags().is_empty() && !model.contains_key(&(d.get_generic_ifd_nr(), gi(d.get_ifd_type()))) { return Err("an unexpected directory holds tags".into()); } }
        let want: Vec<ExifTag> = model.iter().filter(|((_, g), _)| GROUPS[*g] == probe.get_group()).filter_map(|(_, t)| t.get(&probe.as_u16()).cloned()).collect();
        let got: Vec<ExifTag> = m.get_tag(probe).cloned().collect();
        if got != want { return Err(format!("get_tag({probe:?}) gives {got:?}, expected {want:?}")); }
        let got: Vec<ExifTag> = m.get_tag_by_hex(probe.as_u16(), Some(probe.get_group())).cloned().collect();
        if got != want { return Err(format!("get_tag_by_hex({:04x}) gives {got:?}, expected {want:?}", probe.as_u16())); }
    }
    if prop == "P17" {
        let want: Vec<ExifTag> = dirs.iter().flat_map(|d| d.get_tags().iter().cloned()).collect();
        let mut it = m.into_iter();
        let mut got = vec![];
        while let Some(t) = it.next() { got.push(t.clone()); if got.len() > want.len() + 3 { break; } }
        if got != want { return Err(format!("iteration gives {got:?}, stored are {want:?}")); }
        if it.next().is_some() { return Err("the iterator goes on after its end".into()); }
        if m.into_iter().count() != want.len() { return Err("count differs".into()); }
        let mut hexes: Vec<u16> = want.iter().map(|t| t.as_u16()).collect();
        hexes.push(probe.as_u16()); hexes.sort(); hexes.dedup();
        for h in hexes {
            for g in [None, Some(G::GENERIC), Some(G::EXIF), Some(G::GPS), Some(G::INTEROP)] {
                let want: Vec<ExifTag> = dirs.iter().filter(|d| g.is_none() || g == Some(d.get_ifd_type())).flat_map(|d| d.get_tags().iter().filter(|t| t.as_u16() == h).cloned()).collect();
                let mut it = m.get_tag_by_hex(h, g);
                let mut got = vec![];
                while let Some(t) = it.next() { got.push(t.clone()); if got.len() > want.len() + 3 { break; } }
                if got != want { return Err(format!("get_tag_by_hex({h:04x}, {g:?}) gives {got:?}, stored are {want:?}")); }
                if it.next().is_some() { return Err("the lookup goes on after its end".into()); }
            }
        }
    }
    Ok(())
}

/// ops in n: (op, kind, components, page) repeated; value bytes in d[0] (rotated by the position)
pub fn check(c: &Case) -> Res {
    if c.op != "ops" { return crate::tiff::check_decoded(c); }
    let t = tab();
    let mut m = Metadata::new();
    let mut model: Model = BTreeMap::new();
    let p = c.prop.as_str();
    let mut nt = false;
    for (i, o) in c.n.chunks(4).enumerate() {
        if o.len() < 4 { break; }
        let mut bytes = c.d[0].clone();
        if !bytes.is_empty() { let k = i % bytes.len(); bytes.rotate_left(k); }
        let tag = build(o[1] as usize % kinds(t), o[2] as usize, &bytes, t);
        let (h, g, n) = (tag.as_u16(), tag.get_group(), o[3] as u32);
        match o[0] {
            0 => { m.set_tag(tag.clone()); touch(&mut model, g, 0); model.get_mut(&(0, gi(g))).unwrap().insert(h, tag.clone()); }
            1 => { m.get_ifd_mut(g, n).set_tag(tag.clone()); touch(&mut model, g, n); model.get_mut(&(n, gi(g))).unwrap().insert(h, tag.clone()); }
            2 => { m.remove_tag(tag.clone()); for (k, v) in model.iter_mut() { if k.1 == gi(g) { nt |= v.remove(&h).is_some(); } } }
            3 => { m.remove_tag_by_hex_group(h, g); for (k, v) in model.iter_mut() { if k.1 == gi(g) { nt |= v.remove(&h).is_some(); } } }
            4 => { m.get_ifd_mut(g, n).remove_tag(h); touch(&mut model, g, n); nt |= model.get_mut(&(n, gi(g))).unwrap().remove(&h).is_some(); }
            5 => { m.create_ifd(g, n); touch(&mut model, g, n); }
            _ => {
                let before = m.clone();
                m.reduce_to_a_minimum();
                model.retain(|k, _| k.1 == 0);
                for v in model.values_mut() { v.retain(|h, _| KEEP.contains(h)); }
                if p == "P18" {
                    let got: Vec<(u32, Vec<ExifTag>)> = m.get_ifds().iter().filter(|d| d.get_ifd_type() == G::GENERIC).map(|d| (d.get_generic_ifd_nr(), d.get_tags().clone())).filter(|x| !x.1.is_empty()).collect();
                    let want: Vec<(u32, Vec<ExifTag>)> = before.get_ifds().iter().filter(|d| d.get_ifd_type() == G::GENERIC)
                        .map(|d| (d.get_generic_ifd_nr(), d.get_tags().iter().filter(|t| KEEP.contains(&t.as_u16())).cloned().collect::<Vec<_>>())).filter(|x| !x.1.is_empty()).collect();
                    if got != want { return Err(format!("reduced to {got:?}, expected {want:?}")); }
                    if let Some(d) = m.get_ifds().iter().find(|d| d.get_ifd_type() != G::GENERIC && !d.get_tags().is_empty()) { return Err(format!("kept {:?}", d.get_tags())); }
                    nt |= want.iter().map(|x| x.1.len()).sum::<usize>() > 0 && before.into_iter().count() > m.into_iter().count();
                }
            }
        }
        nt |= p != "P18" && o[0] <= 1;
        check_state(&m, &model, p, &tag)?;
    }
    Ok(nt)
}

fn arb_ops(s: &mut Search, p: &str) -> Case {
    let t = tab();
    let k = kinds(t);
    let len = match s.rng.below(6) { 0 => 2 + s.rng.below(4), 1 => 60 + s.rng.below(80), _ => 5 + s.rng.below(25) };
    let few: Vec<i64> = (0..1 + s.rng.below(12)).map(|_| s.rng.below(k) as i64).collect();
    // numbers that several kinds of directory use
    let shared: Vec<i64> = t.iter().enumerate().filter(|(_, r)| r.hex <= 2 || KEEP.contains(&r.hex)).map(|x| x.0 as i64).chain((0..4).map(|x| (t.len() + x) as i64)).collect();
    let pages = *s.rng.pick(&[1usize, 1, 2, 3, 8, 40]);
    let mut c = Case::new(p, "ops");
    for _ in 0..len {
        let kind = match s.rng.below(6) { 0 => s.rng.below(k) as i64, 1 | 2 => *s.rng.pick(&shared), _ => *s.rng.pick(&few) };
        let op = *s.rng.pick(if p == "P18" { &[0i64, 0, 1, 1, 1, 2, 5, 6, 6] } else { &[0i64, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6] });
        let op = if op == 6 && p != "P18" && !s.rng.chance(1, 4) { 0 } else { op };
        let n = arb_n(&mut s.rng) as i64;
        let pg = s.rng.below(pages) as i64;
        c = c.num(op).num(kind).num(n).num(pg);
    }
    if p == "P18" { c = c.num(6).num(0).num(1).num(0); }
    let b = s.rng.bytes(24);
    c.data(&b)
}
fn gen(s: &mut Search, p: &str) {
    let t = tab();
    // every tag: set, set again, remove, set on another page
    for k in 0..kinds(t) as i64 {
        for seq in [[0i64, 0, 2, 1], [1, 0, 3, 0], [5, 1, 6, 4]] {
            let mut c = Case::new(p, "ops");
            for (i, op) in seq.iter().enumerate() { c = c.num(*op).num(k).num(i as i64 + 1).num((i % 3) as i64); }
            if !s.case(c.data(&[1, 7, 30, 99, 200])) { return; }
        }
    }
    // all pairs among the tags that share numbers, and one of each kind of directory
    let sel: Vec<i64> = t.iter().enumerate().filter(|(_, r)| r.hex <= 2 || r.hex == 0x8769 || r.hex == 0x8825 || r.hex == 0xa005 || r.hex == 0x829a || r.hex == 0x010e).map(|x| x.0 as i64).chain((0..6).map(|x| (t.len() + x) as i64)).collect();
    for &a in &sel { for &b in &sel { for ops in [[0i64, 0, 2, 0], [0, 1, 3, 6], [1, 1, 4, 2], [5, 0, 6, 3]] {
        let c = Case::new(p, "ops").num(ops[0]).num(a).num(2).num(1).num(ops[1]).num(b).num(1).num(0).num(ops[2]).num(a).num(3).num(1).num(ops[3]).num(b).num(3).num(2);
        if !s.case(c.data(&[4, 100, 17])) { return; }
    } } }
    s.notes.push(format!("{} tags alone, {} pairs of tags with 4 operation patterns", kinds(t), sel.len() * sel.len()));
    while s.more() { let c = arb_ops(s, p); if !s.case(c) { return; } }
}
pub fn gen_p15(s: &mut Search) { gen(s, "P15") }
pub fn gen_p16(s: &mut Search) {
    let b = s.budget;
    s.budget = b / 2;
    crate::tiff::gen_bytes(s, "P16");
    s.budget = b;
    gen(s, "P16")
}
pub fn gen_p17(s: &mut Search) { gen(s, "P17") }
pub fn gen_p18(s: &mut Search) { gen(s, "P18") }
