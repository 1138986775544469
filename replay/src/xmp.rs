//! P23: what cleaning removes from an XMP packet. The packet is carried by a PNG; the reference has its own tokeniser and
//! works on the element tree.
use crate::png::*;
use crate::util::*;
use little_exif::metadata::Metadata;

const KEY: &[u8] = b"XML:com.adobe.xmp";
type Attrs = Vec<(Vec<u8>, Vec<u8>)>;
#[derive(Clone, Debug, PartialEq)]
enum Ev { Start(Vec<u8>, Attrs), Empty(Vec<u8>, Attrs), End(Vec<u8>), Text(Vec<u8>), Raw(Vec<u8>) }
enum Node { Elem(Vec<u8>, Attrs, Vec<Node>), Leaf(Ev) }
fn ws(b: u8) -> bool { matches!(b, b' ' | b'\t' | b'\r' | b'\n') }
fn find(b: &[u8], from: usize, what: &[u8]) -> Option<usize> { (from..b.len()).find(|i| b[*i..].starts_with(what)) }
/// name and attributes of the text of a tag
fn tag(b: &[u8]) -> Option<(Vec<u8>, Attrs)> {
    let k = b.iter().position(|x| ws(*x)).unwrap_or(b.len());
    let name = b[..k].to_vec();
    let (mut p, mut a) = (k, vec![]);
    loop {
        while p < b.len() && ws(b[p]) { p += 1; }
        if p == b.len() { return Some((name, a)); }
        let q = (p..b.len()).find(|i| b[*i] == b'=' || ws(b[*i]))?;
        let key = b[p..q].to_vec();
        p = q; while p < b.len() && ws(b[p]) { p += 1; }
        if *b.get(p)? != b'=' { return None; }
        p += 1; while p < b.len() && ws(b[p]) { p += 1; }
        let quote = *b.get(p)?; if quote != b'"' && quote != b'\'' { return None; }
        let e = (p + 1..b.len()).find(|i| b[*i] == quote)?;
        if key.is_empty() || a.iter().any(|(k2, _): &(Vec<u8>, Vec<u8>)| *k2 == key) { return None; }
        a.push((key, b[p + 1..e].to_vec())); p = e + 1;
    }
}
/// None: not well-formed
fn tokens(b: &[u8]) -> Option<Vec<Ev>> {
    let (mut p, mut v) = (0, vec![]);
    while p < b.len() {
        if b[p] != b'<' {
            let e = find(b, p, b"<").unwrap_or(b.len());
            std::str::from_utf8(&b[p..e]).ok()?;
            v.push(Ev::Text(b[p..e].to_vec())); p = e; continue;
        }
        let raw = [(&b"<!--"[..], &b"-->"[..]), (b"<![CDATA[", b"]]>"), (b"<?", b"?>"), (b"<!DOCTYPE ", b">")].into_iter().find(|r| b[p..].starts_with(r.0));
        if let Some((a, z)) = raw {
            let e = find(b, p + a.len(), z)? + z.len();
            v.push(Ev::Raw(b[p..e].to_vec())); p = e; continue;
        }
        if b[p..].starts_with(b"<!") { return None; }
        if b[p..].starts_with(b"</") {
            let e = find(b, p, b">")?;
            let mut n = &b[p + 2..e]; while n.last().map_or(false, |x| ws(*x)) { n = &n[..n.len() - 1]; }
            v.push(Ev::End(n.to_vec())); p = e + 1; continue;
        }
        let (mut e, mut q) = (p + 1, 0u8);
        loop { let x = *b.get(e)?; if q == 0 { if x == b'>' { break; } if x == b'"' || x == b'\'' { q = x; } } else if x == q { q = 0; } e += 1; }
        let body = &b[p + 1..e];
        let (body, empty) = match body.strip_suffix(b"/") { Some(x) => (x, true), None => (body, false) };
        let (n, a) = tag(body)?; std::str::from_utf8(&n).ok()?; if n.is_empty() { return None; }
        v.push(if empty { Ev::Empty(n, a) } else { Ev::Start(n, a) }); p = e + 1;
    }
    Some(v)
}
fn tree(v: &[Ev], p: &mut usize, open: Option<&[u8]>) -> Option<Vec<Node>> {
    let mut out = vec![];
    while *p < v.len() {
        match &v[*p] {
            Ev::Start(n, a) => { *p += 1; let c = tree(v, p, Some(n))?; out.push(Node::Elem(n.clone(), a.clone(), c)); }
            Ev::End(n) => { if open != Some(n) { return None; } *p += 1; return Some(out); }
            e => { *p += 1; out.push(Node::Leaf(e.clone())); }
        }
    }
    if open.is_none() { Some(out) } else { None }
}
fn exif(n: &[u8]) -> bool { n.starts_with(b"exif:") }
fn kept(a: &Attrs) -> Attrs {
    a.iter().filter(|x| !exif(&x.0)).map(|(k, v)| (k.clone(), v.iter().flat_map(|c| if *c == b'"' { b"&quot;".to_vec() } else { vec![*c] }).collect())).collect()
}
fn push(out: &mut Vec<Ev>, e: Ev) {
    if let (Ev::Text(t), Some(Ev::Text(l))) = (&e, out.last_mut()) { l.extend(t); return; }
    if e != Ev::Text(vec![]) { out.push(e); }
}
/// one line break with white space around it, and nothing else
fn layout(t: &[u8]) -> bool { let s = std::str::from_utf8(t).unwrap(); s.chars().all(char::is_whitespace) && s.matches('\n').count() == 1 }
fn prune(ns: &[Node], out: &mut Vec<Ev>, removed: &mut usize) {
    let mut behind = false;
    for n in ns {
        let b = std::mem::replace(&mut behind, false);
        match n {
            Node::Elem(n, _, _) if exif(n) => { behind = true; *removed += 1; }
            Node::Elem(n, a, c) => { *removed += a.len() - kept(a).len(); push(out, Ev::Start(n.clone(), kept(a))); prune(c, out, removed); push(out, Ev::End(n.clone())); }
            Node::Leaf(Ev::Empty(n, _)) if exif(n) => { *removed += 1; }
            Node::Leaf(Ev::Empty(n, a)) => { *removed += a.len() - kept(a).len(); push(out, Ev::Empty(n.clone(), kept(a))); }
            Node::Leaf(Ev::Text(t)) if b && layout(t) => {}
            Node::Leaf(e) => push(out, e.clone()),
        }
    }
}
fn normal(v: &[Ev]) -> Vec<Ev> {
    let mut out = vec![];
    let same = |a: &Attrs| a.iter().map(|(k, v)| (k.clone(), v.iter().flat_map(|c| if *c == b'"' { b"&quot;".to_vec() } else { vec![*c] }).collect::<Vec<u8>>())).collect::<Attrs>();
    for e in v { push(&mut out, match e { Ev::Start(n, a) => Ev::Start(n.clone(), same(a)), Ev::Empty(n, a) => Ev::Empty(n.clone(), same(a)), e => e.clone() }); }
    out
}
/// the packet inside of a PNG, uncompressed
fn wrap(x: &[u8]) -> Vec<u8> {
    let p = minimal(); let mut d = KEY.to_vec(); d.extend([0, 0, 0, 0, 0]); d.extend(x);
    [&p[..33], &chunk(b"iTXt", &d), &p[33..]].concat()
}
fn unwrap(p: &[u8]) -> Option<Vec<u8>> {
    let (cs, _) = chunks(p)?;
    let c = cs.iter().find(|c| &c.0 == b"iTXt" && c.1.starts_with(KEY))?;
    Some(c.1[KEY.len() + 5..].to_vec())
}
pub fn check(c: &Case) -> Res {
    let x = &c.d[0];
    if x.starts_with(b"\xef\xbb\xbf") { return Ok(false); }     // the byte order mark is not part of the text
    let nodes = tokens(x).and_then(|t| { let mut p = 0; tree(&t, &mut p, None).map(|n| (n, t)) });
    let png = wrap(x);
    let mut v = png.clone();
    let r = Metadata::clear_metadata(&mut v, PNG);
    let Some((ns, _)) = nodes else {
        if r.is_ok() && c.op == "broken" { return Err(format!("a packet that is not well-formed is rewritten to {:?}", unwrap(&v).map(|y| String::from_utf8_lossy(&y).to_string()))); }
        if r.is_err() && v != png { return Err("a failed clear changed the image".into()); }
        return Ok(false);
    };
    if let Err(e) = r { if c.op == "mutated" { return Ok(false); } return Err(format!("cleaning a well-formed packet fails: {e}")); }
    let y = unwrap(&v).ok_or("the packet is gone")?;
    let (mut want, mut removed) = (vec![], 0);
    prune(&ns, &mut want, &mut removed);
    let Some(got) = tokens(&y) else { return Err(format!("the result is not well-formed: {:?}", String::from_utf8_lossy(&y))) };
    let got = normal(&got);
    if got != want {
        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("after cleaning, item {k} is {:?} instead of {:?}", got.get(k), want.get(k)));
    }
    let mut w = v.clone();
    if Metadata::clear_metadata(&mut w, PNG).is_err() || w != v { return Err("cleaning the cleaned packet again changes it".into()); }
    Ok(removed > 0)
}

const NAMES: [&str; 14] = ["exif:A", "exif:Flash", "exif:", "exif", "exifEX:Gamma", "Exif:B", "tiff:Make", "rdf:Seq", "rdf:li", "x", "aexif:C", "exi:f", "dc:title", "rdf:Description"];
const TEXTS: [&str; 16] = ["\n", "\n   ", "  \n\t", "\n\n", " ", "", "text", "a\nb", "&amp;\n", "\r\n", "\u{a0}\n", "exif:A", "\u{2003}\n\u{2003}", "\n.", "100", "\u{e4}\n"];
const VALUES: [&str; 10] = ["1", "", "&lt;", "a'b", "exif:", "&quot;", "two words", "a>b", "\n", "a=b"];
fn attrs(r: &mut Rng) -> String {
    let mut o = String::new(); let mut used = vec![];
    for _ in 0..r.below(4) {
        let n = *r.pick(&NAMES); if used.contains(&n) || n == "exif:" && r.chance(1, 2) { continue; } used.push(n);
        let mut v = r.pick(&VALUES).to_string();
        o += *r.pick(&[" ", "\n  ", "\t", "  "]);
        if r.chance(1, 3) { v = v.replace('\'', "&apos;"); if r.chance(1, 2) { v += "say \"x\""; } o += &format!("{n}{}'{v}'", r.pick(&["=", " = "])); }
        else { o += &format!("{n}=\"{v}\""); }
    }
    if r.chance(1, 6) { o += " "; }
    o
}
fn forest(r: &mut Rng, depth: usize) -> String {
    let mut o = String::new();
    for _ in 0..r.below(5) {
        match r.below(12) {
            0..=3 => o += *r.pick(&TEXTS),
            4 => { let n = *r.pick(&NAMES); o += &format!("<{n}{}/>", attrs(r)); }
            5 => o += *r.pick(&["<!-- <exif:A> -->", "<![CDATA[<exif:A>\n]]>", "<?pi exif:A?>", "<!---->", "<?xml-x a=\"1\"?>"]),
            _ => { if depth == 0 { o += "\n"; } else { let n = *r.pick(&NAMES); let a = attrs(r); o += &format!("<{n}{a}>{}</{n}{}>", forest(r, depth - 1), if r.chance(1, 8) { " " } else { "" }); } }
        }
    }
    o
}
pub fn gen(s: &mut Search) {
    let run = |s: &mut Search, x: &str| s.case(Case::new("P23", "packet").data(x.as_bytes()));
    // every sequence of up to four of these pieces, at the top and inside of an element of either kind
    let pieces = ["<exif:A>1</exif:A>", "<exif:A><rdf:Seq><rdf:li>1</rdf:li></rdf:Seq></exif:A>", "<exif:A/>", "<k>v</k>", "<k exif:a=\"1\" b='\"2\"'/>", "\n  ", "t", "<exif:A>\n<exif:B>\n</exif:B>\n</exif:A>"];
    let mut level = vec![String::new()];
    for _ in 0..4 {
        let mut next = vec![];
        for a in &level { for p in pieces { if !s.more() { return; } let x = format!("{a}{p}"); if !run(s, &x) { return; } if !run(s, &format!("<r>{x}</r>")) { return; } next.push(x); } }
        level = next;
        if level.len() > 600 { level.retain(|x| x.len() % 7 == 3 || x.matches('\n').count() > 1); level.truncate(600); }
    }
    for n in NAMES { for m in NAMES { if !run(s, &format!("<{n} {m}=\"1\">\n<{m}>\n</{m}>\n</{n}>\n<{m} {n}='2'/>\n")) { return; } } }
    for t in TEXTS { for u in TEXTS { if !run(s, &format!("<r><exif:A>x</exif:A>{t}<b>{u}</b>{t}</r>")) { return; } if !run(s, &format!("<r>{t}<exif:A>{u}<c>{u}</c></exif:A>{t}<!--c-->{u}</r>")) { return; } } }
    s.notes.push("all sequences of up to 3 of 8 packet pieces (4 sampled), all pairs of 14 names and of 16 texts around a removed element".into());
    // texts that are not well-formed must not be truncated silently
    for x in ["<r><a></b><k>v</k></r>", "<r><exif:A></k></r>", "<r a=\"1\" a=\"2\"/>", "<r a=1/>", "<r a><k/></r>", "<r><exif:A>", "<exif:A><b></exif:A>", "<r>v</r></s>", "<r>text<k", "<r><k a=\"1</k></r>", "<r><!-- ", "<r exif:a=\"1\" b/>", "<r b='1' exif:a/>", "<exif:A>"] {
        if !s.case(Case::new("P23", "broken").data(x.as_bytes())) { return; }
    }
    while s.more() {
        let d = 1 + s.rng.below(4);
        let mut x = format!("{}<rdf:RDF{}>{}</rdf:RDF>{}", s.rng.pick(&["", "<?xpacket begin=\"\" id=\"1\"?>\n", "<!DOCTYPE x>\n"]).to_string(), attrs(&mut s.rng), forest(&mut s.rng, d), s.rng.pick(&["", "\n<?xpacket end='w'?>"]).to_string()).into_bytes();
        let cut = s.rng.chance(1, 6);
        if cut { let k = s.rng.below(x.len()); if s.rng.chance(1, 2) { x.remove(k); } else { x[k] = *s.rng.pick(b"<>/\"' =e:\n"); } }
        if !s.case(Case::new("P23", if cut { "mutated" } else { "packet" }).data(&x)) { return; }
    }
}
