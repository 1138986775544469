//# include prelude.rs
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule bytes to text, as an error of the packet -> contract-bearing /\bVxString::from_utf8\(/ => /vx_text(/
//# rule error of any kind -> one error type /Box<dyn std::error::Error>/ => /XmlError/
//# rule message as an error -> contract-bearing /"([^"]*)"\.into\(\)/ => /vx_message()/
//# rule error conversion -> contract-bearing /\b(error_message)\.into\(\)/ => /vx_error(\1)/
//# rule view of bytes as text -> contract-bearing /std::str::from_utf8\(/ => /vx_utf8(/
//# rule char::is_whitespace -> contract-bearing /\b(\w+)\.is_whitespace\(\)/ => /vx_ws(\1)/
//# rule filtered list of characters -> contract-bearing /(?s)(\w+)\.chars\(\)\s*\.filter\(\|(\w+)\| (.*?)\)\s*\.collect::<Vec<char>>\(\);/ => /vx_filter_chars(&\1, |\2: &char| -> (vx_b: bool) ensures vx_b == (\3) { \3 }, Ghost(|\2: &char| \3));/
//# rule list of one character -> contract-bearing comparison /(\w+) == vec!\[('[^']+')\]/ => /vx_is_char(&\1, \2)/
//# rule logging dropped /(?s)log::error!\(.*?\);/ => //
//# rule tuple as an attribute -> contract-bearing /\.push_attribute\(\((.*?), (\w+)\.as_slice\(\)\)\)/ => /.vx_push(\1, \2.as_slice())/
verus! {
use crate::io::*;
//# helpers
//# include strings.rs
// ---- the XML library, as its documentation describes it: a text is a sequence of events ----
pub type Bs = Seq<u8>;
pub enum A { Good(Bs, Bs), Bad }                        // key and value, or malformed
pub enum E { Start(Bs, Seq<A>), Empty(Bs, Seq<A>), End(Bs), Text(Bs), Raw(int, Bs), Eof, Bad }
#[verifier::external_body] pub struct XmlError { x: u8 }
#[verifier::external_body] pub fn vx_message() -> XmlError { unimplemented!() }
#[verifier::external_body] pub fn vx_error(e: XmlError) -> XmlError { unimplemented!() }
#[verifier::external_body] pub fn vx_text(b: Vec<u8>) -> (r: Result<VxString, XmlError>) ensures r is Ok <==> utf8(b@), r matches Ok(s) ==> s.b@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_utf8(b: &[u8]) -> (r: Result<&VxString, XmlError>) ensures r is Ok <==> utf8(b@), r matches Ok(s) ==> s.b@ == b@ { unimplemented!() }
pub struct QName<'a>(pub &'a [u8]);
impl<'a> QName<'a> { pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.0@ { self.0 } }
pub struct Attribute<'a> { pub key: QName<'a>, pub value: Vec<u8> }
#[verifier::external_body] pub struct BytesStart<'a> { x: &'a [u8] }
impl<'a> BytesStart<'a> {
    pub uninterp spec fn n(&self) -> Bs;
    pub uninterp spec fn a(&self) -> Seq<A>;
    #[verifier::external_body] pub fn new(n: &VxString) -> (r: BytesStart<'a>) ensures r.n() == n.b@, r.a() == Seq::<A>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: QName<'_>) ensures r.0@ == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn attributes(&self) -> (r: Vec<Result<Attribute<'_>, XmlError>>)
        ensures r@.len() == self.a().len(), forall|i: int| 0 <= i < r@.len() ==> match #[trigger] r@[i] { Ok(x) => self.a()[i] == A::Good(x.key.0@, x.value@), Err(_) => self.a()[i] is Bad } { unimplemented!() }
    #[verifier::external_body] pub fn vx_push(&mut self, k: &[u8], v: &[u8]) ensures final(self).n() == old(self).n(), final(self).a() == old(self).a().push(A::Good(k@, v@)) { unimplemented!() }
}
#[verifier::external_body] pub struct Markup<'a> { x: &'a [u8] }
impl<'a> Markup<'a> {
    pub uninterp spec fn b(&self) -> Bs;
    #[verifier::external_body] pub fn name(&self) -> (r: QName<'_>) ensures r.0@ == self.b() { unimplemented!() }
    #[verifier::external_body] pub fn vx_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.b() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Markup<'a>) ensures r.b() == self.b() { unimplemented!() }
}
pub enum Event<'a> { Start(BytesStart<'a>), End(Markup<'a>), Empty(BytesStart<'a>), Text(Markup<'a>), CData(Markup<'a>), Comment(Markup<'a>), Decl(Markup<'a>), PI(Markup<'a>), DocType(Markup<'a>), Eof }
impl<'a> Event<'a> {
    pub open spec fn e(&self) -> E { match self {
        Event::Start(s) => E::Start(s.n(), s.a()), Event::Empty(s) => E::Empty(s.n(), s.a()), Event::End(s) => E::End(s.b()), Event::Text(s) => E::Text(s.b()),
        Event::CData(s) => E::Raw(0, s.b()), Event::Comment(s) => E::Raw(1, s.b()), Event::Decl(s) => E::Raw(2, s.b()), Event::PI(s) => E::Raw(3, s.b()), Event::DocType(s) => E::Raw(4, s.b()), Event::Eof => E::Eof } }
}
/// the events of a text, up to its end or the first place that is not well-formed
pub uninterp spec fn events(b: Bs) -> Seq<E>;
/// the text of events
pub uninterp spec fn rendered(s: Seq<E>) -> Bs;
pub open spec fn last(e: E) -> bool { e is Eof || e is Bad }
#[verifier::external_body]
pub proof fn axiom_events(b: Bs)
    ensures 0 < events(b).len() <= b.len() + 1, last(events(b).last()), forall|i: int| 0 <= i < events(b).len() - 1 ==> !last(#[trigger] events(b)[i]) {}
#[verifier::external_body] pub struct Reader { x: u8 }
impl Reader {
    pub uninterp spec fn rest(&self) -> Seq<E>;
    #[verifier::external_body] pub fn from_reader(b: &[u8]) -> (r: Reader) ensures r.rest() == events(b@) { unimplemented!() }
    #[verifier::external_body] pub fn read_event_into<'a>(&mut self, buf: &'a mut Vec<u8>) -> (r: Result<Event<'a>, XmlError>)
        requires old(self).rest().len() > 0,
        ensures final(self).rest() == old(self).rest().drop_first(), match r { Ok(e) => e.e() == old(self).rest()[0] && !(e.e() is Bad), Err(_) => old(self).rest()[0] is Bad } { unimplemented!() }
    #[verifier::external_body] pub fn buffer_position(&self) -> u64 { unimplemented!() }
}
#[verifier::external_body] pub struct Writer { x: u8 }
impl Writer {
    pub uninterp spec fn out(&self) -> Seq<E>;
    #[verifier::external_body] pub fn new(c: Cursor<Vec<u8>>) -> (r: Writer) ensures c.inner@.len() == 0 ==> r.out() == Seq::<E>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn write_event(&mut self, e: Event<'_>) -> (r: Result<(), XmlError>) ensures r is Ok, final(self).out() == old(self).out().push(e.e()) { unimplemented!() }
    #[verifier::external_body] pub fn into_inner(self) -> (r: VxInner) ensures r.b@ == rendered(self.out()) { unimplemented!() }
}
pub struct VxInner { pub b: Vec<u8> }
impl VxInner { pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.b@ { self.b } }
// ---- text ----
pub uninterp spec fn is_ws(c: char) -> bool;
#[verifier::when_used_as_spec(is_ws_ref)]
#[verifier::external_body] pub fn vx_ws(c: &char) -> (r: bool) ensures r == is_ws(*c) { unimplemented!() }
pub open spec fn is_ws_ref(c: &char) -> bool { is_ws(*c) }
/// the characters of a text
pub uninterp spec fn chars(b: Bs) -> Seq<char>;
#[verifier::external_body] pub fn vx_filter_chars<F: Fn(&char) -> bool>(s: &VxString, f: F, p: Ghost<spec_fn(&char) -> bool>) -> (r: Vec<char>)
    requires forall|c: &char| f.requires((c,)), forall|c: &char, b: bool| f.ensures((c,), b) ==> b == p@(c),
    ensures forall|q: spec_fn(char) -> bool| (forall|c: char| #[trigger] q(c) == p@(&c)) ==> r@ == #[trigger] chars(s.b@).filter(q) { unimplemented!() }
pub fn vx_is_char(v: &Vec<char>, c: char) -> (r: bool) ensures r == (v@ == seq![c]) {
    let r = v.len() == 1 && v[0] == c;
    proof { if r { assert(v@ =~= seq![c]); } else if v@ == seq![c] { assert(v@[0] == c && v@.len() == 1); } }
    r
}
pub open spec fn starts(b: Bs, p: Bs) -> bool { b.len() >= p.len() && b.take(p.len() as int) == p }
pub fn vx_starts(b: &[u8], p: &[u8]) -> (r: bool) ensures r == starts(b@, p@) {
    if b.len() < p.len() { return false; }
    let mut i: usize = 0;
    while i < p.len() invariant i <= p@.len() <= b@.len(), b@.take(i as int) == p@.take(i as int) decreases p@.len() - i {
        if b[i] != p[i] { proof { assert(b@.take(p@.len() as int)[i as int] == b@[i as int]); } return false; }
        proof { assert(b@.take(i + 1) =~= b@.take(i as int).push(b@[i as int])); assert(p@.take(i + 1) =~= p@.take(i as int).push(p@[i as int])); }
        i = i + 1;
    }
    proof { assert(p@.take(i as int) =~= p@); }
    true
}
pub trait VxStarts { spec fn st(&self) -> Bs; fn vx_starts_with<const N: usize>(&self, p: &[u8; N]) -> (r: bool) ensures r == starts(self.st(), p@); }
impl VxStarts for VxString { open spec fn st(&self) -> Bs { self.b@ } fn vx_starts_with<const N: usize>(&self, p: &[u8; N]) -> (r: bool) { vx_starts(self.b.as_slice(), p) } }
impl VxStarts for [u8] { open spec fn st(&self) -> Bs { self@ } fn vx_starts_with<const N: usize>(&self, p: &[u8; N]) -> (r: bool) { vx_starts(self, p) } }

// ---- what cleaning is ----
/// a name of the EXIF namespace: exif:...
pub open spec fn exif(n: Bs) -> bool { starts(n, seq![0x65u8, 0x78, 0x69, 0x66, 0x3a]) }
/// a value as it is written in double quotes
pub open spec fn quoted(v: Bs) -> Bs decreases v.len() { if v.len() == 0 { v } else { quoted(v.drop_last()) + (if v.last() == 0x22 { seq![0x26u8, 0x71, 0x75, 0x6f, 0x74, 0x3b] } else { seq![v.last()] }) } }
pub open spec fn good(a: Seq<A>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] is Good }
pub open spec fn kept_attrs(a: Seq<A>) -> Seq<A> decreases a.len() {
    if a.len() == 0 { a } else { match a.last() { A::Good(k, v) => if exif(k) { kept_attrs(a.drop_last()) } else { kept_attrs(a.drop_last()).push(A::Good(k, quoted(v))) }, A::Bad => kept_attrs(a.drop_last()) } }
}
/// one line break, and white space around it
pub open spec fn layout(t: Bs) -> bool { chars(t).filter(|c: char| c == '\n' || !is_ws(c)) == seq!['\n'] }
pub open spec fn then(a: Seq<E>, r: Option<Seq<E>>) -> Option<Seq<E>> { match r { None => None, Some(s) => Some(a + s) } }
/// cleaning of a sequence of events: depth counts the open elements that are being removed; nl: an element has just been removed
pub open spec fn clean(s: Seq<E>, depth: nat, nl: bool) -> Option<Seq<E>> decreases s.len() {
    if s.len() == 0 { None } else { let r = s.drop_first(); match s[0] {
        E::Start(n, a) => if !utf8(n) { None } else if depth > 0 || exif(n) { clean(r, depth + 1, false) } else if !good(a) { None } else { then(seq![E::Start(n, kept_attrs(a))], clean(r, 0, false)) },
        E::Empty(n, a) => if !utf8(n) { None } else if depth > 0 || exif(n) { clean(r, depth, false) } else if !good(a) { None } else { then(seq![E::Empty(n, kept_attrs(a))], clean(r, 0, false)) },
        E::End(n) => if depth > 0 { clean(r, (depth - 1) as nat, true) } else { then(seq![s[0]], clean(r, 0, false)) },
        E::Text(t) => if !utf8(t) { None } else if depth > 0 || nl && layout(t) { clean(r, depth, false) } else { then(seq![s[0]], clean(r, 0, false)) },
        E::Raw(_, _) => if depth > 0 { clean(r, depth, false) } else { then(seq![s[0]], clean(r, 0, false)) },
        E::Eof => if depth > 0 { None } else { Some(Seq::empty()) },
        E::Bad => None,
    } }
}

// ---- the same on documents ----
pub enum Doc { Nil, Elem(Bs, Seq<A>, Box<Doc>, Box<Doc>), Leaf(E, Box<Doc>) }
pub open spec fn flat(d: Doc) -> Seq<E> decreases d { match d {
    Doc::Nil => Seq::empty(), Doc::Elem(n, a, c, r) => seq![E::Start(n, a)] + flat(*c) + seq![E::End(n)] + flat(*r), Doc::Leaf(e, r) => seq![e] + flat(*r) } }
pub open spec fn sound(d: Doc) -> bool decreases d { match d {
    Doc::Nil => true, Doc::Elem(n, a, c, r) => utf8(n) && good(a) && sound(*c) && sound(*r),
    Doc::Leaf(e, r) => sound(*r) && match e { E::Empty(n, a) => utf8(n) && good(a), E::Text(t) => utf8(t), E::Raw(_, _) => true, _ => false } } }
/// a document without its EXIF elements and attributes, and without the layout behind such an element; everything else is there
pub open spec fn pruned(d: Doc, nl: bool) -> Doc decreases d { match d {
    Doc::Nil => Doc::Nil,
    Doc::Elem(n, a, c, r) => if exif(n) { pruned(*r, true) } else { Doc::Elem(n, kept_attrs(a), Box::new(pruned(*c, false)), Box::new(pruned(*r, false))) },
    Doc::Leaf(e, r) => match e {
        E::Empty(n, a) => if exif(n) { pruned(*r, false) } else { Doc::Leaf(E::Empty(n, kept_attrs(a)), Box::new(pruned(*r, false))) },
        E::Text(t) => if nl && layout(t) { pruned(*r, false) } else { Doc::Leaf(e, Box::new(pruned(*r, false))) },
        _ => Doc::Leaf(e, Box::new(pruned(*r, false))) } } }
pub open spec fn nl_after(d: Doc, nl: bool) -> bool decreases d { match d {
    Doc::Nil => nl, Doc::Elem(n, a, c, r) => nl_after(*r, exif(n)), Doc::Leaf(e, r) => nl_after(*r, false) } }
proof fn lemma_then(a: Seq<E>, b: Seq<E>, r: Option<Seq<E>>) ensures then(a, then(b, r)) == then(a + b, r)
{ if r is Some { assert(a + (b + r->0) =~= (a + b) + r->0); } }
proof fn lemma_step(e: E, s: Seq<E>, t: Seq<E>) ensures ((seq![e] + s) + t)[0] == e, ((seq![e] + s) + t).drop_first() == s + t, ((seq![e] + s) + t).len() > 0
{ assert(((seq![e] + s) + t).drop_first() =~= s + t); }
/// inside of a removed element everything goes, and the depth is the same afterwards
proof fn lemma_skip(d: Doc, t: Seq<E>, depth: nat, nl: bool)
    requires sound(d), depth > 0,
    ensures exists|x: bool| clean(flat(d) + t, depth, nl) == #[trigger] clean(t, depth, x)
    decreases d
{
    match d {
        Doc::Nil => { assert(flat(d) + t =~= t); assert(clean(flat(d) + t, depth, nl) == clean(t, depth, nl)); }
        Doc::Leaf(e, r) => {
            lemma_step(e, flat(*r), t);
            assert(clean(flat(d) + t, depth, nl) == clean(flat(*r) + t, depth, false));
            lemma_skip(*r, t, depth, false);
        }
        Doc::Elem(n, a, c, r) => {
            let tail = seq![E::End(n)] + flat(*r) + t;
            lemma_step(E::Start(n, a), flat(*c) + (seq![E::End(n)] + flat(*r)), t);
            assert(flat(d) =~= seq![E::Start(n, a)] + (flat(*c) + (seq![E::End(n)] + flat(*r))));
            assert(flat(*c) + (seq![E::End(n)] + flat(*r)) + t =~= flat(*c) + tail);
            assert(clean(flat(d) + t, depth, nl) == clean(flat(*c) + tail, depth + 1, false));
            lemma_skip(*c, tail, depth + 1, false);
            let x = choose|x: bool| clean(flat(*c) + tail, depth + 1, false) == #[trigger] clean(tail, depth + 1, x);
            lemma_step(E::End(n), flat(*r), t);
            assert(clean(tail, depth + 1, x) == clean(flat(*r) + t, depth, true));
            lemma_skip(*r, t, depth, true);
        }
    }
}
proof fn lemma_clean(d: Doc, t: Seq<E>, nl: bool)
    requires sound(d),
    ensures clean(flat(d) + t, 0, nl) == then(flat(pruned(d, nl)), clean(t, 0, nl_after(d, nl)))
    decreases d
{
    match d {
        Doc::Nil => { assert(flat(d) + t =~= t); let r = clean(t, 0, nl); if r is Some { assert(Seq::<E>::empty() + r->0 =~= r->0); } }
        Doc::Leaf(e, r) => {
            lemma_step(e, flat(*r), t);
            lemma_clean(*r, t, false);
            let z = clean(t, 0, nl_after(*r, false));
            lemma_then(seq![e], flat(pruned(*r, false)), z);
            match e { E::Empty(n, a) => { lemma_then(seq![E::Empty(n, kept_attrs(a))], flat(pruned(*r, false)), z); } _ => {} }
        }
        Doc::Elem(n, a, c, r) => {
            let tail = seq![E::End(n)] + flat(*r) + t;
            lemma_step(E::Start(n, a), flat(*c) + (seq![E::End(n)] + flat(*r)), t);
            assert(flat(d) =~= seq![E::Start(n, a)] + (flat(*c) + (seq![E::End(n)] + flat(*r))));
            assert(flat(*c) + (seq![E::End(n)] + flat(*r)) + t =~= flat(*c) + tail);
            lemma_step(E::End(n), flat(*r), t);
            if exif(n) {
                assert(clean(flat(d) + t, 0, nl) == clean(flat(*c) + tail, 1, false));
                lemma_skip(*c, tail, 1, false);
                let x = choose|x: bool| clean(flat(*c) + tail, 1, false) == #[trigger] clean(tail, 1, x);
                assert(clean(tail, 1, x) == clean(flat(*r) + t, 0, true));
                lemma_clean(*r, t, true);
            } else {
                let (k, pc, pr) = (kept_attrs(a), flat(pruned(*c, false)), flat(pruned(*r, false)));
                let z = clean(t, 0, nl_after(*r, false));
                assert(clean(flat(d) + t, 0, nl) == then(seq![E::Start(n, k)], clean(flat(*c) + tail, 0, false)));
                lemma_clean(*c, tail, false);
                assert(clean(tail, 0, nl_after(*c, false)) == then(seq![E::End(n)], clean(flat(*r) + t, 0, false)));
                lemma_clean(*r, t, false);
                lemma_then(seq![E::End(n)], pr, z);
                lemma_then(pc, seq![E::End(n)] + pr, z);
                lemma_then(seq![E::Start(n, k)], pc + (seq![E::End(n)] + pr), z);
                assert(seq![E::Start(n, k)] + (pc + (seq![E::End(n)] + pr)) =~= flat(pruned(d, nl)));
            }
        }
    }
}
/// The property: cleaning a well-formed document removes its EXIF elements and attributes and keeps everything else.
pub proof fn theorem_clean(b: Bs, d: Doc)
    requires sound(d), events(b) == flat(d) + seq![E::Eof],
    ensures clean(events(b), 0, false) == Some(flat(pruned(d, false)))
{
    lemma_clean(d, seq![E::Eof], false);
    let x = nl_after(d, false);
    assert(clean(seq![E::Eof], 0, x) == Some(Seq::<E>::empty()));
    assert(flat(pruned(d, false)) + Seq::<E>::empty() =~= flat(pruned(d, false)));
}
/// what remains contains no EXIF element and no EXIF attribute
pub open spec fn no_exif_attr(a: Seq<A>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] is Good && !exif(a[i]->Good_0) }
pub open spec fn no_exif(d: Doc) -> bool decreases d { match d {
    Doc::Nil => true, Doc::Elem(n, a, c, r) => !exif(n) && no_exif_attr(a) && no_exif(*c) && no_exif(*r),
    Doc::Leaf(e, r) => no_exif(*r) && match e { E::Empty(n, a) => !exif(n) && no_exif_attr(a), _ => true } } }
proof fn lemma_attrs(a: Seq<A>) ensures no_exif_attr(kept_attrs(a)) decreases a.len() { if a.len() > 0 { lemma_attrs(a.drop_last()); } }
pub proof fn theorem_gone(d: Doc, nl: bool) ensures no_exif(pruned(d, nl)) decreases d
{ match d { Doc::Nil => {} Doc::Elem(n, a, c, r) => { lemma_attrs(a); theorem_gone(*c, false); theorem_gone(*r, false); theorem_gone(*r, true); }
    Doc::Leaf(e, r) => { theorem_gone(*r, false); match e { E::Empty(n, a) => lemma_attrs(a), _ => {} } } } }

//# fn src/xmp.rs escape_double_quotes -> r
//# spec
    ensures r@ == quoted(value@)
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == value@.len(), forall|k: int| 0 <= k < value@.len() ==> *(#[trigger] it.seq()[k]) == value@[k], escaped@ == quoted(value@.take(it.index@))
//# loop 0 end
            proof { let w = value@.take(it.index@ + 1); assert(w.drop_last() =~= value@.take(it.index@)); assert(w.last() == *byte);
                assert(seq![0x26u8, 0x71, 0x75, 0x6f, 0x74, 0x3b] =~= [0x26u8, 0x71u8, 0x75u8, 0x6fu8, 0x74u8, 0x3bu8]@); }
//# before /return escaped/
    assert(value@.take(value@.len() as int) =~= value@);
//# end
//# fn src/xmp.rs get_exif_filtered_event -> r
//# spec
    ensures r is Ok <==> utf8(event.n()) && good(event.a()), r matches Ok(x) ==> x.n() == event.n() && x.a() == kept_attrs(event.a())
//# loop 0 iter
    it
//# loop 0
        invariant utf8(event.n()), new_event.n() == event.n(), it.seq().len() == event.a().len(),
            forall|i: int| 0 <= i < event.a().len() ==> match #[trigger] it.seq()[i] { Ok(x) => event.a()[i] == A::Good(x.key.0@, x.value@), Err(_) => event.a()[i] is Bad },
            good(event.a().take(it.index@)), new_event.a() == kept_attrs(event.a().take(it.index@))
//# loop 0 begin
            proof { let w = event.a().take(it.index@ + 1); assert(w.drop_last() =~= event.a().take(it.index@)); assert(w.last() == event.a()[it.index@]); 
                assert(seq![0x65u8, 0x78, 0x69, 0x66, 0x3a] =~= [0x65u8, 0x78u8, 0x69u8, 0x66u8, 0x3au8]@); }
//# before /return Ok\(new_event\)/
    proof { assert(event.a().take(event.a().len() as int) =~= event.a()); }
//# end
//# fn src/xmp.rs remove_exif_from_xmp -> r
//# attr
    #[verifier::allow_complex_invariants]
//# spec
    requires data@.len() < 0xffff_ffff,
    ensures match clean(events(data@), 0, false) { Some(s) => r matches Ok(v) && v@ == rendered(s), None => r is Err }
//# loop 0 before
    proof { axiom_events(data@); let z = clean(events(data@), 0, false); if z is Some { assert(Seq::<E>::empty() + z->0 =~= z->0); }
        assert(seq![0x65u8, 0x78, 0x69, 0x66, 0x3a] =~= [0x65u8, 0x78u8, 0x69u8, 0x66u8, 0x3au8]@); }
//# loop 0
        invariant_except_break
            reader.rest().len() > 0, last(reader.rest().last()), forall|i: int| 0 <= i < reader.rest().len() - 1 ==> !last(#[trigger] reader.rest()[i]),
            reader.rest().len() + skip_depth <= data@.len() + 1,
            clean(events(data@), 0, false) == then(writer.out(), clean(reader.rest(), skip_depth as nat, skip_next_nl)),
        invariant data@.len() < 0xffff_ffff, seq![0x65u8, 0x78, 0x69, 0x66, 0x3a] == [0x65u8, 0x78u8, 0x69u8, 0x66u8, 0x3au8]@
        ensures clean(events(data@), 0, false) == Some(writer.out())
        decreases reader.rest().len()
//# loop 0 begin
        let ghost (s0, o0, d0, n0) = (reader.rest(), writer.out(), skip_depth as nat, skip_next_nl);
        proof { if s0.len() == 1 { assert(s0[0] == s0.last()); } else { assert(!last(s0[0])); assert(s0.drop_first().last() == s0.last());
            assert forall|i: int| 0 <= i < s0.len() - 2 implies !last(#[trigger] s0.drop_first()[i]) by { assert(s0.drop_first()[i] == s0[i + 1]); } } }
//# loop 0 end
        proof { match s0[0] { E::Text(t) => { let q = |c: char| c == '\n' || !is_ws(c); assert(layout(t) == (chars(t).filter(q) == seq!['\n'])); } _ => {} }
            if writer.out().len() > o0.len() { let e = writer.out().last(); assert(writer.out() =~= o0 + seq![e]); lemma_then(o0, seq![e], clean(reader.rest(), skip_depth as nat, skip_next_nl)); } }
//# end
}
fn main() {}
