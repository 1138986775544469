//# include prelude.rs
//# include vecs.rs
//# rule String -> byte-string model /\bString\b/ => /VxString/
//# rule boxed trait objects -> enum of the implementors /Box<dyn GenericIsoBox>/ => /AnyBox/
//# rule boxing -> enum of the implementors /\bBox::new\(/ => /vx_any(/
//# rule message text /"([^"]*)"\.to_string\(\)/ => /"\1"/
//# rule panic! -> unreachable /panic!\("[^"]*"\)/ => /vx_panic()/
//# rule reservation, may fail /(\w+)\.try_reserve_exact\(([^()]*)\)\?;/ => /vx_reserve(&mut \1, \2)?;/
//# rule sum of three, checked /([\w.]+)\s*\.checked_add\((\w+)\)\s*\.and_then\(\|(\w+)\| \3\.checked_add\(([\w.]+)\)\)\s*\.is_none\(\)/ => /!vx_sum3(\1, \2, \4)/
//# elem ItemLocationEntry items
//# elem u32 to_item_ID
//# elem AnyBox boxes other_boxes
//# rule dynamic cast -> contract-bearing cast /\.as_any\(\)((?:\s|\x01\d+\x02)*)\.downcast_ref::<(\w+)>\(\)/ => /\1.vx_ref_\2()/
//# rule dynamic cast -> contract-bearing cast (mut) /\.as_any_mut\(\)((?:\s|\x01\d+\x02)*)\.downcast_mut::<(\w+)>\(\)/ => /\1.vx_mut_\2()/
//# rule &str -> byte-string model /&str\b/ => /&VxString/
//# rule to_string -> contract-bearing vx_to_string /\b(\w+)\.to_string\(\)/ => /\1.vx_to_string()/
//# rule search of the Exif item -> loop /return self\.items\.iter\(\)\s*\.find\(\|(\w+)\|([\s\S]*?)\)\s*;?\s*\}\s*$/ => /let mut vx_i: usize = 0; while vx_i < self.items.len() invariant self.wf0(), forall|k: int| 0 <= k < vx_i ==> !(#[trigger] self.items@[k]).is_exif() decreases self.items@.len() - vx_i { let \1 = &self.items[vx_i]; assert(self.items@[vx_i as int].wf()); if \2 { return Some(\1); } vx_i += 1; } return None; }/
//# rule 64-bit target /usize::BITS == u32::BITS/ => /false/
verus! {
use crate::io::*;
//# include strings.rs
//# include heif_std.rs
//# item src/heif/box_type.rs enum BoxType
//# item src/heif/box_header.rs struct BoxHeader
impl Clone for BoxType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BoxType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &BoxType) -> bool { *self == *other }
}
impl PartialEq for BoxType { #[verifier::external_body] fn eq(&self, other: &BoxType) -> (r: bool) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_text_or_empty(b: &[u8; 4]) -> (r: VxString) ensures utf8(b@) ==> r.b@ == b@, !utf8(b@) ==> r.b@.len() == 0 { unimplemented!() }
impl BoxType {
pub open spec fn name(self) -> Seq<u8> { match self {
//# variants src/heif/box_type.rs BoxType -url,urn,xml,uri,uuid,unknown /    BoxType::$V => seq![$L],/
    BoxType::url => seq![0x75u8, 0x72, 0x6c, 0x20], BoxType::urn => seq![0x75u8, 0x72, 0x6e, 0x20], BoxType::xml => seq![0x78u8, 0x6d, 0x6c, 0x20], BoxType::uri => seq![0x75u8, 0x72, 0x69, 0x20],
    BoxType::uuid { usertype } => seq![0x75u8, 0x75, 0x69, 0x64], BoxType::unknown { box_type } => box_type@,
} }
//# specfn src/heif/box_type.rs extends_fullbox in BoxType as full
//# fn src/heif/box_type.rs extends_fullbox in BoxType -> r
//# spec
    ensures r == self.full()
//# end
//# fn src/heif/box_type.rs from_4_bytes in BoxType -> r
//# spec
    ensures r.name() == bytes@, r matches BoxType::uuid { usertype } ==> usertype@ == Seq::new(16, |i: int| 0u8), bytes@ == seq![0x69u8, 0x72, 0x65, 0x66] ==> r is iref
//# sub /std::str::from_utf8\(&bytes\)\.unwrap_or\(""\)/ => /vx_text_or_empty(&bytes)/
//# begin
    broadcast use axiom_ascii;
//# end
//# fn src/heif/box_type.rs to_4_bytes in BoxType -> r
//# spec
    ensures r@ == self.name()
//# end
}
impl Clone for BoxHeader { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl BoxHeader {
pub open spec fn ser(&self) -> Seq<u8> {
    enc32(if self.largesize { 1u32 } else { self.box_size as u32 }, Endian::Big) + self.box_type.name()
    + (if self.largesize { enc64(self.box_size, Endian::Big) } else { Seq::empty() })
    + (match self.box_type { BoxType::uuid { usertype } => usertype@, _ => Seq::empty() })
    + (if self.box_type.full() { seq![self.version->0] + self.flags->0@ } else { Seq::empty() })
}
pub open spec fn wf(&self) -> bool { (self.box_type.full() ==> self.version is Some && self.flags is Some) && (!self.largesize ==> self.box_size <= u32::MAX) && self.header_size == self.ser().len() && self.box_type.name().len() == 4 }
//# fn src/heif/box_header.rs read_box_header in BoxHeader -> r
//# spec
    requires old(cursor).pos() >= 0,
    ensures kept(old(cursor), final(cursor)), r matches Ok(h) ==> h.wf() && got(old(cursor), final(cursor), h.ser())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /if header\.box_size == 1/
    let ghost p2 = cursor.pos();
    proof { lemma_at(b, p0, p0 + 4, p2, enc32(header.box_size as u32, Endian::Big), header.box_type.name()); lemma_at0(b, p2); }
//# before /if let BoxType::uuid/
    let ghost p3 = cursor.pos();
    let ghost (x1, x2) = (enc32(if header.largesize { 1u32 } else { header.box_size as u32 }, Endian::Big) + header.box_type.name(), if header.largesize { enc64(header.box_size, Endian::Big) } else { Seq::empty() });
    proof { lemma_at(b, p0, p2, p3, x1, x2); lemma_at0(b, p3); }
//# before /if box_type\.extends_fullbox/
    let ghost p4 = cursor.pos();
    let ghost x3 = (match header.box_type { BoxType::uuid { usertype } => usertype@, _ => Seq::empty() });
    proof { lemma_at(b, p0, p3, p4, x1 + x2, x3); lemma_at0(b, p4); }
//# before /return Ok\(header\)/
    proof {
        let x4 = (if header.box_type.full() { seq![header.version->0] + header.flags->0@ } else { Seq::empty() });
        if header.box_type.full() { assert(b.subrange(p4, p4 + 1) =~= seq![header.version->0]); lemma_at(b, p4, p4 + 1, cursor.pos(), seq![header.version->0], header.flags->0@); }
        lemma_at(b, p0, p4, cursor.pos(), x1 + x2 + x3, x4);
    }
//# end
//# fn src/heif/box_header.rs get_box_size in BoxHeader -> r
//# spec
    ensures r == self.box_size
//# end
pub open spec fn type_of(&self) -> BoxType { self.box_type }
//# fn src/heif/box_header.rs get_box_type in BoxHeader -> r
//# attr
#[verifier::when_used_as_spec(type_of)]
//# spec
    ensures r == self.type_of()
//# end
//# fn src/heif/box_header.rs get_header_size in BoxHeader -> r
//# spec
    ensures r == self.header_size
//# end
//# fn src/heif/box_header.rs get_version in BoxHeader -> r
//# spec
    requires self.version is Some
    ensures r == self.version->0
//# end
//# fn src/heif/box_header.rs serialize in BoxHeader -> r
//# spec
    requires self.wf()
    ensures r@ == self.ser()
//# sub /\bin((?:\s|\x01\d+\x02)*)usertype\b/ => /in\1 &usertype/
//# sub /serialized\.push\(byte\)/ => /serialized.push(*byte)/
//# sub /\bin((?:\s|\x01\d+\x02)*)self\.flags/ => /in\1 &self.flags/
//# sub /serialized\.push\(flag\)/ => /serialized.push(*flag)/
//# loop 0 before
    let ghost v0 = serialized@;
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == 16, forall|k: int| 0 <= k < 16 ==> *(#[trigger] it.seq()[k]) == usertype@[k], serialized@ == v0 + usertype@.take(it.index@)
//# loop 0 end
            assert(usertype@.take(it.index@ + 1) =~= usertype@.take(it.index@).push(*byte));
//# loop 1 before
    let ghost v1 = serialized@;
//# loop 1 iter
    it
//# loop 1
        invariant it.seq().len() == 3, forall|k: int| 0 <= k < 3 ==> *(#[trigger] it.seq()[k]) == self.flags->0@[k], serialized@ == v1 + self.flags->0@.take(it.index@)
//# loop 1 end
            assert(self.flags->0@.take(it.index@ + 1) =~= self.flags->0@.take(it.index@).push(*flag));
//# end
}
#[verifier::external_body] pub fn vx_reserve(v: &mut Vec<u8>, n: usize) -> (r: Result<(), io::Error>) ensures final(v)@ == old(v)@ { unimplemented!() }
pub fn vx_panic<A>() -> A requires false { unreached() }
pub fn vx_sum3(a: u64, b: u64, c: u64) -> (r: bool) ensures r == (a + b + c <= u64::MAX) { match a.checked_add(b) { Some(x) => match x.checked_add(c) { Some(_) => true, None => false }, None => false } }
pub proof fn lemma_read<T: Stream + ?Sized>(a: &T, b: &T, x: Seq<u8>, n: int)
    requires 0 <= a.pos() <= a.bytes().len(), kept(a, b), 0 <= n <= a.bytes().len() - a.pos(), b.pos() == a.pos() + n, x == Seq::<u8>::empty() + (if n == 0 { Seq::empty() } else { a.bytes().subrange(a.pos(), a.pos() + n) })
    ensures got(a, b, x)
{ assert(a.bytes().subrange(a.pos(), b.pos()) =~= x); }

// ===== boxes ========================================================================================================
//# item src/heif/boxes/iso.rs struct IsoBox
//# item src/heif/boxes/meta.rs struct HandlerBox
//# item src/heif/boxes/meta.rs struct MetaBox
//# item src/heif/boxes/item_info.rs struct ItemInfoEntryBox
//# item src/heif/boxes/item_info.rs struct ItemInfoBox
//# item src/heif/boxes/item_location.rs struct ItemLocationBox
//# item src/heif/boxes/item_location.rs enum ItemConstructionMethod
//# item src/heif/boxes/item_location.rs struct ItemLocationEntry
//# item src/heif/boxes/item_location.rs struct ItemLocationEntryExtentEntry
//# item src/heif/boxes/item_reference.rs struct SingleItemTypeReferenceBox
//# item src/heif/boxes/item_reference.rs struct ItemReferenceBox
/// Box<dyn GenericIsoBox>: one of the implementors
#[verifier::external_body] pub struct AnyBox { p: () }
pub enum K { Iso(IsoBox), Meta(MetaBox), Iinf(ItemInfoBox), Iloc(ItemLocationBox), Iref(ItemReferenceBox) }
pub open spec fn k_ser(k: K) -> Seq<u8> { match k { K::Iso(x) => x.ser(), K::Meta(x) => x.ser(), K::Iinf(x) => x.ser(), K::Iloc(x) => x.ser(), K::Iref(x) => x.ser() } }
pub open spec fn k_wf(k: K) -> bool { match k { K::Iso(x) => x.wf(), K::Meta(x) => x.wf(), K::Iinf(x) => x.wf(), K::Iloc(x) => x.wf(), K::Iref(x) => x.wf() } }
pub open spec fn k_wf0(k: K) -> bool { match k { K::Iso(x) => x.wf(), K::Meta(x) => x.wf0(), K::Iinf(x) => x.wf0(), K::Iloc(x) => x.wf0(), K::Iref(x) => x.wf0() } }
pub open spec fn k_header(k: K) -> BoxHeader { match k { K::Iso(x) => x.header, K::Meta(x) => x.header, K::Iinf(x) => x.header, K::Iloc(x) => x.header, K::Iref(x) => x.header } }
pub open spec fn k_with(k: K, h: BoxHeader) -> K { match k { K::Iso(x) => K::Iso(IsoBox { header: h, ..x }), K::Meta(x) => K::Meta(MetaBox { header: h, ..x }), K::Iinf(x) => K::Iinf(ItemInfoBox { header: h, ..x }), K::Iloc(x) => K::Iloc(ItemLocationBox { header: h, ..x }), K::Iref(x) => K::Iref(ItemReferenceBox { header: h, ..x }) } }
impl AnyBox {
    pub uninterp spec fn k(&self) -> K;
    pub uninterp spec fn ser(&self) -> Seq<u8>;
    pub uninterp spec fn wf(&self) -> bool;
    /// what serialising needs: everything but the size field of the box itself
    pub uninterp spec fn wf0(&self) -> bool;
    pub open spec fn header(&self) -> BoxHeader { k_header(self.k()) }
    pub open spec fn hdr_of(&self) -> &BoxHeader { &self.header() }
    /// dynamic dispatch, under the contract that each implementor's serialize is proved to satisfy below
    #[verifier::external_body] pub fn serialize(&self) -> (r: Vec<u8>) requires self.wf0() ensures r@ == self.ser() { unimplemented!() }
    #[verifier::external_body] #[verifier::when_used_as_spec(hdr_of)] pub fn get_header(&self) -> (r: &BoxHeader) ensures r == self.hdr_of() { unimplemented!() }
    #[verifier::external_body] pub fn get_header_mut(&mut self) -> (r: &mut BoxHeader) ensures *r == old(self).header(), final(self).k() == k_with(old(self).k(), *final(r)) { unimplemented!() }
    // as_any().downcast_ref(), as_any_mut().downcast_mut(): succeed for the implementor itself
    #[verifier::external_body] pub fn vx_ref_IsoBox(&self) -> (r: Option<&IsoBox>) ensures match r { Some(m) => self.k() == K::Iso(*m), None => !(self.k() is Iso) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_mut_IsoBox(&mut self) -> (r: Option<&mut IsoBox>) ensures match r { Some(m) => old(self).k() == K::Iso(*m) && final(self).k() == K::Iso(*final(m)), None => *final(self) == *old(self) && !(old(self).k() is Iso) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_ref_MetaBox(&self) -> (r: Option<&MetaBox>) ensures match r { Some(m) => self.k() == K::Meta(*m), None => !(self.k() is Meta) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_mut_MetaBox(&mut self) -> (r: Option<&mut MetaBox>) ensures match r { Some(m) => old(self).k() == K::Meta(*m) && final(self).k() == K::Meta(*final(m)), None => *final(self) == *old(self) && !(old(self).k() is Meta) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_ref_ItemInfoBox(&self) -> (r: Option<&ItemInfoBox>) ensures match r { Some(m) => self.k() == K::Iinf(*m), None => !(self.k() is Iinf) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_mut_ItemInfoBox(&mut self) -> (r: Option<&mut ItemInfoBox>) ensures match r { Some(m) => old(self).k() == K::Iinf(*m) && final(self).k() == K::Iinf(*final(m)), None => *final(self) == *old(self) && !(old(self).k() is Iinf) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_ref_ItemLocationBox(&self) -> (r: Option<&ItemLocationBox>) ensures match r { Some(m) => self.k() == K::Iloc(*m), None => !(self.k() is Iloc) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_mut_ItemLocationBox(&mut self) -> (r: Option<&mut ItemLocationBox>) ensures match r { Some(m) => old(self).k() == K::Iloc(*m) && final(self).k() == K::Iloc(*final(m)), None => *final(self) == *old(self) && !(old(self).k() is Iloc) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_ref_ItemReferenceBox(&self) -> (r: Option<&ItemReferenceBox>) ensures match r { Some(m) => self.k() == K::Iref(*m), None => !(self.k() is Iref) } { unimplemented!() }
    #[verifier::external_body] pub fn vx_mut_ItemReferenceBox(&mut self) -> (r: Option<&mut ItemReferenceBox>) ensures match r { Some(m) => old(self).k() == K::Iref(*m) && final(self).k() == K::Iref(*final(m)), None => *final(self) == *old(self) && !(old(self).k() is Iref) } { unimplemented!() }
}
/// what a box is written as is what the implementor writes (values are finite trees, so this defines ser and wf)
#[verifier::external_body] pub broadcast proof fn axiom_any(b: AnyBox) ensures #![trigger b.ser()] #![trigger b.wf()] #![trigger b.wf0()] b.ser() == k_ser(b.k()) && b.wf() == k_wf(b.k()) && b.wf0() == k_wf0(b.k()) {}
pub trait VxAny { spec fn any(&self) -> K; }
impl VxAny for IsoBox { open spec fn any(&self) -> K { K::Iso(*self) } }
impl VxAny for MetaBox { open spec fn any(&self) -> K { K::Meta(*self) } }
impl VxAny for ItemInfoBox { open spec fn any(&self) -> K { K::Iinf(*self) } }
impl VxAny for ItemLocationBox { open spec fn any(&self) -> K { K::Iloc(*self) } }
impl VxAny for ItemReferenceBox { open spec fn any(&self) -> K { K::Iref(*self) } }
#[verifier::external_body] pub fn vx_any<X: VxAny>(x: X) -> (r: AnyBox) ensures r.k() == x.any() { unimplemented!() }

impl IsoBox {
pub open spec fn body(&self) -> Seq<u8> { self.data@ }
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf(&self) -> bool { self.header.wf() }
//# fn src/heif/boxes/iso.rs construct_from_cursor_unboxed in IsoBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.wf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf() && b.header == header && got(old(cursor), final(cursor), b.body())
//# after /cursor\.read_to_end\(&mut buffer\)\?;/
            proof { lemma_read(old(cursor), cursor, buffer@, buffer@.len() as int); }
//# after /cursor\.take\(data_left_to_read as u64\)\.read_to_end\(&mut buffer\)\?;/
        proof { lemma_read(old(cursor), cursor, buffer@, buffer@.len() as int); }
//# end
//# fn src/heif/boxes/iso.rs construct_from_cursor in IsoBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.wf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.k() is Iso && b.k()->Iso_0.wf() && b.k()->Iso_0.header == header && got(old(cursor), final(cursor), b.k()->Iso_0.body())
//# end
//# fn src/heif/boxes/iso.rs serialize in IsoBox -> r
//# spec
    requires self.wf()
    ensures r@ == self.ser()
//# end
}


impl HandlerBox {
pub open spec fn body(&self) -> Seq<u8> { enc32(self.pre_defined, Endian::Big) + enc32(self.handler_type, Endian::Big) + enc32(self.reserved[0], Endian::Big) + enc32(self.reserved[1], Endian::Big) + enc32(self.reserved[2], Endian::Big) + self.name@ }
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf(&self) -> bool { self.header.wf() }
//# fn src/heif/boxes/meta.rs construct_from_cursor_unboxed in HandlerBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.wf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf() && b.header == header && got(old(cursor), final(cursor), b.body())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /if header\.get_box_size\(\) < header/
    let ghost x = enc32(pre_defined, Endian::Big) + enc32(handler_type, Endian::Big) + enc32(reserved[0], Endian::Big) + enc32(reserved[1], Endian::Big) + enc32(reserved[2], Endian::Big);
    proof {
        lemma_at(b, p0, p0 + 4, p0 + 8, enc32(pre_defined, Endian::Big), enc32(handler_type, Endian::Big));
        lemma_at(b, p0, p0 + 8, p0 + 12, enc32(pre_defined, Endian::Big) + enc32(handler_type, Endian::Big), enc32(reserved[0], Endian::Big));
        lemma_at(b, p0, p0 + 12, p0 + 16, enc32(pre_defined, Endian::Big) + enc32(handler_type, Endian::Big) + enc32(reserved[0], Endian::Big), enc32(reserved[1], Endian::Big));
        lemma_at(b, p0, p0 + 16, p0 + 20, enc32(pre_defined, Endian::Big) + enc32(handler_type, Endian::Big) + enc32(reserved[0], Endian::Big) + enc32(reserved[1], Endian::Big), enc32(reserved[2], Endian::Big));
    }
    let ghost c = *cursor;
//# before /return Ok\(HandlerBox/
        proof { lemma_read(&c, cursor, name@, name@.len() as int); lemma_at(b, p0, p0 + 20, cursor.pos(), x, name@); }
//# end
//# fn src/heif/boxes/meta.rs serialize in HandlerBox -> r
//# spec
    requires self.wf()
    ensures r@ == self.ser()
//# loop 0 before
    let ghost v0 = serialized@;
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == 3, forall|k: int| 0 <= k < 3 ==> *(#[trigger] it.seq()[k]) == self.reserved[k],
            it.index@ == 0 ==> serialized@ == v0, it.index@ == 1 ==> serialized@ == v0 + enc32(self.reserved[0], Endian::Big), it.index@ == 2 ==> serialized@ == v0 + enc32(self.reserved[0], Endian::Big) + enc32(self.reserved[1], Endian::Big),
            it.index@ == 3 ==> serialized@ == v0 + enc32(self.reserved[0], Endian::Big) + enc32(self.reserved[1], Endian::Big) + enc32(self.reserved[2], Endian::Big)
//# before /return serialized/
    assert(serialized@ =~= self.ser());
//# end
}

// ===== item information =============================================================================================
impl ItemInfoEntryBox {
pub open spec fn body(&self) -> Seq<u8> {
    (if self.header.version == Some(3u8) { enc32(self.item_id, Endian::Big) } else { enc16(self.item_id as u16, Endian::Big) }) + enc16(self.item_protection_index, Endian::Big) + self.item_name.b@.push(0) + self.additional_data@
}
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
/// the box size is the number of bytes written
pub open spec fn wf(&self) -> bool { self.header.wf() && self.header.box_type is infe && self.header.box_size == self.ser().len() }
//# fn src/heif/boxes/item_info.rs construct_from_cursor_unboxed in ItemInfoEntryBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf(), header.wf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf() && b.header == header && got(old(cursor), final(cursor), b.body())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /let item_protection_index/
    let ghost p1 = cursor.pos();
    let ghost x = (if header.version == Some(3u8) { enc32(item_id, Endian::Big) } else { enc16(item_id as u16, Endian::Big) });
//# before /let item_name/
    proof { lemma_at(b, p0, p1, p1 + 2, x, enc16(item_protection_index, Endian::Big)); }
//# before /let data_read_so_far/
    proof { lemma_at(b, p0, p1 + 2, cursor.pos(), x + enc16(item_protection_index, Endian::Big), item_name.b@.push(0)); }
    let ghost c = *cursor;
//# before /return Ok\(ItemInfoEntryBox/
    proof {
        lemma_read(&c, cursor, additional_data@, additional_data@.len() as int);
        lemma_at(b, p0, c.pos(), cursor.pos(), x + enc16(item_protection_index, Endian::Big) + item_name.b@.push(0), additional_data@);
    }
//# end
//# fn src/heif/boxes/item_info.rs serialize in ItemInfoEntryBox -> r
//# spec
    requires self.wf()
    ensures r@ == self.ser()
//# before /return serialized/
    assert(serialized@ =~= self.ser());
//# end
}
pub open spec fn infos(s: Seq<ItemInfoEntryBox>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { infos(s.drop_last()) + s.last().ser() } }
pub open spec fn count_ser(wide: bool, n: int) -> Seq<u8> { if wide { enc32(n as u32, Endian::Big) } else { enc16(n as u16, Endian::Big) } }
impl ItemInfoBox {
pub open spec fn body(&self) -> Seq<u8> { count_ser(self.header.version != Some(0u8), self.item_count as int) + infos(self.items@) }
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf0(&self) -> bool { self.header.wf() && self.header.version is Some && self.item_count == self.items@.len() && forall|i: int| 0 <= i < self.items@.len() ==> (#[trigger] self.items@[i]).wf() }
/// the box size is the number of bytes written
pub open spec fn wf(&self) -> bool { self.wf0() && self.header.box_size == self.ser().len() }
//# fn src/heif/boxes/item_info.rs construct_from_cursor in ItemInfoBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf(), header.wf(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.k() is Iinf && b.k()->Iinf_0.wf0() && b.k()->Iinf_0.header == header && got(old(cursor), final(cursor), b.k()->Iinf_0.body())
//# begin
    let ghost (b, p0, h) = (cursor.bytes(), cursor.pos(), header);
//# loop 0 before
    let ghost x = count_ser(h.version != Some(0u8), item_count as int);
//# loop 0 iter
    it
//# loop 0
        invariant kept(old(cursor), cursor), b == cursor.bytes(), b.len() <= maxbuf(), at(b, p0, cursor.pos(), x + infos(items@)), items@.len() == it.index@, it.seq().len() == item_count,
            forall|i: int| 0 <= i < items@.len() ==> (#[trigger] items@[i]).wf()
//# loop 0 begin
            let ghost (q0, s0) = (cursor.pos(), items@);
//# loop 0 end
            proof {
                let e = items@.last();
                assert(items@.drop_last() =~= s0);
                lemma_at(b, q0, q0 + e.header.ser().len(), cursor.pos(), e.header.ser(), e.body());
                lemma_at(b, p0, q0, cursor.pos(), x + infos(s0), e.ser());
                assert(x + infos(s0) + e.ser() =~= x + infos(items@));
            }
//# end
//# fn src/heif/boxes/item_info.rs serialize in ItemInfoBox -> r
//# spec
    requires self.wf0()
    ensures r@ == self.ser()
//# loop 0 before
    let ghost v0 = serialized@;
//# loop 0 iter
    it
//# loop 0
        invariant self.wf0(), it.seq().len() == self.items@.len(), forall|k: int| 0 <= k < self.items@.len() ==> *(#[trigger] it.seq()[k]) == self.items@[k], serialized@ == v0 + infos(self.items@.take(it.index@))
//# loop 0 end
            proof { assert(self.items@.take(it.index@ + 1).drop_last() =~= self.items@.take(it.index@)); assert(serialized@ =~= v0 + infos(self.items@.take(it.index@ + 1))); }
//# before /return serialized/
    assert(self.items@.take(self.items@.len() as int) =~= self.items@);
    assert(serialized@ =~= self.ser());
//# end
}

// ===== item locations ===============================================================================================
/// a value in a field of w bytes
pub open spec fn field(v: u64, w: u8) -> Seq<u8> { if w == 4 { enc32(v as u32, Endian::Big) } else if w == 8 { enc64(v, Endian::Big) } else { Seq::empty() } }
pub open spec fn stored(v: u64, w: u8) -> bool { (w == 0 ==> v == 0) && (w == 4 ==> v <= u32::MAX) }
pub open spec fn width(w: u8) -> bool { w == 0 || w == 4 || w == 8 }
pub open spec fn indexed(v: u8, i: u8) -> bool { (v == 1 || v == 2) && i > 0 }
impl ItemLocationEntryExtentEntry {
pub open spec fn sero(&self, v: u8, o: u8, l: u8, i: u8) -> Seq<u8> { (if indexed(v, i) { field(self.extent_index->0, i) } else { Seq::empty() }) + field(self.extent_offset, o) + field(self.extent_length, l) }
/// what is written is what is meant: every value fits into its field
pub open spec fn wf(&self, v: u8, o: u8, l: u8, i: u8) -> bool { (indexed(v, i) ==> self.extent_index is Some && stored(self.extent_index->0, i)) && stored(self.extent_offset, o) && stored(self.extent_length, l) }
//# fn src/heif/boxes/item_location.rs read_from_cursor in ItemLocationEntryExtentEntry -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(x) ==> x.wf(header.version->0, offset_size, length_size, index_size) && got(old(cursor), final(cursor), x.sero(header.version->0, offset_size, length_size, index_size))
        && (indexed(header.version->0, index_size) ==> width(index_size)) && width(offset_size) && width(length_size)
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
    proof { lemma_at0(b, p0); }
//# before /let extent_offset/
    let ghost p1 = cursor.pos();
    let ghost x1 = (if indexed(header.version->0, index_size) { field(extent_index->0, index_size) } else { Seq::empty() });
    proof { lemma_at0(b, p1); assert(at(b, p0, p1, x1)); }
//# before /let extent_length/
    let ghost p2 = cursor.pos();
    proof { lemma_at(b, p0, p1, p2, x1, field(extent_offset, offset_size)); lemma_at0(b, p2); }
//# before /return Ok\(Self/
    proof { lemma_at(b, p0, p2, cursor.pos(), x1 + field(extent_offset, offset_size), field(extent_length, length_size)); }
//# end
}
pub open spec fn extents_ser(s: Seq<ItemLocationEntryExtentEntry>, v: u8, o: u8, l: u8, i: u8) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { extents_ser(s.drop_last(), v, o, l, i) + s.last().sero(v, o, l, i) } }
pub proof fn lemma_empty(a: Seq<u8>) ensures a + Seq::<u8>::empty() == a { assert(a + Seq::<u8>::empty() =~= a); }
pub proof fn lemma_assoc(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures s + a + b == s + (a + b) { assert(s + a + b =~= s + (a + b)); }
pub proof fn lemma_assoc5(s: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>) ensures s + a + b + c + d + e == s + (a + b + c + d + e) { assert(s + a + b + c + d + e =~= s + (a + b + c + d + e)); }
pub proof fn lemma_extent(v1: Seq<u8>, s1: Seq<u8>, x: Seq<ItemLocationEntryExtentEntry>, k: int, v: u8, o: u8, l: u8, i: u8)
    requires 0 <= k < x.len(), s1 == v1 + extents_ser(x.take(k), v, o, l, i)
    ensures s1 + (if indexed(v, i) { field(x[k].extent_index->0, i) } else { Seq::empty() }) + field(x[k].extent_offset, o) + field(x[k].extent_length, l) == v1 + extents_ser(x.take(k + 1), v, o, l, i)
{
    assert(x.take(k + 1).drop_last() =~= x.take(k));
    let (a, b, c) = (if indexed(v, i) { field(x[k].extent_index->0, i) } else { Seq::empty() }, field(x[k].extent_offset, o), field(x[k].extent_length, l));
    assert(x[k].sero(v, o, l, i) == a + b + c);
    assert(s1 + a + b + c =~= v1 + (extents_ser(x.take(k), v, o, l, i) + (a + b + c)));
}
impl ItemLocationEntry {
pub open spec fn head(&self, v: u8, b: u8) -> Seq<u8> {
    (if v == 2 { enc32(self.item_id, Endian::Big) } else { enc16(self.item_id as u16, Endian::Big) })
    + (if v == 1 || v == 2 { enc16(self.reserved_and_construction_method, Endian::Big) } else { Seq::empty() })
    + enc16(self.data_reference_index, Endian::Big) + field(self.base_offset, b) + enc16(self.extent_count, Endian::Big)
}
pub open spec fn parts(&self, v: u8, b: u8) -> (Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>, Seq<u8>) {
    (if v == 2 { enc32(self.item_id, Endian::Big) } else { enc16(self.item_id as u16, Endian::Big) },
     if v == 1 || v == 2 { enc16(self.reserved_and_construction_method, Endian::Big) } else { Seq::empty() },
     enc16(self.data_reference_index, Endian::Big), field(self.base_offset, b), enc16(self.extent_count, Endian::Big))
}
pub open spec fn sero(&self, v: u8, o: u8, l: u8, b: u8, i: u8) -> Seq<u8> { self.head(v, b) + extents_ser(self.extents@, v, o, l, i) }
pub open spec fn method(&self) -> int { self.reserved_and_construction_method as int % 16 }
pub open spec fn wf(&self, v: u8, o: u8, l: u8, b: u8, i: u8) -> bool {
    self.method() <= 2 && (v != 2 ==> self.item_id <= u16::MAX) && stored(self.base_offset, b) && self.extent_count == self.extents@.len()
    && forall|k: int| 0 <= k < self.extents@.len() ==> (#[trigger] self.extents@[k]).wf(v, o, l, i) && self.base_offset + self.extents@[k].extent_offset <= u64::MAX
}
//# fn src/heif/boxes/item_location.rs read_from_cursor in ItemLocationEntry -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(x) ==> x.wf(header.version->0, offset_size, length_size, base_offset_size, index_size) && got(old(cursor), final(cursor), x.sero(header.version->0, offset_size, length_size, base_offset_size, index_size))
//# begin
    let ghost (b, p0, v) = (cursor.bytes(), cursor.pos(), header.version->0);
    proof { lemma_at0(b, p0); }
//# before /let reserved_and_construction_method/
    let ghost p1 = cursor.pos();
    let ghost x1 = (if v == 2 { enc32(item_id, Endian::Big) } else { enc16(item_id as u16, Endian::Big) });
    proof { lemma_at0(b, p1); }
//# before /let data_reference_index/
    let ghost p2 = cursor.pos();
    let ghost x2 = (if v == 1 || v == 2 { enc16(reserved_and_construction_method, Endian::Big) } else { Seq::empty() });
    proof { lemma_at(b, p0, p1, p2, x1, x2); assert(reserved_and_construction_method & 0x0f == reserved_and_construction_method % 16) by (bit_vector); }
//# before /let base_offset =/
    let ghost p3 = cursor.pos();
    let ghost x3 = enc16(data_reference_index, Endian::Big);
    proof { lemma_at(b, p0, p2, p3, x1 + x2, x3); lemma_at0(b, p3); }
//# before /let extent_count/
    let ghost p4 = cursor.pos();
    let ghost x4 = field(base_offset, base_offset_size);
    proof { lemma_at(b, p0, p3, p4, x1 + x2 + x3, x4); }
//# before /let mut extents/
    let ghost p5 = cursor.pos();
    let ghost x = x1 + x2 + x3 + x4 + enc16(extent_count, Endian::Big);
    proof { lemma_at(b, p0, p4, p5, x1 + x2 + x3 + x4, enc16(extent_count, Endian::Big)); assert(x + extents_ser(Seq::empty(), v, offset_size, length_size, index_size) =~= x); }
//# loop 0 iter
    it
//# loop 0
        invariant kept(old(cursor), cursor), b == cursor.bytes(), header.version is Some, v == header.version->0, it.seq().len() == extent_count, extents@.len() == it.index@,
            at(b, p0, cursor.pos(), x + extents_ser(extents@, v, offset_size, length_size, index_size)),
            forall|k: int| 0 <= k < extents@.len() ==> (#[trigger] extents@[k]).wf(v, offset_size, length_size, index_size) && base_offset + extents@[k].extent_offset <= u64::MAX
//# loop 0 begin
            let ghost (q0, s0) = (cursor.pos(), extents@);
//# loop 0 end
            proof {
                let e = extents@.last();
                assert(extents@.drop_last() =~= s0);
                lemma_at(b, p0, q0, cursor.pos(), x + extents_ser(s0, v, offset_size, length_size, index_size), e.sero(v, offset_size, length_size, index_size));
                assert(x + extents_ser(s0, v, offset_size, length_size, index_size) + e.sero(v, offset_size, length_size, index_size) =~= x + extents_ser(extents@, v, offset_size, length_size, index_size));
            }
//# end
//# fn src/heif/boxes/item_location.rs get_construction_method in ItemLocationEntry -> r
//# spec
    requires self.method() <= 2
    ensures r is FILE <==> self.method() == 0, r is IDAT <==> self.method() == 1, r is ITEM <==> self.method() == 2
//# begin
    proof { let m = self.reserved_and_construction_method; assert((m as u8 & 0x0f) as u16 == m % 16) by (bit_vector); }
//# end
}
pub open spec fn locs(s: Seq<ItemLocationEntry>, v: u8, o: u8, l: u8, b: u8, i: u8) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { locs(s.drop_last(), v, o, l, b, i) + s.last().sero(v, o, l, b, i) } }
pub open spec fn nibbles(a: u8, b: u8, c: u8, d: u8) -> u16 { (a * 0x1000 + b * 0x100 + c * 0x10 + d) as u16 }
impl ItemLocationBox {
pub open spec fn v(&self) -> u8 { self.header.version->0 }
pub open spec fn body(&self) -> Seq<u8> {
    enc16(nibbles(self.offset_size, self.length_size, self.base_offset_size, self.index_size), Endian::Big) + count_ser(self.v() == 2, self.item_count as int)
    + locs(self.items@, self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size)
}
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf0(&self) -> bool {
    self.header.wf() && self.header.version is Some && self.v() <= 2 && (self.v() != 2 ==> self.item_count <= u16::MAX) && width(self.offset_size) && width(self.length_size) && width(self.base_offset_size) && self.index_size < 16
    && (self.v() != 0 ==> width(self.index_size)) && self.item_count == self.items@.len() && forall|i: int| 0 <= i < self.items@.len() ==> (#[trigger] self.items@[i]).wf(self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size)
}
/// the box size is the number of bytes written
pub open spec fn wf(&self) -> bool { self.wf0() && self.header.box_size == self.ser().len() }
//# fn src/heif/boxes/item_location.rs construct_from_cursor_unboxed in ItemLocationBox -> r
//# attr
    #[verifier::loop_isolation(true)]
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.wf(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf0() && b.header == header && got(old(cursor), final(cursor), b.body())
//# begin
    let ghost (b, p0, v) = (cursor.bytes(), cursor.pos(), header.version->0);
//# before /let uses_index/
    proof {
        assert((temp >> 12 & 0x0f) < 16 && (temp >> 8 & 0x0f) < 16 && (temp >> 4 & 0x0f) < 16 && (temp as u8 & 0x0f) < 16) by (bit_vector);
        assert((temp >> 12 & 0x0f) * 0x1000 + (temp >> 8 & 0x0f) * 0x100 + (temp >> 4 & 0x0f) * 0x10 + (temp as u8 & 0x0f) as u16 == temp) by (bit_vector);
    }
//# loop 0 before
    let ghost x = enc16(temp, Endian::Big) + count_ser(v == 2, item_count as int);
    proof { lemma_at(b, p0, p0 + 2, cursor.pos(), enc16(temp, Endian::Big), count_ser(v == 2, item_count as int)); assert(x + locs(Seq::empty(), v, offset_size, length_size, base_offset_size, index_size) =~= x); }
//# loop 0 iter
    it
//# loop 0
        invariant kept(old(cursor), cursor), b == cursor.bytes(), header.version is Some, v == header.version->0, it.seq().len() == item_count, items@.len() == it.index@,
            at(b, p0, cursor.pos(), x + locs(items@, v, offset_size, length_size, base_offset_size, index_size)),
            forall|k: int| 0 <= k < items@.len() ==> (#[trigger] items@[k]).wf(v, offset_size, length_size, base_offset_size, index_size)
//# loop 0 begin
            let ghost (q0, s0) = (cursor.pos(), items@);
//# loop 0 end
            proof {
                let e = items@.last();
                assert(items@.drop_last() =~= s0);
                lemma_at(b, p0, q0, cursor.pos(), x + locs(s0, v, offset_size, length_size, base_offset_size, index_size), e.sero(v, offset_size, length_size, base_offset_size, index_size));
                assert(x + locs(s0, v, offset_size, length_size, base_offset_size, index_size) + e.sero(v, offset_size, length_size, base_offset_size, index_size) =~= x + locs(items@, v, offset_size, length_size, base_offset_size, index_size));
            }
//# end
//# fn src/heif/boxes/item_location.rs construct_from_cursor in ItemLocationBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), header.wf(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.k() is Iloc && b.k()->Iloc_0.wf0() && b.k()->Iloc_0.header == header && got(old(cursor), final(cursor), b.k()->Iloc_0.body())
//# end
//# fn src/heif/boxes/item_location.rs serialize in ItemLocationBox -> r
//# attr
    #[verifier::spinoff_prover] #[verifier::loop_isolation(true)]
//# spec
    requires self.wf0()
    ensures r@ == self.ser()
//# begin
    let ghost (v, o, l, bo, ix) = (self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size);
    proof { assert(o < 16 && l < 16 && bo < 16 && ix < 16 ==> ((o as u16) << 12) == o * 0x1000 && ((l as u16) << 8) == l * 0x100 && ((bo as u16) << 4) == bo * 0x10 && ((ix as u16) << 0) == ix) by (bit_vector); }
//# loop 0 before
    let ghost v0 = serialized@;
//# loop 0 iter
    it
//# loop 0
        invariant self.wf0(), it.seq().len() == self.items@.len(), forall|k: int| 0 <= k < self.items@.len() ==> *(#[trigger] it.seq()[k]) == self.items@[k],
            (v, o, l, bo, ix) == (self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size),
            serialized@ == v0 + locs(self.items@.take(it.index@), v, o, l, bo, ix)
//# loop 0 begin
            let ghost s0 = serialized@;
//# loop 1 before
            let ghost v1 = serialized@;
            proof {
                let (a, b, c, d, e) = item.parts(v, bo);
                lemma_empty(s0 + a); lemma_empty(s0 + a + b + c); lemma_assoc5(s0, a, b, c, d, e);
                assert(v1 == s0 + a + b + c + d + e);
            }
//# loop 1 iter
    jt
//# loop 1
        invariant self.wf0(), item.wf(v, o, l, bo, ix), jt.seq().len() == item.extents@.len(), forall|k: int| 0 <= k < item.extents@.len() ==> *(#[trigger] jt.seq()[k]) == item.extents@[k],
            (v, o, l, bo, ix) == (self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size),
            serialized@ == v1 + extents_ser(item.extents@.take(jt.index@), v, o, l, ix)
//# loop 1 begin
                let ghost s1 = serialized@;
//# loop 1 end
                proof {
                    assert(serialized@ == s1 + a1 + field(extent.extent_offset, o) + field(extent.extent_length, l));
                    lemma_extent(v1, s1, item.extents@, jt.index@, v, o, l, ix);
                }
//# before /match self\.offset_size/
                let ghost a1 = (if indexed(v, ix) { field(extent.extent_index->0, ix) } else { Seq::empty() });
                proof { lemma_empty(s1); assert(serialized@ == s1 + a1); }
//# before /match self\.length_size/
                proof { lemma_empty(s1 + a1); assert(serialized@ == s1 + a1 + field(extent.extent_offset, o)); lemma_empty(serialized@); }
//# loop 0 end
            proof {
                assert(item.extents@.take(item.extents@.len() as int) =~= item.extents@);
                assert(self.items@.take(it.index@ + 1).drop_last() =~= self.items@.take(it.index@));
                lemma_assoc(s0, item.head(v, bo), extents_ser(item.extents@, v, o, l, ix));
                assert(serialized@ == s0 + item.sero(v, o, l, bo, ix));
                lemma_assoc(v0, locs(self.items@.take(it.index@), v, o, l, bo, ix), item.sero(v, o, l, bo, ix));
                assert(serialized@ == v0 + locs(self.items@.take(it.index@ + 1), v, o, l, bo, ix));
            }
//# before /return serialized/
    assert(self.items@.take(self.items@.len() as int) =~= self.items@);
    assert(serialized@ =~= self.ser());
//# end
}

// ===== item references ==============================================================================================
pub open spec fn id_ser(large: bool, id: u32) -> Seq<u8> { if large { enc32(id, Endian::Big) } else { enc16(id as u16, Endian::Big) } }
pub open spec fn ids(large: bool, s: Seq<u32>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { ids(large, s.drop_last()) + id_ser(large, s.last()) } }
pub proof fn lemma_ids(large: bool, s: Seq<u32>) ensures ids(large, s).len() == s.len() * (if large { 4int } else { 2 }) decreases s.len()
{ if s.len() > 0 { lemma_ids(large, s.drop_last()); assert(s.len() * (if large { 4int } else { 2 }) == (s.len() - 1) * (if large { 4int } else { 2 }) + (if large { 4int } else { 2 })) by (nonlinear_arith); } }
impl SingleItemTypeReferenceBox {
pub open spec fn body(&self) -> Seq<u8> { id_ser(self.is_large, self.from_item_ID) + enc16(self.reference_count, Endian::Big) + ids(self.is_large, self.to_item_ID@) }
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf(&self) -> bool { self.header.wf() && self.reference_count == self.to_item_ID@.len() && self.header.box_size == self.ser().len() }
//# fn src/heif/boxes/item_reference.rs construct_from_cursor_unboxed in SingleItemTypeReferenceBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len(), iref_header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(x) ==> x.wf() && x.is_large == (iref_header.version != Some(0u8)) && got(old(cursor), final(cursor), x.ser())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /let is_large/
    let ghost p1 = cursor.pos();
//# before /let reference_count/
    let ghost p2 = cursor.pos();
//# loop 0 before
    let ghost x = id_ser(is_large, from_item_ID) + enc16(reference_count, Endian::Big);
    proof { lemma_at(b, p1, p2, cursor.pos(), id_ser(is_large, from_item_ID), enc16(reference_count, Endian::Big)); assert(x + ids(is_large, Seq::empty()) =~= x); }
//# loop 0 iter
    it
//# loop 0
        invariant kept(old(cursor), cursor), b == cursor.bytes(), it.seq().len() == reference_count, to_item_ID@.len() == it.index@, cursor.pos() >= 0,
            at(b, p1, cursor.pos(), x + ids(is_large, to_item_ID@))
//# loop 0 begin
            let ghost (q0, s0) = (cursor.pos(), to_item_ID@);
//# loop 0 end
            proof {
                assert(to_item_ID@.drop_last() =~= s0);
                lemma_at(b, p1, q0, cursor.pos(), x + ids(is_large, s0), id_ser(is_large, to_item_ID@.last()));
                assert(x + ids(is_large, s0) + id_ser(is_large, to_item_ID@.last()) =~= x + ids(is_large, to_item_ID@));
            }
//# loop 0 after
    proof { lemma_ids(is_large, to_item_ID@); lemma_at(b, p0, p1, cursor.pos(), header.ser(), x + ids(is_large, to_item_ID@)); }
//# end
//# fn src/heif/boxes/item_reference.rs get_header in SingleItemTypeReferenceBox -> r
//# spec
    ensures *r == self.header
//# end
//# fn src/heif/boxes/item_reference.rs serialize in SingleItemTypeReferenceBox -> r
//# spec
    requires self.wf()
    ensures r@ == self.ser()
//# loop 0 before
    let ghost v0 = serialized@;
//# loop 0 iter
    it
//# loop 0
        invariant it.seq().len() == self.to_item_ID@.len(), forall|k: int| 0 <= k < self.to_item_ID@.len() ==> *(#[trigger] it.seq()[k]) == self.to_item_ID@[k], serialized@ == v0 + ids(self.is_large, self.to_item_ID@.take(it.index@))
//# loop 0 end
            proof { assert(self.to_item_ID@.take(it.index@ + 1).drop_last() =~= self.to_item_ID@.take(it.index@)); assert(serialized@ =~= v0 + ids(self.is_large, self.to_item_ID@.take(it.index@ + 1))); }
//# before /return serialized/
    assert(self.to_item_ID@.take(self.to_item_ID@.len() as int) =~= self.to_item_ID@);
    assert(serialized@ =~= self.ser());
//# end
}
pub open spec fn refs(s: Seq<SingleItemTypeReferenceBox>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { refs(s.drop_last()) + s.last().ser() } }
impl ItemReferenceBox {
pub open spec fn body(&self) -> Seq<u8> { refs(self.references@) }
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf0(&self) -> bool { self.header.wf() && self.header.version is Some && forall|i: int| 0 <= i < self.references@.len() ==> (#[trigger] self.references@[i]).wf() }
/// the box size is the number of bytes written
pub open spec fn wf(&self) -> bool { self.wf0() && self.header.box_size == self.ser().len() }
//# fn src/heif/boxes/item_reference.rs construct_from_cursor_unboxed in ItemReferenceBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf(), header.wf(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf0() && b.header == header && got(old(cursor), final(cursor), b.body())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
    proof { lemma_at0(b, p0); }
//# loop 0
        invariant kept(old(cursor), cursor), b == cursor.bytes(), b.len() <= maxbuf(), 0 <= p0, header.wf(), header.version is Some, header.header_size <= header.box_size,
            bytes_read == cursor.pos() - p0, at(b, p0, cursor.pos(), refs(references@)),
            forall|i: int| 0 <= i < references@.len() ==> (#[trigger] references@[i]).wf()
        decreases b.len() - cursor.pos()
//# loop 0 begin
            let ghost (q0, s0) = (cursor.pos(), references@);
//# loop 0 end
            proof {
                let e = references@.last();
                assert(references@.drop_last() =~= s0);
                lemma_at(b, p0, q0, cursor.pos(), refs(s0), e.ser());
            }
//# end
//# fn src/heif/boxes/item_reference.rs construct_from_cursor in ItemReferenceBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf(), header.wf(), header.version is Some
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.k() is Iref && b.k()->Iref_0.wf0() && b.k()->Iref_0.header == header && got(old(cursor), final(cursor), b.k()->Iref_0.body())
//# end
//# fn src/heif/boxes/item_reference.rs serialize in ItemReferenceBox -> r
//# spec
    requires self.wf0()
    ensures r@ == self.ser()
//# loop 0 before
    let ghost v0 = serialized@;
//# loop 0 iter
    it
//# loop 0
        invariant self.wf0(), it.seq().len() == self.references@.len(), forall|k: int| 0 <= k < self.references@.len() ==> *(#[trigger] it.seq()[k]) == self.references@[k], serialized@ == v0 + refs(self.references@.take(it.index@))
//# loop 0 end
            proof { assert(self.references@.take(it.index@ + 1).drop_last() =~= self.references@.take(it.index@)); assert(serialized@ =~= v0 + refs(self.references@.take(it.index@ + 1))); }
//# before /return serialized/
    assert(self.references@.take(self.references@.len() as int) =~= self.references@);
    assert(serialized@ =~= self.ser());
//# end
}

// ===== the boxes of a file ==========================================================================================
pub open spec fn k_body(k: K) -> Seq<u8> { match k { K::Iso(x) => x.body(), K::Meta(x) => x.body(), K::Iinf(x) => x.body(), K::Iloc(x) => x.body(), K::Iref(x) => x.body() } }
pub open spec fn flat(s: Seq<AnyBox>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last().ser() } }
pub open spec fn all_wf(s: Seq<AnyBox>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).wf() }
pub proof fn lemma_flat_take(s: Seq<AnyBox>, i: int, v0: Seq<u8>, v: Seq<u8>) requires 0 <= i < s.len(), s[i].wf(), v == v0 + flat(s.take(i)) ensures v + s[i].ser() == v0 + flat(s.take(i + 1)), s[i].wf0()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
    assert(v + s[i].ser() =~= v0 + flat(s.take(i + 1)));
    axiom_any(s[i]);
}
pub proof fn lemma_flat_push(s: Seq<AnyBox>, b: AnyBox) ensures flat(s.push(b)) == flat(s) + b.ser() { assert(s.push(b).drop_last() =~= s); }
impl MetaBox {
pub open spec fn body(&self) -> Seq<u8> { self.handler_box.ser() + flat(self.other_boxes@) }
pub open spec fn ser(&self) -> Seq<u8> { self.header.ser() + self.body() }
pub open spec fn wf0(&self) -> bool { self.header.wf() && self.handler_box.wf() && all_wf(self.other_boxes@) }
/// the box size is the number of bytes written
pub open spec fn wf(&self) -> bool { self.wf0() && self.header.box_size == self.ser().len() }
//# fn src/heif/boxes/meta.rs construct_from_cursor in MetaBox -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf(), header.wf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.k() is Meta && b.k()->Meta_0.wf() && b.k()->Meta_0.header == header && got(old(cursor), final(cursor), b.k()->Meta_0.body())
    decreases 1int
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /let mut local_cursor/
    let ghost m = meta_box_bytes@;
    proof { vec_bounded(&meta_box_bytes); lemma_read(old(cursor), cursor, m, m.len() as int); }
//# before /let handler_box\s+=/
    let ghost q1 = local_cursor.pos();
//# loop 0 before
    let ghost x = handler_box.ser();
    proof { lemma_at(m, 0, q1, local_cursor.pos(), handler_box.header.ser(), handler_box.body()); assert(x + flat(Seq::empty()) =~= x); }
//# loop 0
        invariant kept(old(cursor), cursor), got(old(cursor), cursor, m), header.wf(), handler_box.wf(), x == handler_box.ser(), header.header_size + remaining_bytes == header.box_size, local_cursor.bytes() == m, m.len() <= maxbuf(), m.len() <= remaining_bytes, at(m, 0, local_cursor.pos(), x + flat(other_boxes@)), all_wf(other_boxes@)
        decreases m.len() - local_cursor.pos()
//# loop 0 begin
            let ghost (q0, s0) = (local_cursor.pos(), other_boxes@);
//# before /let sub_box/
            let ghost q2 = local_cursor.pos();
//# loop 0 end
            proof {
                let e = other_boxes@.last();
                axiom_any(e);
                lemma_at(m, q0, q2, local_cursor.pos(), sub_header.ser(), k_body(e.k()));
                lemma_at(m, 0, q0, local_cursor.pos(), x + flat(s0), e.ser());
                lemma_flat_push(s0, e);
                assert(other_boxes@ =~= s0.push(e));
                assert(x + flat(s0) + e.ser() =~= x + flat(other_boxes@));
            }
//# loop 0 after
    proof { assert(m.subrange(0, m.len() as int) =~= m); }
//# end
//# fn src/heif/boxes/meta.rs serialize in MetaBox -> r
//# spec
    requires self.wf0()
    ensures r@ == self.ser()
//# begin
    hide(flat); hide(HandlerBox::ser); hide(BoxHeader::ser); hide(HandlerBox::wf); hide(BoxHeader::wf);
//# loop 0 before
    let ghost v0 = serialized@;
    proof { reveal_with_fuel(flat, 2); assert(v0 =~= v0 + flat(self.other_boxes@.take(0))); }
//# loop 0 iter
    it
//# loop 0
        invariant all_wf(self.other_boxes@), it.seq().len() == self.other_boxes@.len(), forall|k: int| 0 <= k < self.other_boxes@.len() ==> *(#[trigger] it.seq()[k]) == self.other_boxes@[k], serialized@ == v0 + flat(self.other_boxes@.take(it.index@))
//# loop 0 begin
            proof { assert(self.other_boxes@[it.index@].wf()); lemma_flat_take(self.other_boxes@, it.index@, v0, serialized@); }
//# before /return serialized/
    assert(self.other_boxes@.take(self.other_boxes@.len() as int) =~= self.other_boxes@);
    assert(serialized@ =~= self.ser());
//# end
}
//# fn src/heif/boxes/mod.rs read_box_based_on_header -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf(), header.wf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf() && b.header() == header && got(old(cursor), final(cursor), k_body(b.k()))
    decreases if header.box_type is meta { 2int } else { 0 }
//# begin
    broadcast use axiom_any;
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /let mut payload_cursor/
    let ghost m = payload@;
    proof { vec_bounded(&payload); lemma_read(old(cursor), cursor, m, m.len() as int); }
//# before /return Ok\(table_box\)/
    proof { assert(m.subrange(0, m.len() as int) =~= m); }
//# end
//# fn src/heif/boxes/mod.rs read_next_box -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(b) ==> b.wf() && b.ser().len() >= 8 && got(old(cursor), final(cursor), b.ser())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
//# before /return read_box/
    let ghost p1 = cursor.pos();
    let ghost hs = header.ser();
    proof {
        broadcast use axiom_any;
        assert forall|q: int, x: Seq<u8>| at(b, p1, q, x) implies #[trigger] at(b, p0, q, hs + x) by { lemma_at(b, p0, p1, q, hs, x); }
    }
//# end
//# item src/heif/container.rs struct HeifContainer
impl HeifContainer {
pub open spec fn ser(&self) -> Seq<u8> { flat(self.boxes@) + self.trailing@ }
//# fn src/heif/container.rs construct_from_cursor_unboxed in HeifContainer -> r
//# attr
    #[verifier::allow_complex_invariants]
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(c) ==> all_wf(c.boxes@) && c.ser() == old(cursor).bytes().skip(old(cursor).pos())
//# begin
    let ghost (b, p0) = (cursor.bytes(), cursor.pos());
    proof { lemma_at0(b, p0); }
//# loop 0
        invariant_except_break kept(old(cursor), cursor), b == cursor.bytes(), b.len() <= maxbuf(), 0 <= p0, position == cursor.pos(), at(b, p0, position as int, flat(boxes@)), all_wf(boxes@)
        ensures position <= b.len(), at(b, p0, position as int, flat(boxes@)), all_wf(boxes@), kept(old(cursor), cursor), b == cursor.bytes()
        decreases b.len() - cursor.pos()
//# loop 0 begin
            let ghost (q0, s0) = (position as int, boxes@);
//# loop 0 end
            proof {
                let e = boxes@.last();
                lemma_at(b, p0, q0, cursor.pos(), flat(s0), e.ser());
                lemma_flat_push(s0, e);
                assert(boxes@ =~= s0.push(e));
            }
//# before /return Ok\(Self/
    proof { assert(flat(boxes@) + trailing@ =~= b.skip(p0)); }
//# end
}

// ===== keeping the locations of the items right =====================================================================
//# fn src/heif/boxes/item_location.rs fits -> r
//# spec
    ensures r ==> stored(value, field_size)
//# end
impl BoxHeader {
/// the size field follows a change of the contents by delta (0: the box extends to the end of the file)
pub open spec fn resized(&self, new: &BoxHeader, delta: int) -> bool {
    *new == (BoxHeader { box_size: new.box_size, ..*self }) && new.box_size == (if self.box_size == 0 { 0 } else { self.box_size + delta }) && (!self.largesize ==> new.box_size <= u32::MAX)
}
//# fn src/heif/box_header.rs change_box_size in BoxHeader -> r
//# spec
    requires old(self).wf()
    ensures r is Ok ==> old(self).resized(final(self), delta as int) && final(self).wf() && final(self).ser().len() == old(self).ser().len()
//# end
}
pub fn vx_add_signed(a: u64, d: i64) -> (r: Option<u64>) ensures r == (if 0 <= a + d <= u64::MAX { Some((a + d) as u64) } else { None::<u64> })
{ let t = a as i128 + d as i128; if 0 <= t && t <= u64::MAX as i128 { Some(t as u64) } else { None } }
pub fn vx_sat_add_signed(a: u64, d: i64) -> (r: u64) ensures r == (if a + d < 0 { 0 } else if a + d > u64::MAX { u64::MAX as int } else { a + d })
{ let t = a as i128 + d as i128; if t < 0 { 0 } else if t > u64::MAX as i128 { u64::MAX } else { t as u64 } }
pub fn vx_sat_add(a: u64, b: u64) -> (r: u64) ensures r == (if a + b > u64::MAX { u64::MAX as int } else { a + b }) { if a > u64::MAX - b { u64::MAX } else { a + b } }
pub fn vx_abs(d: i64) -> (r: u64) ensures r == (if d < 0 { -(d as int) } else { d as int }) { let t = d as i128; if t < 0 { (-t) as u64 } else { t as u64 } }
pub trait VxMin: Sized { fn vx_min(self, o: Self) -> Self; }
impl VxMin for u64 { fn vx_min(self, o: u64) -> (r: u64) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } }
pub fn vx_smallest(v: &Vec<u64>) -> (r: Option<u64>) ensures r is None <==> v@.len() == 0, r matches Some(x) ==> v@.contains(x) && forall|k: int| 0 <= k < v@.len() ==> x <= #[trigger] v@[k]
{
    if v.len() == 0 { return None; }
    let mut m = v[0];
    let mut i = 1;
    while i < v.len() invariant 1 <= i <= v@.len(), v@.contains(m), forall|k: int| 0 <= k < i ==> m <= #[trigger] v@[k] decreases v.len() - i
    { if v[i] < m { m = v[i]; } i += 1; }
    Some(m)
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for ItemConstructionMethod {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ItemConstructionMethod) -> bool { *self == *other }
}
impl PartialEq for ItemConstructionMethod { #[verifier::external_body] fn eq(&self, other: &ItemConstructionMethod) -> (r: bool) { unimplemented!() } }
impl ItemLocationEntry {
/// the bytes of the item are at absolute positions in this file
pub open spec fn here(&self) -> bool { self.method() == 0 && self.data_reference_index == 0 }
pub open spec fn start(&self, k: int) -> int { self.base_offset + self.extents@[k].extent_offset }
pub open spec fn like(&self, o: &ItemLocationEntry) -> bool {
    self.item_id == o.item_id && self.reserved_and_construction_method == o.reserved_and_construction_method && self.data_reference_index == o.data_reference_index && self.extent_count == o.extent_count && self.extents@.len() == o.extents@.len()
    && forall|k: int| 0 <= k < self.extents@.len() ==> (#[trigger] self.extents@[k]).extent_length == o.extents@[k].extent_length && self.extents@[k].extent_index == o.extents@[k].extent_index
}
/// after the range from start to end of the file got longer by delta bytes: what lies in front of it stays, what lies behind it moves, nothing is inside
pub open spec fn moved(&self, new: &ItemLocationEntry, start: int, end: int, delta: int) -> bool {
    self.like(new) && forall|k: int| 0 <= k < self.extents@.len() ==> {
        &&& new.start(k) == (if self.start(k) >= end { self.start(k) + delta } else { self.start(k) })
        &&& self.start(k) >= end || self.start(k) + (#[trigger] self.extents@[k]).extent_length <= start || start == u64::MAX
    }
}
}
pub open spec fn kept_item(a: &ItemLocationEntry, id: Option<u32>) -> bool { id == Some(a.item_id) || !a.here() }
pub open spec fn item_moved(a: &ItemLocationEntry, b: &ItemLocationEntry, start: int, end: int, delta: int, id: Option<u32>) -> bool { if kept_item(a, id) { *b == *a } else { a.moved(b, start, end, delta) } }
pub open spec fn items_moved(a: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, start: int, end: int, delta: int, id: Option<u32>) -> bool {
    a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> item_moved(&#[trigger] a[j], &b[j], start, end, delta, id)
}
impl ItemLocationBox {
pub open spec fn same_but_items(&self, o: &ItemLocationBox) -> bool {
    self.header == o.header && self.offset_size == o.offset_size && self.length_size == o.length_size && self.base_offset_size == o.base_offset_size && self.index_size == o.index_size && self.item_count == o.item_count
}
//# fn src/heif/boxes/item_location.rs move_extents in ItemLocationBox -> r
//# sub /([\w.]+)\.checked_add_signed\((\w+)\)/ => /vx_add_signed(\1, \2)/
//# sub /([\w.]+)\.saturating_add_signed\((\w+)\)/ => /vx_sat_add_signed(\1, \2)/
//# sub /([\w.]+)\.saturating_add\(([\w.]+)\)/ => /vx_sat_add(\1, \2)/
//# sub /(\w+)\.unsigned_abs\(\)/ => /vx_abs(\1)/
//# sub /(\w+)\.iter\(\)\.min\(\)\.copied\(\)/ => /vx_smallest(&\1)/
//# sub /\.min\(/ => /.vx_min(/
//# spec
    requires old(self).wf0()
    ensures r is Ok ==> final(self).wf0() && old(self).same_but_items(final(self)) && items_moved(old(self).items@, final(self).items@, start as int, end as int, delta as int, item_id)
//# loop 0
        invariant old(self).wf0(), (v, o, l, bo, ix) == (self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size), vx_i0 <= self.items@.len(), old(self).same_but_items(self), self.items@.len() == old(self).items@.len(),
            forall|j: int| 0 <= j < vx_i0 ==> item_moved(&old(self).items@[j], &#[trigger] self.items@[j], start as int, end as int, delta as int, item_id) && self.items@[j].wf(self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size),
            forall|j: int| vx_i0 <= j < self.items@.len() ==> #[trigger] self.items@[j] == old(self).items@[j]
        decreases self.items@.len() - vx_i0
//# loop 0 in
            let ghost a = old(self).items@[vx_i0 - 1];
            assert(*item == a);
//# loop 1 iter
            jt
//# loop 1
            invariant *item == a, a.wf(v, o, l, bo, ix), jt.seq().len() == item.extents@.len(), forall|k: int| 0 <= k < item.extents@.len() ==> *(#[trigger] jt.seq()[k]) == item.extents@[k], new_offsets@.len() == jt.index@,
                forall|k: int| 0 <= k < new_offsets@.len() ==> #[trigger] new_offsets@[k] == (if a.start(k) >= end { a.start(k) + delta } else { a.start(k) }),
                forall|k: int| 0 <= k < new_offsets@.len() ==> a.start(k) >= end || a.start(k) + (#[trigger] a.extents@[k]).extent_length <= start || start == u64::MAX
//# loop 2
            invariant vx_z2 <= item.extents@.len(), self.offset_size == o, a.wf(v, o, l, bo, ix), new_offsets@.len() == a.extents@.len(), 
                forall|k: int| 0 <= k < new_offsets@.len() ==> new_base_offset <= #[trigger] new_offsets@[k],
                item.base_offset == new_base_offset, item.item_id == a.item_id, item.reserved_and_construction_method == a.reserved_and_construction_method, item.data_reference_index == a.data_reference_index, item.extent_count == a.extent_count, item.extents@.len() == a.extents@.len(),
                forall|k: int| vx_z2 <= k < a.extents@.len() ==> #[trigger] item.extents@[k] == a.extents@[k],
                forall|k: int| 0 <= k < vx_z2 ==> (#[trigger] item.extents@[k]).extent_length == a.extents@[k].extent_length && item.extents@[k].extent_index == a.extents@[k].extent_index && stored(item.extents@[k].extent_offset, o)
                    && new_base_offset + item.extents@[k].extent_offset == new_offsets@[k]
            decreases item.extents@.len() - vx_z2
//# begin
    let ghost (v, o, l, bo, ix) = (self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size);
//# end
}

// ===== a new item ===================================================================================================
pub proof fn lemma_locs_push(s: Seq<ItemLocationEntry>, e: ItemLocationEntry, v: u8, o: u8, l: u8, b: u8, i: u8) ensures locs(s.push(e), v, o, l, b, i) == locs(s, v, o, l, b, i) + e.sero(v, o, l, b, i) { assert(s.push(e).drop_last() =~= s); }
#[verifier::external_body] pub fn vx_largest(v: &Vec<ItemLocationEntry>) -> (r: Option<u32>) ensures r is None <==> v@.len() == 0, r matches Some(x) ==> forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).item_id <= x { unimplemented!() }
pub fn vx_max2(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub proof fn lemma_sero1(e: ItemLocationEntry, v: u8, o: u8, l: u8, b: u8, i: u8) requires e.extents@.len() == 1 ensures 0 <= e.sero(v, o, l, b, i).len() <= 64 { reveal_with_fuel(extents_ser, 2); assert(e.extents@.drop_last() =~= Seq::empty()); }
/// the (first) item with this id has one extent and gets another length; everything else stays
pub open spec fn set_length(a: Seq<ItemLocationEntry>, b: Seq<ItemLocationEntry>, id: u32, len: u64) -> bool {
    exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).item_id == id && (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).item_id != id)
        && a[i].extents@.len() == 1 && b =~= a.update(i, b[i])
        && ({ let (x, y) = (a[i], b[i]); x.item_id == y.item_id && x.reserved_and_construction_method == y.reserved_and_construction_method && x.data_reference_index == y.data_reference_index && x.extent_count == y.extent_count && x.base_offset == y.base_offset && y.extents@ =~= seq![ItemLocationEntryExtentEntry { extent_length: len, ..x.extents@[0] }] })
}
pub open spec fn new_location(e: &ItemLocationEntry, id: u32, start: u64, len: u64) -> bool { e.item_id == id && e.here() && e.extents@.len() == 1 && e.start(0) == start && e.extents@[0].extent_length == len }
impl ItemLocationBox {
//# fn src/heif/boxes/item_location.rs create_new_item_location_entry in ItemLocationBox -> r
//# sub /self\.items\s*\.iter\(\)\s*\.map\(\|x\| x\.item_id\)\s*\.max\(\)\s*\.unwrap_or\(0\)\s*\.max\((\w+)\)/ => /vx_max2(vx_largest(&self.items).unwrap_or(0), \1)/
//# spec
    requires old(self).wf0()
    ensures r matches Ok((id, delta)) ==> final(self).wf0() && final(self).items@.len() == old(self).items@.len() + 1 && final(self).items@.drop_last() == old(self).items@ && new_location(&final(self).items@.last(), id, data_start, data_length)
        && id > largest_other_id && (forall|k: int| 0 <= k < old(self).items@.len() ==> (#[trigger] old(self).items@[k]).item_id < id)
        && old(self).header.resized(&final(self).header, delta as int) && delta == final(self).ser().len() - old(self).ser().len()
        && (ItemLocationBox { items: old(self).items, item_count: old(self).item_count, header: old(self).header, ..*final(self) }) == *old(self) && delta <= 128
//# before /let delta/
    proof {
        let e = self.items@.last();
        lemma_locs_push(old(self).items@, e, self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size);
        assert(self.items@ =~= old(self).items@.push(e));
        assert(self.items@.drop_last() =~= old(self).items@);
        lemma_sero1(e, self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size);
        assert(self.items@.len() == old(self).items@.len() + 1);
        assert(e.wf(self.v(), self.offset_size, self.length_size, self.base_offset_size, self.index_size));
    }
    let ghost s1 = *self;
//# before /return Ok\(\(old_largest_id/
    proof {
        assert(self.items@ == s1.items@);
        assert(self.wf0());
        assert(old(self).header.resized(&self.header, delta as int));
        assert(delta == self.ser().len() - old(self).ser().len());
    }
//# end
//# fn src/heif/boxes/item_location.rs set_extent_length in ItemLocationBox -> r
//# spec
    requires old(self).wf0()
    ensures r is Ok ==> final(self).wf0() && old(self).same_but_items(final(self)) && set_length(old(self).items@, final(self).items@, item_id, new_length)
//# end
}
impl VxString {
    pub fn vx_starts_with(&self, o: &VxString) -> (r: bool) ensures r == o.b@.is_prefix_of(self.b@)
    {
        if o.b.len() > self.b.len() { return false; }
        let mut i: usize = 0;
        while i < o.b.len() invariant i <= o.b@.len() <= self.b@.len(), forall|k: int| 0 <= k < i ==> o.b@[k] == self.b@[k] decreases o.b@.len() - i
        { if o.b[i] != self.b[i] { return false; } i += 1; }
        true
    }
}
/// str::as_bytes().try_into()
#[verifier::external_body] pub fn vx_bytes4(s: &VxString) -> (r: Result<[u8; 4], ()>) ensures r is Ok <==> s.b@.len() == 4, r matches Ok(a) ==> a@ == s.b@ { unimplemented!() }
impl BoxHeader {
//# fn src/heif/box_header.rs new_exif_info_entry_box_header in BoxHeader -> r
//# spec
    ensures r.wf(), r.box_type is infe, r.box_size == 21, r.ser().len() == 12, r.version == Some(2u8), !r.largesize
//# end
//# fn src/heif/box_header.rs new_simple_box_header in BoxHeader -> r
//# spec
    ensures r.box_size == 8, r.header_size == 8, !r.largesize, r.version is None, r.flags is None
//# end
//# fn src/heif/box_header.rs new_full_box_header in BoxHeader -> r
//# spec
    ensures r.box_size == 12, r.header_size == 12, !r.largesize, r.version is Some, r.flags is Some
//# end
//# fn src/heif/box_header.rs set_box_size in BoxHeader
//# spec
    ensures *final(self) == (BoxHeader { box_size: new_size, ..*old(self) })
//# end
//# fn src/heif/box_header.rs set_version in BoxHeader
//# spec
    ensures *final(self) == (BoxHeader { version: new_version, ..*old(self) })
//# end
//# fn src/heif/box_header.rs set_box_type_via_string in BoxHeader
//# sub /new_type\.as_bytes\(\)\.try_into\(\)/ => /vx_bytes4(new_type)/
//# spec
    requires new_type.b@.len() == 4
    ensures final(self).box_type.name() == new_type.b@, new_type.b@ == seq![0x69u8, 0x72, 0x65, 0x66] ==> final(self).box_type is iref, *final(self) == (BoxHeader { box_type: final(self).box_type, ..*old(self) }), !(final(self).box_type is uuid) || new_type.b@ == seq![0x75u8, 0x75, 0x69, 0x64]
//# end
}
pub open spec fn exif_name() -> Seq<u8> { seq![0x45u8, 0x78, 0x69, 0x66] }
impl ItemInfoEntryBox {
/// an item of the type (or, before version 2, with the name) Exif
pub open spec fn is_exif(&self) -> bool { self.item_name.b@ == exif_name() || (self.header.version->0 >= 2 && exif_name().is_prefix_of(self.item_name.b@)) }
}
pub proof fn lemma_infos_push(s: Seq<ItemInfoEntryBox>, e: ItemInfoEntryBox) ensures infos(s.push(e)) == infos(s) + e.ser() { assert(s.push(e).drop_last() =~= s); }
impl ItemInfoBox {
//# fn src/heif/boxes/item_info.rs get_exif_item in ItemInfoBox -> r
//# sub /\.starts_with\(/ => /.vx_starts_with(/
//# spec
    requires self.wf0()
    ensures match r {
        Some(x) => exists|i: int| 0 <= i < self.items@.len() && *x == #[trigger] self.items@[i] && x.is_exif() && forall|k: int| 0 <= k < i ==> !(#[trigger] self.items@[k]).is_exif(),
        None => forall|k: int| 0 <= k < self.items@.len() ==> !(#[trigger] self.items@[k]).is_exif() }
//# end
//# fn src/heif/boxes/item_info.rs create_new_item_info_entry in ItemInfoBox -> r
//# spec
    requires old(self).wf0(), name.b@.len() == 4, old(self).items@.len() < u64::MAX
    ensures r matches Ok(delta) ==> final(self).wf0() && final(self).items@.len() == old(self).items@.len() + 1 && final(self).items@.drop_last() == old(self).items@
        && final(self).items@.last().item_id == iloc_id && iloc_id <= u16::MAX && final(self).items@.last().item_name.b@ == name.b@ && final(self).items@.last().header.version == Some(2u8) && delta <= 128
        && old(self).header.resized(&final(self).header, delta as int) && delta == final(self).ser().len() - old(self).ser().len()
//# before /let delta/
    proof {
        let e = self.items@.last();
        lemma_infos_push(old(self).items@, e);
        assert(self.items@ =~= old(self).items@.push(e));
        assert(self.items@.drop_last() =~= old(self).items@);
        assert(e.ser().len() == 21);
        assert(e.wf());
    }
//# end
}
pub proof fn lemma_refs_push(s: Seq<SingleItemTypeReferenceBox>, e: SingleItemTypeReferenceBox) ensures refs(s.push(e)) == refs(s) + e.ser() { assert(s.push(e).drop_last() =~= s); }
impl ItemReferenceBox {
//# fn src/heif/boxes/item_reference.rs new in ItemReferenceBox -> r
//# spec
    ensures r.wf(), r.references@.len() == 0, r.header.box_type is iref, r.header.box_size == 12, r.header.box_type.name() == seq![0x69u8, 0x72, 0x65, 0x66]
//# end
//# fn src/heif/boxes/item_reference.rs create_new_single_item_reference_box in ItemReferenceBox -> r
//# spec
    requires old(self).wf0(), reference_type.b@ == seq![0x63u8, 0x64, 0x73, 0x63], to_item_ID@.len() < 65536
    ensures r matches Ok(delta) ==> final(self).wf0() && final(self).references@.len() == old(self).references@.len() + 1 && final(self).references@.drop_last() == old(self).references@
        && ({ let e = final(self).references@.last(); e.header.box_type.name() == reference_type.b@ && e.from_item_ID == from_item_ID && e.to_item_ID == to_item_ID && (!e.is_large ==> from_item_ID <= u16::MAX && forall|k: int| 0 <= k < to_item_ID@.len() ==> #[trigger] to_item_ID@[k] <= u16::MAX) && e.is_large == (old(self).header.version != Some(0u8)) }) && delta <= 128 + 4 * to_item_ID@.len()
        && old(self).header.resized(&final(self).header, delta as int) && delta == final(self).ser().len() - old(self).ser().len()
//# before /self\.header\.change_box_size/
    proof {
        let e = self.references@.last();
        lemma_refs_push(old(self).references@, e);
        assert(self.references@ =~= old(self).references@.push(e));
        assert(self.references@.drop_last() =~= old(self).references@);
        lemma_ids(e.is_large, e.to_item_ID@);
        assert(e.wf());
    }
//# end
}
//# item src/general_file_io.rs const EXIF_HEADER
pub open spec fn num_at(b: Seq<u8>, p: int) -> int { be32(b[p], b[p + 1], b[p + 2], b[p + 3]) as int }
pub proof fn lemma_num(v: u32, b: Seq<u8>, p: int) requires 0 <= p, p + 4 <= b.len(), b.subrange(p, p + 4) == enc32(v, Endian::Big) ensures num_at(b, p) == v
{ let x = b.subrange(p, p + 4); assert(x[0] == b[p] && x[1] == b[p + 1] && x[2] == b[p + 2] && x[3] == b[p + 3]); }
// ===== finding boxes and items ======================================================================================
/// the first box of a type (their number if there is none)
pub open spec fn first(s: Seq<AnyBox>, t: BoxType) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0].header().box_type == t { 0 } else { 1 + first(s.skip(1), t) } }
pub proof fn lemma_first(s: Seq<AnyBox>, t: BoxType)
    ensures 0 <= first(s, t) <= s.len(), first(s, t) < s.len() ==> s[first(s, t)].header().box_type == t, forall|j: int| 0 <= j < first(s, t) ==> (#[trigger] s[j]).header().box_type != t,
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).header().box_type == t && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).header().box_type != t) ==> i == first(s, t)
    decreases s.len()
{
    if s.len() > 0 && s[0].header().box_type != t {
        let u = s.skip(1);
        lemma_first(u, t);
        assert forall|j: int| 0 <= j < first(s, t) implies (#[trigger] s[j]).header().box_type != t by { if j > 0 { assert(u[j - 1] == s[j]); } }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).header().box_type == t && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).header().box_type != t) implies i == first(s, t) by {
            if first(u, t) < u.len() { assert(s[first(u, t) + 1] == u[first(u, t)]); }
            assert(u[i - 1] == s[i]);
            if i > first(s, t) { assert(s[first(s, t)].header().box_type != t); }
            else if i < first(s, t) { assert(u[i - 1].header().box_type != t); }
        }
    }
}
pub open spec fn first_id(s: Seq<ItemLocationEntry>, id: u32) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0].item_id == id { 0 } else { 1 + first_id(s.skip(1), id) } }
pub proof fn lemma_first_id(s: Seq<ItemLocationEntry>, id: u32)
    ensures 0 <= first_id(s, id) <= s.len(), first_id(s, id) < s.len() ==> s[first_id(s, id)].item_id == id, forall|j: int| 0 <= j < first_id(s, id) ==> (#[trigger] s[j]).item_id != id,
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).item_id == id && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).item_id != id) ==> i == first_id(s, id)
    decreases s.len()
{
    if s.len() > 0 && s[0].item_id != id {
        let u = s.skip(1);
        lemma_first_id(u, id);
        assert forall|j: int| 0 <= j < first_id(s, id) implies (#[trigger] s[j]).item_id != id by { if j > 0 { assert(u[j - 1] == s[j]); } }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).item_id == id && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).item_id != id) implies i == first_id(s, id) by {
            if first_id(u, id) < u.len() { assert(s[first_id(u, id) + 1] == u[first_id(u, id)]); }
            assert(u[i - 1] == s[i]);
            if i > first_id(s, id) { assert(s[first_id(s, id)].item_id != id); }
            else if i < first_id(s, id) { assert(u[i - 1].item_id != id); }
        }
    }
}
pub open spec fn first_exif(s: Seq<ItemInfoEntryBox>) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0].is_exif() { 0 } else { 1 + first_exif(s.skip(1)) } }
pub proof fn lemma_first_exif(s: Seq<ItemInfoEntryBox>)
    ensures 0 <= first_exif(s) <= s.len(), first_exif(s) < s.len() ==> s[first_exif(s)].is_exif(), forall|j: int| 0 <= j < first_exif(s) ==> !(#[trigger] s[j]).is_exif(),
        forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).is_exif() && (forall|j: int| 0 <= j < i ==> !(#[trigger] s[j]).is_exif()) ==> i == first_exif(s)
    decreases s.len()
{
    if s.len() > 0 && !s[0].is_exif() {
        let u = s.skip(1);
        lemma_first_exif(u);
        assert forall|j: int| 0 <= j < first_exif(s) implies !(#[trigger] s[j]).is_exif() by { if j > 0 { assert(u[j - 1] == s[j]); } }
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).is_exif() && (forall|j: int| 0 <= j < i ==> !(#[trigger] s[j]).is_exif()) implies i == first_exif(s) by {
            if first_exif(u) < u.len() { assert(s[first_exif(u) + 1] == u[first_exif(u)]); }
            assert(u[i - 1] == s[i]);
            if i > first_exif(s) { assert(!s[first_exif(s)].is_exif()); }
            else if i < first_exif(s) { assert(!u[i - 1].is_exif()); }
        }
    }
}
impl MetaBox {
pub open spec fn iinf(&self) -> Option<ItemInfoBox> { let i = first(self.other_boxes@, BoxType::iinf); if i < self.other_boxes@.len() && self.other_boxes@[i].k() is Iinf { Some(self.other_boxes@[i].k()->Iinf_0) } else { None } }
pub open spec fn iloc(&self) -> Option<ItemLocationBox> { let i = first(self.other_boxes@, BoxType::iloc); if i < self.other_boxes@.len() && self.other_boxes@[i].k() is Iloc { Some(self.other_boxes@[i].k()->Iloc_0) } else { None } }
pub open spec fn iref(&self) -> Option<ItemReferenceBox> { let i = first(self.other_boxes@, BoxType::iref); if i < self.other_boxes@.len() && self.other_boxes@[i].k() is Iref { Some(self.other_boxes@[i].k()->Iref_0) } else { None } }
//# fn src/heif/boxes/meta.rs get_item_info_box in MetaBox -> r
//# spec
    requires self.wf0()
    ensures r is Ok <==> self.iinf() is Some, r matches Ok(x) ==> x.wf0() && self.iinf() == Some(*x)
//# begin
    broadcast use axiom_any;
    proof { lemma_first(self.other_boxes@, BoxType::iinf); }
//# end
//# fn src/heif/boxes/meta.rs get_item_location_box in MetaBox -> r
//# spec
    requires self.wf0()
    ensures r is Ok <==> self.iloc() is Some, r matches Ok(x) ==> x.wf0() && self.iloc() == Some(*x)
//# begin
    broadcast use axiom_any;
    proof { lemma_first(self.other_boxes@, BoxType::iloc); }
//# end
//# fn src/heif/boxes/meta.rs get_item_reference_box in MetaBox -> r
//# spec
    requires self.wf0()
    ensures r is Some <==> self.iref() is Some, r matches Some(x) ==> x.wf0() && self.iref() == Some(*x)
//# begin
    broadcast use axiom_any;
    proof { lemma_first(self.other_boxes@, BoxType::iref); }
//# end
}
impl ItemLocationBox {
pub open spec fn entry(&self, id: u32) -> Option<ItemLocationEntry> { let i = first_id(self.items@, id); if i < self.items@.len() { Some(self.items@[i]) } else { None } }
//# fn src/heif/boxes/item_location.rs get_item_location_entry in ItemLocationBox -> r
//# spec
    ensures r is Ok <==> self.entry(item_id) is Some, r matches Ok(x) ==> self.entry(item_id) == Some(*x)
//# begin
    proof { lemma_first_id(self.items@, item_id); }
//# end
}
impl HeifContainer {
pub open spec fn meta(&self) -> Option<MetaBox> { let i = first(self.boxes@, BoxType::meta); if i < self.boxes@.len() && self.boxes@[i].k() is Meta { Some(self.boxes@[i].k()->Meta_0) } else { None } }
pub open spec fn exif_id(&self) -> Option<u32> { match self.meta() { Some(m) => match m.iinf() { Some(x) => { let i = first_exif(x.items@); if i < x.items@.len() { Some(x.items@[i].item_id) } else { None } }, None => None }, None => None } }
/// where the one extent of an item in the file itself is, and how long
pub open spec fn extent(&self, id: u32) -> Option<(int, int)> { match self.meta() { Some(m) => match m.iloc() { Some(x) => match x.entry(id) { Some(e) => if e.here() && e.extents@.len() == 1 { Some((e.start(0), e.extents@[0].extent_length as int)) } else { None }, None => None }, None => None }, None => None } }
//# fn src/heif/container.rs get_meta_box in HeifContainer -> r
//# spec
    requires all_wf(self.boxes@)
    ensures r is Ok <==> self.meta() is Some, r matches Ok(x) ==> x.wf() && self.meta() == Some(*x)
//# begin
    broadcast use axiom_any;
    proof { lemma_first(self.boxes@, BoxType::meta); }
//# end
//# fn src/heif/container.rs get_item_id_exif_data in HeifContainer -> r
//# spec
    requires all_wf(self.boxes@)
    ensures r is Ok <==> self.exif_id() is Some, r matches Ok(x) ==> self.exif_id() == Some(x)
//# before /if let Some\(item\)/
    proof { lemma_first_exif(meta.iinf()->0.items@); }
//# end
//# fn src/heif/container.rs get_exif_data_pos_and_len in HeifContainer -> r
//# sub /\bsuper::boxes::item_location::/ => //
//# spec
    requires all_wf(self.boxes@)
    ensures r is Ok <==> self.extent(exif_item_id) is Some, r matches Ok(x) ==> self.extent(exif_item_id) == Some((x.0 as int, x.1 as int))
//# before /let exif_extents/
    proof { lemma_first_id(self.meta()->0.iloc()->0.items@, exif_item_id); assert(exif_item.wf(self.meta()->0.iloc()->0.v(), self.meta()->0.iloc()->0.offset_size, self.meta()->0.iloc()->0.length_size, self.meta()->0.iloc()->0.base_offset_size, self.meta()->0.iloc()->0.index_size)); }
//# end
/// the raw EXIF data: what follows the four bytes of the offset and as many bytes as it states
pub open spec fn exif_data(&self, b: Seq<u8>) -> Option<Seq<u8>> { match self.exif_id() { Some(id) => match self.extent(id) { Some(e) =>
    if e.0 + 4 <= b.len() && e.1 == 4 + num_at(b, e.0) { Some(EXIF_HEADER@) } else if e.0 + 4 <= b.len() && e.0 + e.1 <= b.len() && e.1 > 4 + num_at(b, e.0) { Some(EXIF_HEADER@ + b.subrange(e.0 + 4 + num_at(b, e.0), e.0 + e.1)) } else { None }, None => None }, None => None } }
//# fn src/heif/container.rs get_exif_data in HeifContainer -> r
//# spec
    requires all_wf(self.boxes@), old(cursor).bytes().len() <= maxbuf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(v) ==> self.exif_data(old(cursor).bytes()) == Some(v@), old(cursor).faultless() && r is Err ==> self.exif_data(old(cursor).bytes()) is None
//# before /cursor\.seek\(std::io::SeekFrom::Current\(exif_tiff_header_offset/
    proof { lemma_num(exif_tiff_header_offset as u32, cursor.bytes(), start as int); }
//# before /let mut full_exif_data/
    proof { if exif_length > 0 { assert(exif_buffer@ =~= cursor.bytes().subrange(start + 4 + exif_tiff_header_offset, start + length)); } else { assert(EXIF_HEADER@ + exif_buffer@ =~= EXIF_HEADER@); } }
//# before /return Ok\(full_exif_data\)/
    proof { if exif_length > 0 { assert(full_exif_data@ =~= EXIF_HEADER@ + old(cursor).bytes().subrange(start + 4 + exif_tiff_header_offset, start + length)); } }
//# end
}
//# fn src/heif/mod.rs generic_read_metadata as heif_read -> r
//# spec
    requires 0 <= old(cursor).pos() <= old(cursor).bytes().len() <= maxbuf()
    ensures kept(old(cursor), final(cursor)), r matches Ok(v) ==> exists|c: HeifContainer| #[trigger] all_wf(c.boxes@) && c.ser() == old(cursor).bytes().skip(old(cursor).pos()) && c.exif_data(old(cursor).bytes()) == Some(v@)
//# end
