/// String and &str, as the bytes they consist of
pub struct VxString { pub b: Vec<u8> }
/// which byte strings are text
pub uninterp spec fn utf8(s: Seq<u8>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_ascii(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] < 0x80,
    ensures #[trigger] utf8(s) {}
impl VxString {
    #[verifier::external_body]
    pub fn from_utf8(b: Vec<u8>) -> (r: Result<VxString, ()>) ensures r is Ok <==> utf8(b@), r matches Ok(s) ==> s.b@ == b@ { unimplemented!() }
    pub fn from(x: VxString) -> (r: VxString) ensures r == x { x }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: VxString) ensures r.b@ == self.b@ { unimplemented!() }
    pub fn vx_to_string(&self) -> (r: VxString) ensures r.b@ == self.b@ { self.clone() }
    pub fn as_str(&self) -> (r: &VxString) ensures r.b@ == self.b@ { self }
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: Vec<u8>) ensures r@ == self.b@ { unimplemented!() }
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { self.b.as_slice() }
    pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { self.b.len() }
    pub fn is_lit4(&self, a: u8, b: u8, c: u8, d: u8) -> (r: bool) ensures r == (self.b@ == seq![a, b, c, d]) {
        let r = self.b.len() == 4 && self.b[0] == a && self.b[1] == b && self.b[2] == c && self.b[3] == d;
        proof { if r { assert(self.b@ =~= seq![a, b, c, d]); } }
        r
    }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for VxString {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &VxString) -> bool { self.b@ == other.b@ }
}
impl PartialEq for VxString {
    #[verifier::external_body]
    fn eq(&self, other: &VxString) -> (r: bool) { unimplemented!() }
}
pub fn vx_lit4(a: u8, b: u8, c: u8, d: u8) -> (r: VxString) ensures r.b@ == seq![a, b, c, d]
{ let v = vec![a, b, c, d]; assert(v@ =~= seq![a, b, c, d]); VxString { b: v } }
