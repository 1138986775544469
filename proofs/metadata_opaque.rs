/// the encoder of the metadata itself is decided by P12/P13; here it is any function of the metadata
#[verifier::external_body]
pub struct Metadata { x: u8 }
impl Metadata {
    pub uninterp spec fn encoding(&self) -> Option<Seq<u8>>;
    #[verifier::external_body]
    pub fn encode(&self) -> (r: Result<Vec<u8>, io::Error>)
        ensures r is Ok <==> self.encoding() is Some, r matches Ok(v) ==> v@ == self.encoding()->Some_0 && v@.len() <= 0xffff_0000
    { unimplemented!() }
}

