/// std::time::Duration
#[verifier::external_body]
pub struct VxDuration { d: u64 }
impl VxDuration {
    pub uninterp spec fn nanos(&self) -> nat;
    #[verifier::external_body] pub fn new(s: u64, n: u32) -> (r: VxDuration) requires n < 1_000_000_000 ensures r.nanos() == s as nat * 1_000_000_000 + n as nat { unimplemented!() }
    #[verifier::external_body] pub fn from_secs(n: u64) -> (r: VxDuration) ensures r.nanos() == n as nat * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn from_millis(n: u64) -> (r: VxDuration) ensures r.nanos() == n as nat * 1_000_000 { unimplemented!() }
}
