// ================= settings (src/config.rs) =================
#[verifier::external_body]
pub struct VxPathBuf { s: String }
impl View for VxPathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxPathBuf {
    #[verifier::external_body] pub fn new() -> (r: VxPathBuf) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn from(s: &str) -> (r: VxPathBuf) ensures r@ == s@ { unimplemented!() }
}
@@struct src/config.rs Ssl
@@struct src/config.rs OctaneConfig
pub open spec fn five_seconds(d: Option<VxDuration>) -> bool { d matches Some(x) && x.nanos() == 5_000_000_000 }
pub open spec fn default_ssl(s: Ssl) -> bool { s.port == 443 && s.key@.len() == 0 && s.cert@.len() == 0 }
/// the settings a user can set
pub open spec fn default_config(c: OctaneConfig) -> bool { five_seconds(c.keep_alive) && default_ssl(c.ssl) }
impl Ssl {
@@fn src/config.rs Ssl::new
@ret r
@spec
    ensures default_ssl(r),
@@end
@@fn expanded:octane Ssl@Default::default vis=none
@ret r
@spec
    ensures default_ssl(r),
@@end
@@fn src/config.rs Ssl::key
@ret r
@params path
@spec
    ensures r.key@ == path@, *r == (Ssl { key: r.key, ..*old(self) }), *final(self) == *final(r),
@@end
@@fn src/config.rs Ssl::cert
@ret r
@params path
@spec
    ensures r.cert@ == path@, *r == (Ssl { cert: r.cert, ..*old(self) }), *final(self) == *final(r),
@@end
}
impl OctaneConfig {
@@fn src/config.rs OctaneConfig::new
@ret r
@spec
    ensures default_config(r),
@@end
@@fn expanded:octane OctaneConfig@Default::default vis=none
@ret r
@spec
    ensures default_config(r),
@@end
@@fn src/config.rs OctaneConfig::append
@params settings
@spec
    ensures final(self).ssl == settings.ssl, final(self).keep_alive == settings.keep_alive,
@@end
@@fn src/config.rs OctaneConfig::worker_threads
@ret r
@params threads
@spec
    ensures r.ssl == old(self).ssl, r.keep_alive == old(self).keep_alive, *final(self) == *final(r),
@@end
@@fn src/config.rs OctaneConfig@Config::set_keepalive
@params duration
@spec
    ensures *final(self) == (OctaneConfig { keep_alive: Some(duration), ..*old(self) }),
@@end
@@fn src/config.rs OctaneConfig@Config::with_ssl_config
@params ssl_conf
@spec
    ensures *final(self) == (OctaneConfig { ssl: ssl_conf, ..*old(self) }),
@@end
@@fn src/config.rs OctaneConfig@Config::ssl
@ret r
@params port
@spec
    ensures *r == (Ssl { port: port, ..old(self).ssl }), *final(self) == (OctaneConfig { ssl: *final(r), ..*old(self) }),
@@end
}
