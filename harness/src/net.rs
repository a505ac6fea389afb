use octane::prelude::*;
use octane::request::MatchedRequest;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::atomic::{AtomicU16, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What a handler saw.
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub struct Ev {
    pub id: usize,
    pub method: String,
    pub version: String,
    pub chunks: Vec<String>,
    pub headers: BTreeMap<String, String>,
    pub raw: Option<Vec<(String, String)>>,
    pub body: Vec<u8>,
    pub query: BTreeMap<String, String>,
    pub ext: Option<BTreeMap<String, Qv>>,
    pub cookies: Option<Vec<(String, String)>>,
    pub vars: Option<BTreeMap<String, String>>,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Qv {
    Str(String),
    Arr(Vec<String>),
    Obj(BTreeMap<String, String>),
}

pub type Log = Arc<Mutex<Vec<Ev>>>;

pub fn ev_of(id: usize, req: &MatchedRequest) -> Ev {
    Ev {
        id,
        method: format!("{:?}", req.request_line.method),
        version: format!("{:?}", req.request_line.version),
        chunks: req.request_line.path.chunks.clone(),
        headers: req.headers.parsed.iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
        #[cfg(feature = "full")]
        raw: Some(req.headers.raw.iter().map(|h| (h.name(), h.value())).collect()),
        #[cfg(not(feature = "full"))]
        raw: None,
        body: req.body.to_vec(),
        query: req.get_query().into_iter().collect(),
        #[cfg(feature = "full")]
        ext: Some(
            req.get_extended_query()
                .into_iter()
                .map(|(k, v)| {
                    (
                        k,
                        match v {
                            octane::QueryValue::Str(s) => Qv::Str(s),
                            octane::QueryValue::Arr(s) => Qv::Arr(s),
                            octane::QueryValue::Obj(s) => Qv::Obj(s.into_iter().collect()),
                        },
                    )
                })
                .collect(),
        ),
        #[cfg(not(feature = "full"))]
        ext: None,
        #[cfg(feature = "full")]
        cookies: Some(req.cookies.iter().map(|c| (c.name().to_string(), c.value().to_string())).collect()),
        #[cfg(not(feature = "full"))]
        cookies: None,
        #[cfg(feature = "full")]
        vars: Some(req.vars.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect()),
        #[cfg(not(feature = "full"))]
        vars: None,
    }
}

#[derive(Clone)]
pub struct Srv {
    pub port: u16,
    pub log: Log,
    _stop: Arc<StopHandle>,
    _claim: Arc<std::os::unix::net::UnixDatagram>,
}

/// Ends the server's thread (and closes its socket) when the last handle goes away.
#[derive(Default)]
pub struct StopState {
    flag: std::sync::atomic::AtomicBool,
    waker: Mutex<Option<std::task::Waker>>,
}
pub struct StopHandle(Arc<StopState>);
impl Drop for StopHandle {
    fn drop(&mut self) {
        self.0.flag.store(true, Ordering::SeqCst);
        if let Some(w) = self.0.waker.lock().unwrap().take() {
            w.wake();
        }
    }
}
struct Race<F> {
    inner: std::pin::Pin<Box<F>>,
    stop: Arc<StopState>,
}
impl<F: std::future::Future> std::future::Future for Race<F> {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        *self.stop.waker.lock().unwrap() = Some(cx.waker().clone());
        if self.stop.flag.load(Ordering::SeqCst) {
            return std::task::Poll::Ready(());
        }
        self.inner.as_mut().poll(cx).map(|_| ())
    }
}

static NEXT_PORT: AtomicU16 = AtomicU16::new(0);

fn next_port() -> u16 {
    let base = 10240 + (std::process::id() as u64 * 131 % 16000) as u16;
    let k = NEXT_PORT.fetch_add(1, Ordering::SeqCst);
    10240 + ((base as u32 - 10240 + k as u32) % 20000) as u16
}

fn claim(port: u16) -> Option<std::os::unix::net::UnixDatagram> {
    use std::os::linux::net::SocketAddrExt;
    let a = std::os::unix::net::SocketAddr::from_abstract_name(format!("vh-port-{}", port)).ok()?;
    std::os::unix::net::UnixDatagram::bind_addr(&a).ok()
}

/// Start a server on its own thread; `mk` builds the application (again if the port was taken).
pub fn start(mk: &dyn Fn(&Log) -> Octane) -> Srv {
    for _ in 0..200 {
        let port = next_port();
        // another run of this harness on the same network may be about to take the port: claim it by name
        let claim = match claim(port) {
            Some(c) => c,
            None => continue,
        };
        // a port somebody else uses: try the next one
        if std::net::TcpListener::bind(("0.0.0.0", port)).is_err() {
            continue;
        }
        let log: Log = Arc::new(Mutex::new(vec![]));
        let app = mk(&log);
        let stop = Arc::new(StopState::default());
        let stop2 = stop.clone();
        let handle = Arc::new(StopHandle(stop));
        let h = std::thread::Builder::new()
            .name("server".into())
            .stack_size(4 << 20)
            .spawn(move || {
                let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
                rt.block_on(Race { inner: Box::pin(app.listen(port, || ())), stop: stop2 });
            })
            .unwrap();
        for _ in 0..2000 {
            if h.is_finished() {
                break;
            }
            if let Ok(s) = TcpStream::connect(("127.0.0.1", port)) {
                // a first exchange so that the probe is finished before the server is used
                drop(s);
                std::thread::sleep(Duration::from_millis(1));
                log.lock().unwrap().clear();
                return Srv { port, log, _stop: handle, _claim: Arc::new(claim) };
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    panic!("vh-skip: could not start a server");
}

pub struct Worker {
    pub id: usize,
    pub servers: HashMap<String, Srv>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Reply {
    pub bytes: Vec<u8>,
    pub reset: bool,
    pub timeout: bool,
    pub events: Vec<Ev>,
    pub panics: Vec<String>,
}

static CONN: AtomicUsize = AtomicUsize::new(0);

impl Worker {
    pub fn new(id: usize) -> Worker {
        Worker { id, servers: HashMap::new() }
    }
    pub fn server(&mut self, name: &str, mk: &dyn Fn(&Log) -> Octane) -> Srv {
        if let Some(s) = self.servers.get(name) {
            return s.clone();
        }
        let s = start(mk);
        self.servers.insert(name.to_string(), s.clone());
        s
    }
}

/// One connection: send the pieces (sleeping `us` microseconds before each but the first),
/// optionally close the sending side, read until the server closes.
pub fn exchange(s: &Srv, pieces: &[(&[u8], u64)], close: bool) -> Reply {
    let mut last = None;
    for attempt in 0..3 {
        s.log.lock().unwrap().clear();
        let r = exchange1(s, pieces, close, if attempt == 0 { 8 } else { 20 });
        match r {
            Ok(r) => {
                if r.timeout || r.reset {
                    last = Some(r);
                    continue;
                }
                return r;
            }
            Err(e) => {
                if std::env::var("VH_DEBUG").is_ok() {
                    eprintln!("io: {}", e);
                }
                std::thread::sleep(Duration::from_millis(50));
            }
        }
    }
    match last {
        Some(r) => r,
        None => panic!("vh-skip: cannot reach the server"),
    }
}

fn exchange1(s: &Srv, pieces: &[(&[u8], u64)], close: bool, tmo: u64) -> std::io::Result<Reply> {
    let k = CONN.fetch_add(1, Ordering::SeqCst);
    let ip = std::net::Ipv4Addr::new(127, 0, (k / 200 % 200) as u8 + 1, (k % 200) as u8 + 1);
    let mut c = TcpStream::connect((ip, s.port))?;
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(Duration::from_secs(tmo)))?;
    c.set_write_timeout(Some(Duration::from_secs(tmo)))?;
    let mut reset = false;
    for (i, (p, us)) in pieces.iter().enumerate() {
        if i > 0 && *us > 0 {
            std::thread::sleep(Duration::from_micros(*us));
        }
        if !p.is_empty() {
            if let Err(_) = c.write_all(p) {
                break; // the server may answer (and close) before it has read everything
            }
        }
    }
    if close {
        let _ = c.shutdown(Shutdown::Write);
    }
    let mut bytes = vec![];
    let mut timeout = false;
    let mut buf = [0u8; 16384];
    loop {
        match c.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => bytes.extend_from_slice(&buf[..n]),
            Err(e) => {
                match e.kind() {
                    std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut => timeout = true,
                    std::io::ErrorKind::Interrupted => continue,
                    _ => reset = true,
                }
                break;
            }
        }
    }
    let events = std::mem::take(&mut *s.log.lock().unwrap());
    let panics = if bytes.is_empty() { crate::core::take_panics() } else { vec![] };
    Ok(Reply { bytes, reset, timeout, events, panics })
}

/// A response split by the rules of the protocol (strictly).
#[derive(Debug, Clone, PartialEq)]
pub struct Resp {
    pub version: String,
    pub code: u32,
    pub phrase: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Resp {
    pub fn get(&self, k: &str) -> Vec<&str> {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(k)).map(|h| h.1.as_str()).collect()
    }
}
pub fn parse_resp(b: &[u8]) -> Result<Resp, String> {
    let i = b.windows(4).position(|w| w == b"\r\n\r\n").ok_or("no blank line ends the header block")?;
    let head = std::str::from_utf8(&b[..i]).map_err(|_| "head is not UTF-8")?;
    let mut lines = head.split("\r\n");
    let sl = lines.next().unwrap();
    let mut t = sl.splitn(3, ' ');
    let v = t.next().unwrap_or("");
    let version = v.strip_prefix("HTTP/").ok_or("status line does not start with HTTP/")?.to_string();
    let cs = t.next().ok_or("no status code")?;
    if cs.len() != 3 || !cs.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("bad status code {:?}", cs));
    }
    let phrase = t.next().ok_or("no reason phrase")?.to_string();
    let mut headers = vec![];
    for l in lines {
        let (k, v) = l.split_once(": ").ok_or(format!("bad header line {:?}", l))?;
        headers.push((k.to_string(), v.to_string()));
    }
    Ok(Resp { version, code: cs.parse().unwrap(), phrase, headers, body: b[i + 4..].to_vec() })
}
