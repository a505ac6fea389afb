#![allow(dead_code)]
use octane::prelude::*;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type Log = Arc<Mutex<Vec<String>>>;
pub fn log() -> Log {
    Arc::new(Mutex::new(vec![]))
}
pub fn take(l: &Log) -> Vec<String> {
    std::mem::take(&mut *l.lock().unwrap())
}

thread_local!(pub static FAKE: std::cell::Cell<i64> = std::cell::Cell::new(-1));
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        let f = FAKE.try_with(|f| f.get()).unwrap_or(-1);
        if f >= 0 {
            (*ts).tv_sec = f;
            (*ts).tv_nsec = 0;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Serve `mk()` on a free port of the loopback network.
pub fn serve(mk: impl Fn() -> Octane) -> u16 {
    for k in 0..200u32 {
        let port = 20000 + ((std::process::id() * 37 + k * 101) % 20000) as u16;
        if std::net::TcpListener::bind(("0.0.0.0", port)).is_err() {
            continue;
        }
        let app = mk();
        std::thread::spawn(move || {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            let _ = rt.block_on(app.listen(port, || ()));
        });
        for _ in 0..500 {
            if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                return port;
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    panic!("no server");
}
/// Send the pieces 60 ms apart, end the stream, return everything received.
pub fn raw(port: u16, pieces: &[&[u8]]) -> Vec<u8> {
    let mut c = TcpStream::connect(("127.0.0.1", port)).unwrap();
    c.set_nodelay(true).unwrap();
    c.set_read_timeout(Some(Duration::from_secs(20))).unwrap();
    for (i, p) in pieces.iter().enumerate() {
        if i > 0 {
            std::thread::sleep(Duration::from_millis(60));
        }
        if c.write_all(p).is_err() {
            break;
        }
    }
    let _ = c.shutdown(Shutdown::Write);
    let mut b = vec![];
    let _ = c.read_to_end(&mut b);
    b
}
pub fn req(port: u16, s: &str) -> String {
    String::from_utf8_lossy(&raw(port, &[s.as_bytes()])).into_owned()
}
pub fn get(port: u16, target: &str) -> String {
    req(port, &format!("GET {} HTTP/1.1\r\nHost: h\r\n\r\n", target))
}
pub fn status(r: &str) -> u32 {
    r.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0)
}
pub fn body(r: &str) -> String {
    r.splitn(2, "\r\n\r\n").nth(1).unwrap_or("").to_string()
}
pub fn header(r: &str, name: &str) -> Vec<String> {
    r.split("\r\n\r\n").next().unwrap_or("").split("\r\n").skip(1)
        .filter_map(|l| l.split_once(": ")).filter(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.to_string()).collect()
}
/// A route that writes its name to the log, answers with it and continues.
pub fn mark(l: &Log, name: &'static str) -> octane::router::Closure {
    let l = l.clone();
    Box::new(move |_req, res| {
        l.lock().unwrap().push(name.to_string());
        res.send(name);
        Flow::Next
    })
}
/// An application whose only middleware answers with the text `f` makes of the request.
pub fn echo(f: fn(&octane::request::MatchedRequest) -> String) -> u16 {
    serve(move || {
        let mut app = Octane::new();
        app.add(Box::new(move |req, res| {
            res.send(f(req));
            Flow::Stop
        }))
        .unwrap();
        app
    })
}
pub fn ask(cond: bool, what: &str) {
    if !cond {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
