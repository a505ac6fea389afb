use crate::core::*;
use crate::gen::*;
use crate::net::*;
use crate::spec::{self, Outcome, FULL};
use octane::prelude::*;
use std::collections::BTreeMap;

pub mod dispatch_props;
pub mod request_props;
pub mod response_props;

pub fn dispatch(p: &str, run: &mut Run) -> bool {
    match p {
        "C01" => dispatch_props::c01(run),
        "C02" => dispatch_props::c02(run),
        "C03" => dispatch_props::c03(run),
        "C04" => request_props::c04(run),
        "C05" => request_props::c05(run),
        "C06" => request_props::c06(run),
        "C07" => request_props::c07(run),
        "C08" => request_props::c08(run),
        "C09" => request_props::c09(run),
        "C10" => request_props::c10(run),
        "C11" => response_props::c11(run),
        "C12" => response_props::c12(run),
        "C13" => response_props::c13(run),
        "C14" => response_props::c14(run),
        "C15" => request_props::c15(run),
        "C16" => request_props::c16(run),
        "C17" => request_props::c17(run),
        "C18" => response_props::c18(run),
        "C19" => response_props::c19(run),
        _ => return false,
    }
    true
}

/// The application used to look at parsed requests: one middleware that records what it saw.
pub fn sink_app(log: &Log) -> Octane {
    let mut app = Octane::new();
    let log = log.clone();
    app.add(Box::new(move |req, res| {
        log.lock().unwrap().push(ev_of(0, req));
        res.send("ok");
        Flow::Stop
    }))
    .unwrap();
    app
}
pub fn sink(w: &mut Worker) -> Srv {
    w.server("sink", &sink_app)
}

pub fn fail(input: &[u8], expected: String, got: String) -> Out {
    Out::Fail { input: show(input), expected, got }
}

/// Status of the reply, or why there is none.
pub fn status_of(r: &Reply) -> Result<Resp, String> {
    if r.timeout {
        return Err("no complete response within 20 s, connection still open".into());
    }
    if r.bytes.is_empty() {
        return Err(format!("connection closed without a response{}; panics: {:?}", if r.reset { " (reset)" } else { "" }, r.panics));
    }
    parse_resp(&r.bytes).map_err(|e| format!("malformed response ({}): {}", e, show(&r.bytes)))
}

/// The environment may drop a response when the server closes with unread input (TCP reset).
pub fn undecidable(r: &Reply) -> bool {
    r.reset && r.panics.is_empty()
}
