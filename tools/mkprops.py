#!/usr/bin/env python3
"""Writes properties.jsonl (the texts live here so that they stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Exactly the matching handlers run, in registration order, up to the first stop",
  "For any sequence of route and middleware registrations and any request with a known method, the handlers that run are exactly those whose method is the request's method (or any-method) and whose pattern matches the whole normalised request path (a ':name' segment matches any one segment, every other segment only itself), plus all middlewares, and they run in the order of registration. Running ends after the first handler that returns Stop and continues after every one that returns Next. No handler runs twice and none is skipped, whatever the mixture of methods, literal and variable segments.",
  ["inputs", "histories"], "every registration history (any number and mix of routes and middlewares) and every request",
  "Tests register one to three handlers; order and completeness over three separately stored and merged lists (method, any-method, middleware) and over overlapping literal/variable branches depend on the whole history.",
  ["src/router.rs", "src/path.rs", "src/server.rs", "src/request.rs"],
  [("registration with a running index", "src/router.rs inject_method!, Router::add; src/server.rs Octane::add"),
   ("three-way merge by index", "src/router.rs Router::run"), ("path tree insert / lookup", "src/path.rs PathNode::insert, dfs, get")],
  ["handlers called and their order, seen from inside handlers and in the response"])

p("C02", "URL variables bind the names of a route's own pattern to the request's segments",
  "When a handler runs for a route pattern, the variables it sees are exactly the names of the ':name' segments of that pattern, each bound to the request path segment at the same position (for a repeated name, the last position). No variable of another route or of an earlier handler is visible, and middlewares see none.",
  ["inputs", "histories"], "every pattern, every request path, every set of other routes sharing tree branches",
  "The one test has a single variable in a single route; leaking or mis-associating variables needs several routes that share a variable branch.",
  ["src/path.rs", "src/router.rs", "src/request.rs"],
  [("binding by position", "src/path.rs PathBuf::check_matches, PathNode::get"), ("per-handler replacement", "src/router.rs Router::run")],
  ["variables seen by the handler"])

p("C03", "Appending a router equals registering its routes directly at that point",
  "Registering routes and middlewares on a separate router and appending it to a server behaves for every request exactly as if the same registrations had been made directly on the server, in the same order, at the moment of appending. This holds for any number of appended routers, before, between and after direct registrations.",
  ["histories", "inputs"], "every history of registrations and appends, every request",
  "Tests append one small router to an empty server; order across several appends depends on index arithmetic over the whole history.",
  ["src/router.rs", "src/path.rs", "src/server.rs"],
  [("index shift and merge", "src/router.rs Router::append"), ("tree iteration and extension", "src/path.rs OwnedPathNodeIterator, Extend/FromIterator for PathNode")],
  ["handlers called and their order after with_router"])

p("C04", "Paths are normalised alike for routes and requests and never leave the root",
  "A path is normalised by dropping empty and '.' segments and letting '..' remove the preceding remaining segment; the resulting segments contain no '/', are never empty, '.' or '..', and keep their order and spelling. A path whose '..' would climb above the root is refused: registration of such a route reports an error and a request for it is answered 400. Routes and requests are normalised by the same rule, so a route is reached under every spelling of its path.",
  ["inputs"], "every path string, of any length and content",
  "Tests try a dozen literal paths; containment is a claim over all strings.",
  ["src/path.rs", "src/request.rs", "src/router.rs"],
  [("segment stack", "src/path.rs PathBuf::parse"), ("used for requests", "src/request.rs RequestLine::parse"), ("used for routes", "src/router.rs inject_method!")],
  ["path segments seen by handlers", "result of registration", "status of the response"])

p("C05", "Request lines are accepted and decomposed exactly by the grammar",
  "With default features a request line is accepted if and only if it is METHOD SP TARGET SP VERSION with single spaces, a VERSION that starts with 'HTTP/' and a TARGET whose path part does not climb above the root; the path is the part of the target before the first '?' and the query the part after it. The method is one of the nine HTTP method names spelled in upper case, or else unknown; the version is 1.1, 1.0, 2.0 or 0.9 by exact comparison of what follows 'HTTP/', or else invalid. What handlers see of method, path, query and version is exactly this decomposition.",
  ["inputs", "configurations"], "every request line (any characters), default features",
  "Tests parse a few literal lines; acceptance and exact decomposition quantify over all strings.",
  ["src/request.rs"], [("tokenising and matching", "src/request.rs RequestLine::parse")],
  ["method, path, query and version seen by handlers", "400 for refused lines"])

p("C06", "Header blocks are parsed without loss, merged case-insensitively, refused if bad",
  "With default features every header line must be a non-empty token of HTTP token characters, a ':' and a value without control characters once leading blanks and tabs are removed; a block with any other line is refused as a whole with 400. Accepted headers are all available in order with their original spelling, and by lower-cased name, where the values of lines with the same name are joined by ', ' in order of appearance. A block without header lines is accepted.",
  ["inputs"], "every header block (any lines, any repetition and case mix)",
  "Tests use a handful of literal headers; losslessness, merge order and the exact character classes quantify over all blocks.",
  ["src/request.rs", "src/util.rs", "src/path.rs", "src/constants.rs", "octane_http/src/http1x/mod.rs"],
  [("line splitting", "src/util.rs Spliterator"), ("one line", "src/request.rs Header::parse"), ("merge", "src/request.rs Headers::parse"), ("control characters", "src/path.rs is_ctl"), ("token characters", "src/constants.rs TOKEN_CHARS")],
  ["headers seen by handlers (by name and raw)", "400 for refused blocks"])

p("C07", "Request framing: head and body are recovered exactly, however the bytes arrive",
  "The head of a request ends at the first CRLF CRLF, and its body is exactly the following Content-Length bytes (none if the header is absent or not a number), unaltered. The result is the same for every way of splitting the same bytes into network reads, and bytes after the body do not influence the request. If the stream ends before the head or the body is complete, no handler runs and 400 is answered.",
  ["inputs", "schedules"], "every byte stream and every segmentation of it into reads",
  "Tests send small requests that arrive in one read; boundary cases need reads that split the terminator or the body.",
  ["octane_http/src/http1x/mod.rs", "src/request.rs", "src/server.rs"],
  [("accumulate and search", "octane_http/src/http1x/mod.rs Http1xReader::new, find_in_slice, parse_without_body"), ("body completion", "src/request.rs Request::from_raw")],
  ["request line, headers and body seen by handlers", "400 for truncated requests"])

p("C08", "Query strings parse to exactly the name/value pairs they spell",
  "The query of a request is split at every '&', and each part at its first '='; name and value are percent-decoded after splitting, a part without '=' gives an empty value, the last of several equal names wins, and no other entries exist. With default features empty parts and parts with an empty name before '=' are ignored. The query is everything after the first '?' of the target and never part of the path.",
  ["inputs"], "every query string", "Tests parse fixed strings; the claim is about every string and the order of splitting and decoding.",
  ["src/query.rs", "src/request.rs"], [("splitting and insertion", "src/query.rs parse_query"), ("query extraction", "src/request.rs RequestLine::parse, Request::get_query")],
  ["get_query() seen by handlers"])

p("C09", "Percent-decoding decodes exactly the valid escapes and nothing else",
  "Decoding replaces every '%' that is followed by two ASCII hexadecimal digits by the character with that code (0 to 255), scanning from left to right, and leaves every other character unchanged and in order, including '%' signs that start no valid escape. Decoded text is not decoded again.",
  ["inputs"], "every string", "Tests decode a few strings; look-ahead over incomplete and adjacent escapes at every position is not sampled.",
  ["src/query.rs"], [("two-character look-ahead", "src/query.rs unescape_hex, DoublePeek, from_hex")], ["decoded names and values in get_query()"])

p("C10", "Extended queries build exactly the scalars, arrays and objects they spell",
  "With extended queries, parts are processed from left to right: 'name[]=v' appends v to the array 'name', 'name[key]=v' sets key of the object 'name' (brackets taken from the last '[' and a final ']'), any other 'name=v' sets the scalar; a part without '=' sets an empty scalar and empty parts or names are ignored. An array or object part whose name already holds a value of another kind is ignored and leaves that value unchanged; a scalar part replaces it. Values and scalar names are percent-decoded, array and object names and keys are taken literally.",
  ["inputs", "histories"], "every extended query string", "Tests cover a few fixed strings; the outcome depends on the whole sequence of kinds per name.",
  ["src/query.rs"], [("kind dispatch", "src/query.rs parse_extended_query")], ["get_extended_query() seen by handlers"])

p("C11", "The Date header is the IMF-fixdate of the current time",
  "For every second from 1970-01-01 to 9999-12-31 the Date header written at that time is exactly the IMF-fixdate of RFC 7231 (three-letter English day and month names, two-digit day, hour, minute and second, four-digit year, GMT) of the proleptic Gregorian calendar date and time of day. Day of the week, leap years and century rules are all those of that calendar.",
  ["inputs"], "every second of 8030 years", "Tests check three time stamps; leap-year, century and month-end rules need the whole range.",
  ["src/time.rs", "src/constants.rs", "src/responder.rs"], [("civil date from seconds", "src/time.rs Time::time"), ("formatting", "src/time.rs Time::format, pad_zero, week_day, month_day"), ("tables", "src/constants.rs")],
  ["Date header of responses"])

p("C12", "Responses are serialised as a well-formed HTTP/1.x head with each header once",
  "The serialised head is the status line 'HTTP/<version> <code> <PHRASE>' (version 1.1 unless set otherwise, phrase in upper case), then one 'name: value' line for every header that is set, with the value set last, then one Set-Cookie line per cookie in the order they were added, each line ended by CRLF, then one empty line, for header names, values and cookies free of control characters. The bytes after it are exactly the body, and the server sends nothing else on the connection.",
  ["inputs", "histories"], "every sequence of response operations by handlers", "Tests compare a few fields after one operation; completeness and absence of extra bytes quantify over all operation sequences.",
  ["src/responder.rs", "src/cookie.rs", "src/server.rs", "octane_http/src/lib.rs"],
  [("serialisation", "src/responder.rs status_line, headers, get_data"), ("mutators", "src/responder.rs set, with_type, status, http_version, redirect, attachment, cookie"), ("writing", "src/server.rs Octane::send")],
  ["bytes on the wire; get_data()"])

p("C13", "Content-Length always equals the number of body bytes sent",
  "Every response the server sends carries exactly one Content-Length header, whose decimal value is the number of body bytes that follow the head. This holds for handler responses with any body (text, bytes, empty, files), after any number of repeated sends, and for the server's own error pages, unless a handler writes that header or the length field itself.",
  ["inputs", "histories"], "every body and every sequence of send operations", "Tests check a few bodies; repeated sends and files change body and length through different paths.",
  ["src/responder.rs", "src/error.rs", "src/file_handler.rs", "src/server.rs"],
  [("length bookkeeping", "src/responder.rs send, send_file, default_headers, new_from_slice")], ["Content-Length header against bytes received"])

p("C14", "Files are served whole, unaltered and with the media type of their extension",
  "Sending a regular file makes the response body exactly the file's bytes, however the body is read, with the Content-Type of its extension: the documented type for every known extension, compared without regard to case, and text/plain for every other or missing extension. Sending a missing file or something that is not a regular file reports an error and leaves the response's body and length as they were.",
  ["inputs"], "every file content and size, every extension, every reader buffer size", "Tests send one html file; contents, read sizes and most extensions are never exercised.",
  ["src/file_handler.rs", "src/util.rs", "src/responder.rs"], [("opening and type table", "src/file_handler.rs handle_file, mime_type, get_extension"), ("reader adapter", "src/util.rs AsyncReader::poll_read"), ("sending", "src/responder.rs send_file")],
  ["body and Content-Type of the response", "error of send_file"])

p("C15", "No bytes from a client can make the server panic or leave it without an answer",
  "Whatever bytes a client sends before ending its side of the stream, handling the connection does not panic and the client receives exactly one complete, well-formed HTTP response. In particular malformed, truncated, oversized or non-UTF-8 requests, odd header values and unusual paths are all answered.",
  ["inputs"], "every finite byte stream from a client", "Tests only send well-formed requests; totality over all byte strings cannot be sampled.",
  ["src/server.rs", "octane_http/src/http1x/mod.rs", "src/request.rs", "src/query.rs", "src/path.rs", "src/cookie.rs", "src/http/mod.rs", "src/error.rs"],
  [("error branches", "src/server.rs Octane::serve, declare_error!"), ("total parsers", "src/request.rs, octane_http/src/http1x/mod.rs")], ["bytes received by the client; panics in the process"])

p("C16", "Each request is answered with the status its validity demands",
  "With default features a malformed request (request line, headers, framing) and an HTTP/1.1 request without a Host header are answered 400, otherwise a request with an unknown method 501, and in both cases no handler runs. Otherwise the matching handlers run, and the client receives their response if any of them provided a body, or 404 if none did. A handler's status, headers and body reach the client unchanged.",
  ["inputs", "histories"], "every request and every set of handlers", "Tests cover 200 and one 404; precedence between the rules needs combinations of version, method, header and handler behaviour.",
  ["src/server.rs", "src/http/mod.rs", "src/http/http11.rs", "src/http/http10.rs", "src/error.rs", "src/responder.rs"],
  [("decision ladder", "src/server.rs Octane::serve"), ("version checks", "src/http/mod.rs Http::validate, http11_check, http10_check"), ("error page", "src/error.rs Error::send")],
  ["status of the response, handlers run"])

p("C17", "Cookies are read from and written to headers one by one and in order",
  "The cookies of a request are exactly the well-formed name=value items of its Cookie header (items separated by '; ', name and value trimmed), in order, with malformed items (no '=' or an empty name) skipped and not affecting the others. Every cookie added to a response appears as one Set-Cookie line with the name, value and attributes it was given, in the order of adding; values surrounded by quotes or containing control characters are outside this property.",
  ["inputs", "histories"], "every Cookie header value, every sequence of cookies added", "Tests parse two cookies and print one; order, skipping and multiplicity are not sampled.",
  ["src/cookie.rs", "src/request.rs", "src/responder.rs"], [("splitting", "src/cookie.rs Cookie::parse"), ("printing", "src/cookie.rs Cookie::serialise, src/responder.rs headers"), ("cookie-rs", "dependency, assumed")],
  ["cookies seen by handlers; Set-Cookie lines"])

p("C18", "Every status code carries its standard number and reason phrase",
  "Each of the named HTTP statuses is sent with its number and reason phrase as listed in the documentation, distinct statuses have distinct numbers, and an application-defined status keeps exactly the number and phrase it was given. The conversions to a number and to text agree with the status line.",
  ["inputs"], "all 61 named statuses and every application-defined one", "Tests look at three statuses; the table and the generated code are otherwise unchecked.",
  ["octane_http/src/lib.rs", "octane_macros/src/status.rs", "octane_macros/src/util.rs", "src/responder.rs"], [("generated table", "octane_http/src/lib.rs status_codes!; octane_macros/src/status.rs")],
  ["status line; Into<i32>; Display"])

p("C19", "Settings in effect are those set last, whether set directly or through a config",
  "After any sequence of configuration calls on a server (keep-alive duration, TLS port, key and certificate paths, replacing the TLS settings as a whole, applying a separately built configuration), each effective setting equals the value given by the last call that concerns it, where applying a configuration concerns all its keep-alive and TLS settings. The defaults are a keep-alive of five seconds, TLS port 443 and empty key and certificate paths, and no call changes a setting it does not concern.",
  ["histories", "configurations"], "every sequence of configuration calls", "Tests set single values; interference between calls needs sequences.",
  ["src/config.rs", "src/server.rs"], [("merge", "src/config.rs OctaneConfig::append"), ("setters", "src/config.rs, src/server.rs impl Config")], ["public settings of the server"])

p("C20", "Concurrent connections are served independently",
  "Any number of simultaneous connections are each answered as if they were alone: no request, variable, header or body of one connection is visible to another, and a slow, silent or failing connection neither delays nor ends the serving of the others.",
  ["schedules", "fault_sequences"], "every interleaving of connections and every failing peer", "Tests send requests one after another.",
  ["src/server_builder.rs", "src/server.rs"], [("one task per connection", "src/server_builder.rs listen")], ["responses of concurrent clients"])

p("C21", "TLS connections behave as plain ones, and only with the configured identity",
  "With a TLS feature enabled, every request over TLS gets the same response as over a plain connection, using the configured certificate and key, and a failed handshake affects no other connection.",
  ["inputs", "configurations"], "every request and every TLS configuration", "Tests make one request per TLS library.",
  ["src/tls", "src/server_builder.rs"], [("acceptors", "src/tls/rustls.rs, src/tls/openssl.rs")], ["responses over TLS"])

p("C22", "The entry-point and JSON macros expand to code with the meaning of their input",
  "The main attribute runs the annotated function to completion on a runtime, and the JSON derive macro accepts exactly the values its type can represent and converts them field by field.",
  ["programs"], "every annotated program", "Tests expand a handful of types.",
  ["octane_macros/src/lib.rs", "octane_macros/src/json.rs"], [("expansion", "octane_macros/src")], ["behaviour of the expanded program"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
