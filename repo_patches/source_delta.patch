From 1cfe6f2f233f677592b31707f9c7372119b082e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 01/17] fix: abbreviate September as "Sep" in the Date header
 (IMF-fixdate)

---
 src/constants.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index e066d0f..6239c2a 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -10,7 +10,7 @@ pub const CRLF: &str = "\r\n";
 pub const B_CRLF: &[u8] = b"\r\n";
 pub const WEEKS: [&str; 7] = ["Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"];
 pub const MONTHS: [&str; 12] = [
-    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sept", "Oct", "Nov", "Dec",
+    "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec",
 ];
 
 // constants for time.rs
-- 
2.43.0


From 16fb3d08062f423255638a80016372da793c87df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 02/17] fix: treat U+001F as a control character in header
 values

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index b308960..a054686 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -438,7 +438,7 @@ deref!(MatchedPath<'a, T>, T, data);
 deref!(PathBuf, Vec<String>, chunks);
 
 pub fn is_ctl(c: char) -> bool {
-    c < '\x1f' || c == '\x7f'
+    c <= '\x1f' || c == '\x7f'
 }
 
 fn get_second<T>(tup: (PathChunk, PathNode<T>)) -> PathNode<T> {
-- 
2.43.0


From be6484a0d5de4cd051ff6a6b8da04d271ccb8284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 03/17] fix: print HTTP version 2.0 as "2.0"

---
 octane_http/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/octane_http/src/lib.rs b/octane_http/src/lib.rs
index 0187819..a9fa5f6 100644
--- a/octane_http/src/lib.rs
+++ b/octane_http/src/lib.rs
@@ -43,7 +43,7 @@ impl ToString for HttpVersion {
             Self::Http11 => "1.1",
             Self::Http10 => "1.0",
             Self::Http09 => "0.9",
-            Self::Http02 => "0.2",
+            Self::Http02 => "2.0",
             _ => "",
         }
         .to_owned()
-- 
2.43.0


From 6ce1afb9dc488336220423d61e1dd6bdccf55264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 04/17] fix: spell application/octet-stream correctly

---
 src/file_handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_handler.rs b/src/file_handler.rs
index e57a2e7..23435c8 100644
--- a/src/file_handler.rs
+++ b/src/file_handler.rs
@@ -78,7 +78,7 @@ impl FileHandler {
             "abw" => "application/x-abiword",
             "arc" => "application/x-freearc",
             "azw" => "application/vnd.amazon.ebook",
-            "bin" => "applcation/octet-stream",
+            "bin" => "application/octet-stream",
             "bz" => "application/x-bzip",
             "bz2" => "application/x-bzip2",
             "csh" => "application/x-csh",
-- 
2.43.0


From c0cbef8bf78282fae15a0a74d8243541beb80819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 05/17] fix: with_ssl_config keeps the port of the given Ssl
 config

---
 src/config.rs | 3 +--
 src/server.rs | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index c961d2e..aff153c 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -250,8 +250,7 @@ impl Config for OctaneConfig {
     }
 
     fn with_ssl_config(&mut self, ssl_conf: Ssl) {
-        self.ssl.key = ssl_conf.key;
-        self.ssl.cert = ssl_conf.cert;
+        self.ssl = ssl_conf;
     }
     fn ssl(&mut self, port: u16) -> &mut Ssl {
         self.ssl.port = port;
diff --git a/src/server.rs b/src/server.rs
index 7fb9528..7e9fb9d 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -262,8 +262,7 @@ impl Config for Octane {
         self.settings.keep_alive = Some(duration);
     }
     fn with_ssl_config(&mut self, ssl_conf: Ssl) {
-        self.settings.ssl.key = ssl_conf.key;
-        self.settings.ssl.cert = ssl_conf.cert;
+        self.settings.ssl = ssl_conf;
     }
     fn ssl(&mut self, port: u16) -> &mut Ssl {
         self.settings.ssl.port = port;
-- 
2.43.0


From edb5f2205a50d8d89611d9e2f0dc0feeea47d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 06/17] fix: terminate every Set-Cookie line with CRLF

---
 src/responder.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/responder.rs b/src/responder.rs
index 851bf8c..49a2385 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -501,14 +501,9 @@ impl<'a> Response<'a> {
             .for_each(|data| headers_str.push_str(&format!("{}:{}{}{}", data.0, SP, data.1, CRLF)));
         // push cookies
         #[cfg(feature = "cookies")]
-        headers_str.push_str(
-            &self
-                .cookies
-                .iter()
-                .map(|cookie| cookie.serialise())
-                .collect::<Vec<String>>()
-                .join(CRLF),
-        );
+        self.cookies
+            .iter()
+            .for_each(|cookie| headers_str.push_str(&format!("{}{}", cookie.serialise(), CRLF)));
         headers_str
     }
 }
-- 
2.43.0


From fcb70d2d941954c328136b9dfa3f983331579119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 07/17] fix: send_file announces the length of the file in
 Content-Length

---
 src/responder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/responder.rs b/src/responder.rs
index 49a2385..02483a7 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -227,6 +227,7 @@ impl<'a> Response<'a> {
         let len = file.meta.len() as usize;
         self.content_len = Some(len);
         self.body = ResBody::Sized(len, Box::new(file.file) as BoxReader);
+        self.default_headers();
         Ok(Some(()))
     }
 
-- 
2.43.0


From df2cf3ece2f30cc4c30245577965c12116b73a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 08/17] fix: AsyncReader reports the bytes it read

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 9fadf91..3cf3608 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -64,7 +64,8 @@ impl<T: Read + Unpin> Deref for AsyncReader<T> {
 
 impl<T: Read + Unpin> AsyncRead for AsyncReader<T> {
     fn poll_read(mut self: Pin<&mut Self>, _: &mut Context, buf: &mut ReadBuf) -> Poll<Result<()>> {
-        self.reader.read(buf.initialized_mut())?;
+        let read = self.reader.read(buf.initialize_unfilled())?;
+        buf.advance(read);
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0


From 3e51361a4a68c22296e8abfa56345b4b2df781d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:49 +0000
Subject: [PATCH 09/17] fix: skip malformed cookies instead of panicking

---
 src/cookie.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cookie.rs b/src/cookie.rs
index 201316e..922b52a 100644
--- a/src/cookie.rs
+++ b/src/cookie.rs
@@ -71,9 +71,9 @@ impl<'a> Cookie<'a> {
         let mut cookies_vec = Vec::new();
         let header_cookies = header.split("; ");
         for tok in header_cookies {
-            cookies_vec.push(Cookie {
-                cookie: CookieRs::parse(tok).unwrap(),
-            });
+            if let Ok(cookie) = CookieRs::parse(tok) {
+                cookies_vec.push(Cookie { cookie });
+            }
         }
         cookies_vec
     }
-- 
2.43.0


From 78ff7d1d698207555f7892542b6c90d3c078ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 10/17] fix: cut the request body at Content-Length

---
 src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index dbbc713..b39b081 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -314,7 +314,7 @@ impl<'a> Request<'a> {
                 body_vec.extend_from_slice(&temp[..]);
                 body = &body_vec[..];
             } else {
-                body = body_remainder;
+                body = &body_remainder[..body_len];
             }
         } else {
             body = &[];
-- 
2.43.0


From c7c502de9d57265de6317527e37a0e771eb8aaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 11/17] fix: refuse a body that ends before Content-Length
 instead of panicking

---
 src/request.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index b39b081..bc8d9fc 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -299,7 +299,7 @@ impl<'a> Request<'a> {
         mut body: &'a [u8],
         body_vec: &'a mut Vec<u8>,
         body_remainder: &'a [u8],
-        mut reader: ReadHalf<T>,
+        reader: ReadHalf<T>,
     ) -> Option<Request<'a>> {
         let body_len = headers
             .get("content-length")
@@ -307,11 +307,12 @@ impl<'a> Request<'a> {
             .unwrap_or(0);
         if body_len > 0 {
             if body_remainder.len() < body_len {
-                let mut temp: Vec<u8> = vec![0; body_len - body_remainder.len()];
-                reader.read_exact(&mut temp[..]).await.ok().unwrap();
-                *body_vec = Vec::with_capacity(body_len);
+                let missing = body_len - body_remainder.len();
                 body_vec.extend_from_slice(body_remainder);
-                body_vec.extend_from_slice(&temp[..]);
+                let read = reader.take(missing as u64).read_to_end(body_vec).await;
+                if read.ok()? < missing {
+                    return None;
+                }
                 body = &body_vec[..];
             } else {
                 body = &body_remainder[..body_len];
-- 
2.43.0


From a9ce4f96d64f070cc24d28d3af467f3ed7717005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 12/17] fix: reject a malformed request line instead of
 panicking

---
 src/request.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index bc8d9fc..720df54 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -87,11 +87,11 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = match PathBuf::parse(toks.next()?) {
-            Ok(val) => val,
-            Err(e) => panic!("{:?}", e),
-        };
+        let path = PathBuf::parse(toks.next()?).ok()?;
         let version = toks.next()?;
+        if !version.is_char_boundary(5) {
+            return None;
+        }
         let (first, ver) = version.split_at(5);
         let enum_ver = match ver {
             "1.1" => HttpVersion::Http11,
-- 
2.43.0


From b047706fadcb3e5f85a7cf97fe004aa3be66f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 13/17] fix: separate the query string from the path of a
 request

---
 src/request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 720df54..b9fd395 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -77,6 +77,8 @@ pub struct RequestLine {
     pub method: RequestMethod,
     /// The path of the request
     pub path: PathBuf,
+    /// The query of the request, which is the part of the target after the `?`
+    pub query: String,
     /// Http version of the request
     pub version: HttpVersion,
 }
@@ -87,7 +89,9 @@ impl RequestLine {
     pub(crate) fn parse(request_line: &str) -> Option<Self> {
         let mut toks = request_line.split(SP);
         let method = toks.next()?;
-        let path = PathBuf::parse(toks.next()?).ok()?;
+        let mut target = toks.next()?.splitn(2, '?');
+        let path = PathBuf::parse(target.next()?).ok()?;
+        let query = target.next().unwrap_or("").to_owned();
         let version = toks.next()?;
         if !version.is_char_boundary(5) {
             return None;
@@ -119,6 +123,7 @@ impl RequestLine {
         Some(Self {
             method: request_method,
             path,
+            query,
             version: enum_ver,
         })
     }
@@ -337,14 +342,14 @@ impl<'a> Request<'a> {
     /// }));
     /// ```
     pub fn get_query(&self) -> HashMap<String, String> {
-        parse_query(&self.request_line.path.to_string())
+        parse_query(&self.request_line.query)
     }
 
     /// Parse the extended query and return the key value pairs in the form
     /// of an HashMap. See [`QueryValue`](../enum.QueryValue.html)
     #[cfg(feature = "extended_queries")]
     pub fn get_extended_query(&self) -> HashMap<String, QueryValue> {
-        parse_extended_query(&self.request_line.path.to_string())
+        parse_extended_query(&self.request_line.query)
     }
 }
 
-- 
2.43.0


From 8748d9796f1e37bab594b43eba9c67855e8fb45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 14/17] fix: answer 400 to malformed headers or request lines
 instead of panicking

---
 src/server.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 7e9fb9d..ce13035 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -172,8 +172,14 @@ impl Octane {
         let mut data = Vec::new();
         let parsed = Http1xReader::new(RawRequest1x::new(reader), &mut data).await;
         if let Ok((raw_headers, raw_request_line, body_remainder, reader_left)) = parsed {
-            let headers = Headers::parse(raw_headers).unwrap();
-            let request_line = RequestLine::parse(raw_request_line).unwrap();
+            let headers = Headers::parse(raw_headers);
+            let request_line = RequestLine::parse(raw_request_line);
+            let (headers, request_line) = match (headers, request_line) {
+                (Some(headers), Some(request_line)) => (headers, request_line),
+                _ => {
+                    declare_error!(writer, StatusCode::BadRequest);
+                }
+            };
             if let Some(request) = Request::from_raw(
                 &headers,
                 request_line,
-- 
2.43.0


From 456e2ec2e98330f692aee4188b59826131c4a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 15/17] fix: do not panic when reading a request fails

---
 octane_http/src/http1x/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 59703d7..5f63ffd 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -24,7 +24,10 @@ where
         let mut buf: [u8; 512] = [0; 512];
 
         loop {
-            let read = instance.raw_request.reader.read(&mut buf).await.unwrap();
+            let read = match instance.raw_request.reader.read(&mut buf).await {
+                Ok(read) => read,
+                Err(_) => return Err(StatusCode::BadRequest),
+            };
             if read == 0 {
                 return Err(StatusCode::BadRequest);
             }
-- 
2.43.0


From 56fb269900a4a66713ded765cdf0abced4cbd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 16/17] fix: accept requests without header lines

---
 octane_http/src/http1x/mod.rs | 5 ++++-
 src/request.rs                | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/octane_http/src/http1x/mod.rs b/octane_http/src/http1x/mod.rs
index 5f63ffd..554252f 100644
--- a/octane_http/src/http1x/mod.rs
+++ b/octane_http/src/http1x/mod.rs
@@ -76,7 +76,10 @@ pub fn find_in_slice<T: Eq>(haystack: &[T], needle: &[T]) -> Option<usize> {
 
 // Helper function for extracting some headers
 pub(crate) fn parse_without_body(data: &str) -> Option<(&str, String)> {
-    let n = data.find("\r\n")?;
+    let n = match data.find("\r\n") {
+        Some(n) => n,
+        None => return Some((data, String::new())),
+    };
     let (line, rest) = data.split_at(n);
     let request_line = line;
     let headers = (&rest[2..]).to_owned();
diff --git a/src/request.rs b/src/request.rs
index b9fd395..d9c373a 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -209,7 +209,8 @@ pub struct Headers {
 impl Headers {
     /// Parse all the headers on a request
     pub(crate) fn parse(request: String) -> Option<Self> {
-        let toks = Spliterator::new(request.as_bytes(), B_CRLF);
+        let mut toks = Spliterator::new(request.as_bytes(), B_CRLF);
+        toks.finished = request.is_empty();
         let mut headers: HashMap<String, String> = HashMap::new();
         #[cfg(feature = "raw_headers")]
         let mut raw_headers: Vec<Header> = Vec::new();
-- 
2.43.0


From 0463acb07b94220d92e7a04b57bd7e7b5eaa5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 17/17] fix: without url_variables, a path chunk starting with
 a colon is literal

---
 src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/path.rs b/src/path.rs
index a054686..e9bc40d 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -210,7 +210,7 @@ impl<T> PathNode<T> {
         let path_chunks;
         path_chunks = path.clone().chunks;
         for chunk in path_chunks.into_iter() {
-            if chunk.as_bytes()[0] == b':' {
+            if cfg!(feature = "url_variables") && chunk.as_bytes()[0] == b':' {
                 cur = cur
                     .entry(PathChunk::CatchAll)
                     .or_default()
-- 
2.43.0

