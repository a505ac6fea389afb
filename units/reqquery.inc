// ================= the query of a request (src/request.rs) =================
impl<'a> Request<'a> {
@@fn src/request.rs Request::get_query
@props C08
@ret r
@spec
    ensures sv(r@) == plain_query(self.request_line.query@),
@@end
@@fn src/request.rs Request::get_extended_query
@props C10
@ret r
@spec
    ensures qs(r@) == ext_query(self.request_line.query@),
@@end
}
/// C08: a request line spells its query: what follows the first '?' of the target
pub proof fn query_spelled(l: RequestLine, line: Seq<char>)
    requires l.says(line), line_ok(line),
    ensures plain_query(l.query@) == plain_query(target_query(split_on(line, ' ')[1])), ext_query(l.query@) == ext_query(target_query(split_on(line, ' ')[1])),
{ }
