//! Stand-in for the one git dependency that cannot be fetched offline: only what main.rs uses.
use candid::{CandidType, Deserialize};
use serde_bytes::ByteBuf;
#[derive(Clone, Debug, CandidType, Deserialize)]
pub struct HttpRequest { pub method: String, pub url: String, pub headers: Vec<(String, String)>, pub body: ByteBuf }
impl HttpRequest {
    pub fn path(&self) -> &str { match self.url.find('?') { None => &self.url, Some(i) => &self.url[..i] } }
}
#[derive(Clone, Debug, CandidType, Deserialize)]
pub struct HttpResponse { pub status_code: u16, pub headers: Vec<(String, String)>, pub body: ByteBuf }
pub struct HttpResponseBuilder(HttpResponse);
impl HttpResponseBuilder {
    fn new(c: u16, b: Vec<u8>) -> Self { Self(HttpResponse { status_code: c, headers: vec![], body: ByteBuf::from(b) }) }
    pub fn ok() -> Self { Self::new(200, vec![]) }
    pub fn not_found() -> Self { Self::new(404, b"not found".to_vec()) }
    pub fn server_error(s: impl ToString) -> Self { Self::new(500, s.to_string().into_bytes()) }
    pub fn header(mut self, a: impl ToString, b: impl ToString) -> Self { self.0.headers.push((a.to_string(), b.to_string())); self }
    pub fn body(mut self, b: impl Into<Vec<u8>>) -> Self { self.0.body = ByteBuf::from(b.into()); self }
    pub fn with_body_and_content_length(self, b: impl Into<Vec<u8>>) -> Self { let b = b.into(); let n = b.len(); self.body(b).header("Content-Length", n) }
    pub fn build(self) -> HttpResponse { self.0 }
}
