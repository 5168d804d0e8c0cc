//! Simulated `reqwest`: the network seam of the simulator.
//!
//! Requests are handed to a transport function installed by the simulator
//! (`sim::set_transport`). It decides delay, loss, duplication, connection
//! errors and the reply; nothing touches a real socket.
use std::fmt;
use std::time::Duration;

pub use http::header;
pub use http::header::HeaderMap;
pub use http::Method;
pub use http::StatusCode;
pub use http::Version;
pub use url::Url;

pub type Result<T> = std::result::Result<T, Error>;

/// A request as it would go on the wire.
#[derive(Clone, Debug)]
pub struct WireRequest {
    pub method: Method,
    pub url: Url,
    pub headers: HeaderMap,
    pub body: Vec<u8>,
    /// total timeout for this request (connect, send, receive)
    pub timeout: Option<Duration>,
}

#[derive(Clone, Debug)]
pub struct WireResponse {
    pub status: StatusCode,
    pub headers: HeaderMap,
    pub body: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Builder,
    Timeout,
    Connect,
    Request,
    Redirect,
    Status,
    Body,
    Decode,
}

pub mod sim {
    use super::*;
    use std::sync::atomic::{AtomicUsize, Ordering};
    pub type Transport = fn(WireRequest) -> std::result::Result<WireResponse, Kind>;
    static TRANSPORT: AtomicUsize = AtomicUsize::new(0);
    pub fn set_transport(t: Transport) {
        TRANSPORT.store(t as usize, Ordering::SeqCst);
    }
    pub(crate) fn exchange(r: WireRequest) -> std::result::Result<WireResponse, Kind> {
        let t = TRANSPORT.load(Ordering::SeqCst);
        if t == 0 {
            return Err(Kind::Connect);
        }
        let t: Transport = unsafe { std::mem::transmute(t) };
        t(r)
    }
}

pub struct Error {
    kind: Kind,
    url: Option<Url>,
    msg: String,
    status: Option<StatusCode>,
}

impl Error {
    pub(crate) fn new(kind: Kind, url: Option<Url>, msg: String) -> Self {
        Error { kind, url, msg, status: None }
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request | Kind::Timeout | Kind::Connect)
    }
    pub fn is_redirect(&self) -> bool {
        self.kind == Kind::Redirect
    }
    pub fn is_status(&self) -> bool {
        self.kind == Kind::Status
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn status(&self) -> Option<StatusCode> {
        self.status
    }
    pub fn url(&self) -> Option<&Url> {
        self.url.as_ref()
    }
    pub fn without_url(mut self) -> Self {
        self.url = None;
        self
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("reqwest::Error")
            .field("kind", &self.kind)
            .field("url", &self.url.as_ref().map(|u| u.as_str().to_string()))
            .finish()
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self.kind {
            Kind::Builder => write!(f, "builder error")?,
            Kind::Redirect => write!(f, "error following redirect")?,
            Kind::Body => write!(f, "request or response body error")?,
            Kind::Decode => write!(f, "error decoding response body")?,
            Kind::Status => write!(f, "HTTP status error")?,
            _ => write!(f, "error sending request")?,
        }
        if let Some(u) = &self.url {
            write!(f, " for url ({})", u)?;
        }
        if !self.msg.is_empty() {
            write!(f, ": {}", self.msg)?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {}

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        Ok(self)
    }
}
impl<'a> IntoUrl for &'a str {
    fn into_url(self) -> Result<Url> {
        let u = Url::parse(self).map_err(|e| Error::new(Kind::Builder, None, e.to_string()))?;
        if u.has_host() {
            Ok(u)
        } else {
            Err(Error::new(Kind::Builder, Some(u), "URL scheme is not allowed".into()))
        }
    }
}
impl<'a> IntoUrl for &'a String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

pub struct Body(pub(crate) Vec<u8>);
impl From<String> for Body {
    fn from(s: String) -> Self {
        Body(s.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(s: &'static str) -> Self {
        Body(s.as_bytes().to_vec())
    }
}
impl From<Vec<u8>> for Body {
    fn from(s: Vec<u8>) -> Self {
        Body(s)
    }
}
impl From<&'static [u8]> for Body {
    fn from(s: &'static [u8]) -> Self {
        Body(s.to_vec())
    }
}

/// The async client: dd-sds only constructs it.
#[derive(Clone, Debug, Default)]
pub struct Client {}
impl Client {
    pub fn new() -> Self {
        Client {}
    }
}

pub mod redirect {
    #[derive(Debug)]
    pub struct Policy {}
    impl Policy {
        pub fn none() -> Self {
            Policy {}
        }
        pub fn limited(_: usize) -> Self {
            Policy {}
        }
    }
}

pub mod blocking {
    use super::*;
    use http::header::{HeaderName, HeaderValue};

    pub use super::Body;

    #[derive(Clone, Debug)]
    pub struct Client {
        timeout: Option<Duration>,
        headers: HeaderMap,
    }
    impl Default for Client {
        fn default() -> Self {
            Client { timeout: Some(Duration::from_secs(30)), headers: HeaderMap::new() }
        }
    }

    #[derive(Debug, Default)]
    pub struct ClientBuilder {
        c: Client,
    }
    impl ClientBuilder {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn timeout<T: Into<Option<Duration>>>(mut self, t: T) -> Self {
            self.c.timeout = t.into();
            self
        }
        pub fn connect_timeout<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn pool_max_idle_per_host(self, _: usize) -> Self {
            self
        }
        pub fn pool_idle_timeout<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn redirect(self, _: super::redirect::Policy) -> Self {
            self
        }
        pub fn no_proxy(self) -> Self {
            self
        }
        pub fn https_only(self, _: bool) -> Self {
            self
        }
        pub fn referer(self, _: bool) -> Self {
            self
        }
        pub fn tcp_nodelay(self, _: bool) -> Self {
            self
        }
        pub fn tcp_keepalive<T: Into<Option<Duration>>>(self, _: T) -> Self {
            self
        }
        pub fn connection_verbose(self, _: bool) -> Self {
            self
        }
        pub fn http1_only(self) -> Self {
            self
        }
        pub fn http2_prior_knowledge(self) -> Self {
            self
        }
        pub fn use_rustls_tls(self) -> Self {
            self
        }
        pub fn danger_accept_invalid_certs(self, _: bool) -> Self {
            self
        }
        pub fn default_headers(mut self, h: HeaderMap) -> Self {
            self.c.headers = h;
            self
        }
        pub fn user_agent<V: TryInto<HeaderValue>>(mut self, v: V) -> Self {
            if let Ok(v) = v.try_into() {
                self.c.headers.insert(header::USER_AGENT, v);
            }
            self
        }
        pub fn build(self) -> Result<Client> {
            Ok(self.c)
        }
    }

    impl Client {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn builder() -> ClientBuilder {
            ClientBuilder::default()
        }
        pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
            let mut headers = self.headers.clone();
            headers
                .entry(header::ACCEPT)
                .or_insert(HeaderValue::from_static("*/*"));
            RequestBuilder {
                req: url.into_url().map(|url| WireRequest {
                    method,
                    url,
                    headers,
                    body: vec![],
                    timeout: self.timeout,
                }),
            }
        }
        pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
            self.request(Method::GET, url)
        }
        pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
            self.request(Method::POST, url)
        }
        pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
            self.request(Method::PUT, url)
        }
        pub fn patch<U: IntoUrl>(&self, url: U) -> RequestBuilder {
            self.request(Method::PATCH, url)
        }
        pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
            self.request(Method::DELETE, url)
        }
        pub fn head<U: IntoUrl>(&self, url: U) -> RequestBuilder {
            self.request(Method::HEAD, url)
        }
        pub fn execute(&self, request: Request) -> Result<Response> {
            let url = request.0.url.clone();
            match sim::exchange(request.0) {
                Ok(r) => Ok(Response { url, r }),
                Err(k) => Err(Error::new(k, Some(url), String::new())),
            }
        }
    }

    #[derive(Debug)]
    pub struct Request(pub(crate) WireRequest);
    impl Request {
        pub fn headers_mut(&mut self) -> &mut HeaderMap {
            &mut self.0.headers
        }
        pub fn headers(&self) -> &HeaderMap {
            &self.0.headers
        }
        pub fn timeout_mut(&mut self) -> &mut Option<Duration> {
            &mut self.0.timeout
        }
        pub fn url(&self) -> &Url {
            &self.0.url
        }
        pub fn method(&self) -> &Method {
            &self.0.method
        }
    }

    #[derive(Debug)]
    pub struct RequestBuilder {
        req: Result<WireRequest>,
    }
    impl RequestBuilder {
        pub fn header<K, V>(mut self, key: K, value: V) -> Self
        where
            HeaderName: TryFrom<K>,
            <HeaderName as TryFrom<K>>::Error: Into<http::Error>,
            HeaderValue: TryFrom<V>,
            <HeaderValue as TryFrom<V>>::Error: Into<http::Error>,
        {
            let mut err = None;
            if let Ok(r) = self.req.as_mut() {
                match (HeaderName::try_from(key), HeaderValue::try_from(value)) {
                    (Ok(k), Ok(v)) => {
                        r.headers.append(k, v);
                    }
                    (Err(e), _) => {
                        let e: http::Error = e.into();
                        err = Some(e.to_string());
                    }
                    (_, Err(e)) => {
                        let e: http::Error = e.into();
                        err = Some(e.to_string());
                    }
                }
            }
            if let Some(e) = err {
                self.req = Err(Error::new(Kind::Builder, None, e));
            }
            self
        }
        pub fn headers(mut self, h: HeaderMap) -> Self {
            if let Ok(r) = self.req.as_mut() {
                let mut last: Option<HeaderName> = None;
                for (k, v) in h {
                    match k {
                        Some(k) => {
                            r.headers.insert(k.clone(), v);
                            last = Some(k);
                        }
                        None => {
                            if let Some(k) = &last {
                                r.headers.append(k.clone(), v);
                            }
                        }
                    }
                }
            }
            self
        }
        pub fn body<T: Into<Body>>(mut self, b: T) -> Self {
            if let Ok(r) = self.req.as_mut() {
                r.body = b.into().0;
            }
            self
        }
        pub fn timeout(mut self, t: Duration) -> Self {
            if let Ok(r) = self.req.as_mut() {
                r.timeout = Some(t);
            }
            self
        }
        pub fn bearer_auth<T: fmt::Display>(self, token: T) -> Self {
            self.header(header::AUTHORIZATION, format!("Bearer {}", token))
        }
        pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, user: U, password: Option<P>) -> Self {
            let mut s = format!("{}:", user);
            if let Some(p) = password {
                s.push_str(&p.to_string());
            }
            self.header(header::AUTHORIZATION, format!("Basic {}", base64(s.as_bytes())))
        }
        pub fn query<T: serde::Serialize + ?Sized>(mut self, q: &T) -> Self {
            let mut err = None;
            if let Ok(r) = self.req.as_mut() {
                {
                    let mut pairs = r.url.query_pairs_mut();
                    if let Err(e) = q.serialize(serde_urlencoded::Serializer::new(&mut pairs)) {
                        err = Some(e.to_string());
                    }
                }
                if r.url.query() == Some("") {
                    r.url.set_query(None);
                }
            }
            if let Some(e) = err {
                self.req = Err(Error::new(Kind::Builder, None, e));
            }
            self
        }
        pub fn form<T: serde::Serialize + ?Sized>(mut self, f: &T) -> Self {
            let mut err = None;
            if let Ok(r) = self.req.as_mut() {
                match serde_urlencoded::to_string(f) {
                    Ok(b) => {
                        r.headers
                            .entry(header::CONTENT_TYPE)
                            .or_insert(HeaderValue::from_static("application/x-www-form-urlencoded"));
                        r.body = b.into_bytes();
                    }
                    Err(e) => err = Some(e.to_string()),
                }
            }
            if let Some(e) = err {
                self.req = Err(Error::new(Kind::Builder, None, e));
            }
            self
        }
        pub fn version(self, _: Version) -> Self {
            self
        }
        pub fn try_clone(&self) -> Option<RequestBuilder> {
            self.req.as_ref().ok().map(|r| RequestBuilder { req: Ok(r.clone()) })
        }
        pub fn build(self) -> Result<Request> {
            self.req.map(Request)
        }
        pub fn send(self) -> Result<Response> {
            let req = self.req?;
            Client::new().execute(Request(req))
        }
    }

    #[derive(Debug)]
    pub struct Response {
        url: Url,
        r: WireResponse,
    }
    impl Response {
        pub fn status(&self) -> StatusCode {
            self.r.status
        }
        pub fn headers(&self) -> &HeaderMap {
            &self.r.headers
        }
        pub fn url(&self) -> &Url {
            &self.url
        }
        pub fn version(&self) -> Version {
            Version::HTTP_11
        }
        pub fn content_length(&self) -> Option<u64> {
            Some(self.r.body.len() as u64)
        }
        pub fn text(self) -> Result<String> {
            Ok(String::from_utf8_lossy(&self.r.body).into_owned())
        }
        pub fn bytes(self) -> Result<bytes::Bytes> {
            Ok(self.r.body.into())
        }
        pub fn text_with_charset(self, _: &str) -> Result<String> {
            self.text()
        }
        pub fn remote_addr(&self) -> Option<std::net::SocketAddr> {
            None
        }
        pub fn error_for_status(self) -> Result<Self> {
            let st = self.status();
            if st.is_client_error() || st.is_server_error() {
                let mut e = Error::new(Kind::Status, Some(self.url), String::new());
                e.status = Some(st);
                Err(e)
            } else {
                Ok(self)
            }
        }
        pub fn error_for_status_ref(&self) -> Result<&Self> {
            let st = self.status();
            if st.is_client_error() || st.is_server_error() {
                let mut e = Error::new(Kind::Status, Some(self.url.clone()), String::new());
                e.status = Some(st);
                Err(e)
            } else {
                Ok(self)
            }
        }
    }

    impl std::io::Read for Response {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let n = buf.len().min(self.r.body.len());
            buf[..n].copy_from_slice(&self.r.body[..n]);
            self.r.body.drain(..n);
            Ok(n)
        }
    }

    fn base64(b: &[u8]) -> String {
        const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut o = String::new();
        for c in b.chunks(3) {
            let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            for i in 0..4 {
                if i <= c.len() {
                    o.push(T[(v >> (18 - 6 * i)) as usize & 63] as char);
                } else {
                    o.push('=');
                }
            }
        }
        o
    }

    pub fn get<U: IntoUrl>(url: U) -> Result<Response> {
        Client::new().get(url).send()
    }
}
