//! Stand-in for `reqwest`: the network seam of the simulation.  Requests are built with the
//! semantics of the real crate (query encoding, JSON bodies, deferred builder errors) and handed to
//! the transport installed by the simulator; response bodies arrive as scheduled chunks.
use serde::Serialize;
use std::{fmt, time::Duration};
pub use http::{header, HeaderMap, Method, StatusCode};
pub use url::Url;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Kind {
    Builder,
    Request,
    Connect,
    Timeout,
    Body,
    Decode,
    Status(StatusCode),
}
pub struct Error {
    kind: Kind,
    msg: String,
}
pub type Result<T> = std::result::Result<T, Error>;
impl Error {
    fn new(kind: Kind, m: impl fmt::Display) -> Self {
        Self { kind, msg: m.to_string() }
    }
    pub fn is_builder(&self) -> bool {
        self.kind == Kind::Builder
    }
    pub fn is_request(&self) -> bool {
        matches!(self.kind, Kind::Request | Kind::Connect)
    }
    pub fn is_connect(&self) -> bool {
        self.kind == Kind::Connect
    }
    pub fn is_timeout(&self) -> bool {
        self.kind == Kind::Timeout
    }
    pub fn is_body(&self) -> bool {
        self.kind == Kind::Body
    }
    pub fn is_decode(&self) -> bool {
        self.kind == Kind::Decode
    }
    pub fn is_status(&self) -> bool {
        matches!(self.kind, Kind::Status(_))
    }
    pub fn status(&self) -> Option<StatusCode> {
        match self.kind {
            Kind::Status(s) => Some(s),
            _ => None,
        }
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "reqwest::Error({:?}, {})", self.kind, self.msg)
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.msg)
    }
}
impl std::error::Error for Error {}

pub mod sim {
    use super::*;
    use std::{cell::RefCell, future::Future, pin::Pin, sync::Arc};

    #[derive(Debug, Clone)]
    pub struct SimRequest {
        pub method: String,
        pub url: Url,
        pub headers: Vec<(String, String)>,
        pub body: Vec<u8>,
    }
    #[derive(Debug, Clone)]
    pub enum BodyEvent {
        Wait(Duration),
        Chunk(Vec<u8>),
        /// connection reset while reading the body
        Reset,
        /// connection closed before the announced length
        Truncated,
    }
    #[derive(Debug, Clone)]
    pub enum SimError {
        Refused,
        Reset,
        Timeout,
    }
    #[derive(Debug, Clone)]
    pub struct SimResponse {
        pub status: u16,
        pub headers: Vec<(String, String)>,
        pub body: Vec<BodyEvent>,
    }
    pub type Fut = Pin<Box<dyn Future<Output = std::result::Result<SimResponse, SimError>> + Send>>;
    pub type Transport = Arc<dyn Fn(SimRequest) -> Fut + Send + Sync>;
    thread_local! { static T: RefCell<Option<Transport>> = const { RefCell::new(None) }; }
    pub fn install(t: Option<Transport>) {
        T.with(|x| *x.borrow_mut() = t);
    }
    pub(crate) fn current() -> Option<Transport> {
        T.with(|x| x.borrow().clone())
    }
}
use sim::*;

pub trait IntoUrl {
    fn into_url(self) -> Result<Url>;
}
impl IntoUrl for Url {
    fn into_url(self) -> Result<Url> {
        if self.has_host() {
            Ok(self)
        } else {
            Err(Error::new(Kind::Builder, "URL scheme is not allowed"))
        }
    }
}
impl IntoUrl for &Url {
    fn into_url(self) -> Result<Url> {
        self.clone().into_url()
    }
}
impl IntoUrl for &str {
    fn into_url(self) -> Result<Url> {
        Url::parse(self).map_err(|e| Error::new(Kind::Builder, e))?.into_url()
    }
}
impl IntoUrl for String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}
impl IntoUrl for &String {
    fn into_url(self) -> Result<Url> {
        self.as_str().into_url()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Client {
    timeout: Option<Duration>,
}
#[derive(Debug, Default)]
pub struct ClientBuilder {
    timeout: Option<Duration>,
}
impl ClientBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.timeout = Some(t);
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(Client { timeout: self.timeout })
    }
}
impl Client {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
        RequestBuilder {
            timeout: self.timeout,
            req: url.into_url().map(|url| SimRequest {
                method: method.to_string(),
                url,
                headers: vec![],
                body: vec![],
            }),
        }
    }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::PUT, url)
    }
    pub fn delete<U: IntoUrl>(&self, url: U) -> RequestBuilder {
        self.request(Method::DELETE, url)
    }
}

#[derive(Debug)]
pub struct RequestBuilder {
    timeout: Option<Duration>,
    req: Result<SimRequest>,
}

/// `serde_urlencoded`: pairs or a map at the top level, only scalar values
fn urlencode<T: Serialize + ?Sized>(q: &T) -> Result<Vec<(String, String)>> {
    use serde_json::Value::*;
    let err = |m: &str| Error::new(Kind::Builder, m);
    let v = serde_json::to_value(q).map_err(|e| Error::new(Kind::Builder, e))?;
    let scalar = |v: serde_json::Value| match v {
        Null => Ok(None),
        String(s) => Ok(Some(s)),
        Number(n) => Ok(Some(n.to_string())),
        Bool(b) => Ok(Some(b.to_string())),
        Array(_) | Object(_) => Err(err("unsupported value")),
    };
    let mut out = vec![];
    match v {
        Null => {}
        Array(a) => {
            for p in a {
                let Array(p) = p else { return Err(err("unsupported pair")) };
                let [k, v]: [serde_json::Value; 2] =
                    p.try_into().map_err(|_| err("unsupported pair"))?;
                let k = scalar(k)?.ok_or(err("unsupported key"))?;
                if let Some(v) = scalar(v)? {
                    out.push((k, v));
                }
            }
        }
        Object(m) => {
            for (k, v) in m {
                if let Some(v) = scalar(v)? {
                    out.push((k, v));
                }
            }
        }
        _ => return Err(err("top-level serializer supports only maps and structs")),
    }
    Ok(out)
}

impl RequestBuilder {
    pub fn query<T: Serialize + ?Sized>(mut self, q: &T) -> Self {
        self.req = self.req.and_then(|mut r| {
            let pairs = urlencode(q)?;
            r.url.query_pairs_mut().extend_pairs(pairs);
            if let Some("") = r.url.query() {
                r.url.set_query(None);
            }
            Ok(r)
        });
        self
    }
    pub fn json<T: Serialize + ?Sized>(mut self, b: &T) -> Self {
        self.req = self.req.and_then(|mut r| {
            r.body = serde_json::to_vec(b).map_err(|e| Error::new(Kind::Builder, e))?;
            if !r.headers.iter().any(|h| h.0 == "content-type") {
                r.headers.push(("content-type".into(), "application/json".into()));
            }
            Ok(r)
        });
        self
    }
    pub fn body<B: Into<Vec<u8>>>(mut self, b: B) -> Self {
        if let Ok(r) = &mut self.req {
            r.body = b.into();
        }
        self
    }
    pub fn header<K, V>(mut self, k: K, v: V) -> Self
    where
        K: TryInto<http::HeaderName>,
        V: TryInto<http::HeaderValue>,
    {
        self.req = self.req.and_then(|mut r| {
            let k = k.try_into().map_err(|_| Error::new(Kind::Builder, "invalid header name"))?;
            let v = v.try_into().map_err(|_| Error::new(Kind::Builder, "invalid header value"))?;
            r.headers.push((
                k.as_str().to_string(),
                v.to_str().map_err(|e| Error::new(Kind::Builder, e))?.to_string(),
            ));
            Ok(r)
        });
        self
    }
    pub fn timeout(mut self, t: Duration) -> Self {
        self.timeout = Some(t);
        self
    }
    pub async fn send(self) -> Result<Response> {
        let req = self.req?;
        let url = req.url.clone();
        let deadline = self.timeout.map(|t| tokio::time::Instant::now() + t);
        let t = sim::current().ok_or(Error::new(Kind::Connect, "no simulated network"))?;
        let fut = t(req);
        let r = match deadline {
            Some(d) => tokio::time::timeout_at(d, fut)
                .await
                .map_err(|_| Error::new(Kind::Timeout, "operation timed out"))?,
            None => fut.await,
        };
        let r = r.map_err(|e| match e {
            SimError::Refused => Error::new(Kind::Connect, "connection refused"),
            SimError::Reset => Error::new(Kind::Request, "connection closed before message completed"),
            SimError::Timeout => Error::new(Kind::Timeout, "operation timed out"),
        })?;
        let mut headers = HeaderMap::new();
        for (k, v) in &r.headers {
            headers.append(
                http::HeaderName::from_bytes(k.as_bytes()).unwrap(),
                http::HeaderValue::from_str(v).unwrap(),
            );
        }
        Ok(Response {
            status: StatusCode::from_u16(r.status)
                .map_err(|_| Error::new(Kind::Request, "invalid status"))?,
            headers,
            body: r.body.into(),
            deadline,
            url,
        })
    }
}

#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    headers: HeaderMap,
    body: std::collections::VecDeque<BodyEvent>,
    deadline: Option<tokio::time::Instant>,
    url: Url,
}
impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &HeaderMap {
        &self.headers
    }
    pub fn url(&self) -> &Url {
        &self.url
    }
    pub fn content_length(&self) -> Option<u64> {
        self.headers.get("content-length")?.to_str().ok()?.parse().ok()
    }
    pub fn error_for_status(self) -> Result<Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error::new(Kind::Status(self.status), self.status))
        } else {
            Ok(self)
        }
    }
    pub fn error_for_status_ref(&self) -> Result<&Self> {
        if self.status.is_client_error() || self.status.is_server_error() {
            Err(Error::new(Kind::Status(self.status), self.status))
        } else {
            Ok(self)
        }
    }
    pub async fn chunk(&mut self) -> Result<Option<bytes::Bytes>> {
        loop {
            match self.body.pop_front() {
                None => return Ok(None),
                Some(BodyEvent::Wait(d)) => {
                    let s = tokio::time::sleep(d);
                    match self.deadline {
                        Some(t) => tokio::time::timeout_at(t, s)
                            .await
                            .map_err(|_| Error::new(Kind::Timeout, "operation timed out"))?,
                        None => s.await,
                    }
                }
                Some(BodyEvent::Chunk(c)) => return Ok(Some(c.into())),
                Some(BodyEvent::Reset) => {
                    return Err(Error::new(Kind::Body, "connection reset by peer"))
                }
                Some(BodyEvent::Truncated) => {
                    return Err(Error::new(Kind::Body, "end of file before message length reached"))
                }
            }
        }
    }
    pub async fn bytes(mut self) -> Result<bytes::Bytes> {
        let mut v = vec![];
        while let Some(c) = self.chunk().await? {
            v.extend_from_slice(&c);
        }
        Ok(v.into())
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
    pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
        let b = self.bytes().await?;
        serde_json::from_slice(&b).map_err(|e| Error::new(Kind::Decode, e))
    }
}
pub async fn get<U: IntoUrl>(url: U) -> Result<Response> {
    Client::new().get(url).send().await
}
