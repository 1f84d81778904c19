//! HTTP without a network: every request goes to a handler that the simulation installs.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

pub use http::{Method, StatusCode, Version, header};
pub use url::Url;

/// What the simulated world answers.
#[derive(Clone, Debug)]
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, Vec<u8>)>,
    /// The body, or why it broke off.
    pub body: Result<Vec<u8>, String>,
    /// How long the head, and then the body, take.
    pub delay: Duration,
    pub body_delay: Duration,
}

type Handler = Box<dyn FnMut(&Request) -> Result<Answer, String>>;

thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
}

type Alarm = fn(Duration, std::task::Waker);

thread_local! {
    static ALARM: RefCell<Option<Alarm>> = const { RefCell::new(None) };
}

/// How to be woken up later; without it, waiting moves the clock of the calling thread.
pub fn set_alarm(a: Option<Alarm>) {
    ALARM.with(|x| *x.borrow_mut() = a);
}

pub fn set_handler(h: Option<Handler>) {
    HANDLER.with(|x| *x.borrow_mut() = h);
}

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;

pub mod redirect {
    #[derive(Debug, Clone, Copy)]
    pub struct Policy(pub usize);
    impl Policy {
        pub fn limited(n: usize) -> Policy {
            Policy(n)
        }
        pub fn none() -> Policy {
            Policy(0)
        }
    }
}

#[derive(Debug, Clone)]
pub struct Proxy(Url);
impl Proxy {
    pub fn http(u: Url) -> Result<Proxy> {
        Ok(Proxy(u))
    }
}

#[derive(Debug, Clone, Default)]
pub struct Client {
    proxy: Option<Url>,
    redirects: usize,
}

#[derive(Debug, Default)]
pub struct ClientBuilder(Client);

impl ClientBuilder {
    pub fn proxy(mut self, p: Proxy) -> Self {
        self.0.proxy = Some(p.0);
        self
    }
    pub fn redirect(mut self, p: redirect::Policy) -> Self {
        self.0.redirects = p.0;
        self
    }
    pub fn build(self) -> Result<Client> {
        Ok(self.0)
    }
}

#[derive(Debug)]
pub struct Body(Vec<u8>);
impl From<Vec<u8>> for Body {
    fn from(b: Vec<u8>) -> Body {
        Body(b)
    }
}

#[derive(Debug)]
pub struct Request {
    pub method: Method,
    pub url: Url,
    pub headers: header::HeaderMap,
    pub body: Vec<u8>,
    pub timeout: Option<Duration>,
    pub proxy: Option<Url>,
    pub redirects: usize,
}

pub struct RequestBuilder(Request);

impl RequestBuilder {
    pub fn timeout(mut self, t: Duration) -> Self {
        self.0.timeout = Some(t);
        self
    }
    pub fn headers(mut self, h: header::HeaderMap) -> Self {
        self.0.headers.extend(h);
        self
    }
    pub fn body<B: Into<Body>>(mut self, b: B) -> Self {
        self.0.body = b.into().0;
        self
    }
    pub fn build(self) -> Result<Request> {
        Ok(self.0)
    }
}

impl Client {
    pub fn builder() -> ClientBuilder {
        ClientBuilder::default()
    }
    pub fn new() -> Client {
        Client::default()
    }
    fn request(&self, method: Method, url: Url) -> RequestBuilder {
        RequestBuilder(Request {
            method,
            url,
            headers: Default::default(),
            body: vec![],
            timeout: None,
            proxy: self.proxy.clone(),
            redirects: self.redirects,
        })
    }
    pub fn get(&self, url: Url) -> RequestBuilder {
        self.request(Method::GET, url)
    }
    pub fn post(&self, url: Url) -> RequestBuilder {
        self.request(Method::POST, url)
    }
    pub fn head(&self, url: Url) -> RequestBuilder {
        self.request(Method::HEAD, url)
    }
    pub async fn execute(&self, r: Request) -> Result<Response> {
        let start = Instant::now();
        let a = HANDLER.with(|h| match h.borrow_mut().as_mut() {
            Some(h) => h(&r),
            None => Err("no network".to_string()),
        });
        let a = match a {
            Ok(a) => a,
            Err(e) => return Err(Error(e)),
        };
        Wait::new(a.delay, r.timeout.map(|t| start + t)).await?;
        let mut headers = header::HeaderMap::new();
        for (n, v) in &a.headers {
            let n = header::HeaderName::from_bytes(n.as_bytes()).map_err(|e| Error(e.to_string()))?;
            headers.append(n, header::HeaderValue::from_bytes(v).map_err(|e| Error(e.to_string()))?);
        }
        Ok(Response { status: StatusCode::from_u16(a.status).map_err(|e| Error(e.to_string()))?, headers, deadline: r.timeout.map(|t| start + t), answer: a })
    }
}

/// Time passes while we wait, a few milliseconds at every poll.
struct Wait {
    at: Instant,
    deadline: Option<Instant>,
}
impl Wait {
    fn new(d: Duration, deadline: Option<Instant>) -> Wait {
        Wait { at: Instant::now() + d, deadline }
    }
}
impl Future for Wait {
    type Output = Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let now = Instant::now();
        if now >= self.at {
            return Poll::Ready(Ok(()));
        }
        if self.deadline.is_some_and(|d| now >= d) {
            return Poll::Ready(Err(Error("operation timed out".to_string())));
        }
        if let Some(a) = ALARM.with(|a| *a.borrow()) {
            a(self.deadline.unwrap_or(self.at).min(self.at) - now, cx.waker().clone());
            return Poll::Pending;
        }
        std::thread::sleep((self.at - now).min(Duration::from_millis(100)));
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Debug)]
pub struct Response {
    status: StatusCode,
    headers: header::HeaderMap,
    deadline: Option<Instant>,
    answer: Answer,
}

impl Response {
    pub fn status(&self) -> StatusCode {
        self.status
    }
    pub fn headers(&self) -> &header::HeaderMap {
        &self.headers
    }
    pub async fn bytes(self) -> Result<Vec<u8>> {
        Wait::new(self.answer.body_delay, self.deadline).await?;
        self.answer.body.map_err(Error)
    }
    pub async fn text(self) -> Result<String> {
        Ok(String::from_utf8_lossy(&self.bytes().await?).into_owned())
    }
}
