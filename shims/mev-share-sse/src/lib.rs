//! Stand-in for `mev-share-sse`: server-sent events over the simulated network.
pub use client::EventClient;
pub mod client {
    use serde::de::DeserializeOwned;
    use std::{
        collections::VecDeque,
        fmt,
        future::Future,
        marker::PhantomData,
        pin::Pin,
        task::{Context, Poll},
    };
    #[derive(Debug)]
    pub enum SseError {
        Http(reqwest::Error),
        SerdeJsonError(serde_json::Error),
        Async(String),
    }
    impl fmt::Display for SseError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for SseError {}

    #[derive(Debug, Clone, Default)]
    pub struct EventClient {
        client: reqwest::Client,
    }
    impl EventClient {
        pub fn new(client: reqwest::Client) -> Self {
            Self { client }
        }
        pub async fn subscribe<T: DeserializeOwned>(
            &self,
            endpoint: &str,
        ) -> reqwest::Result<EventStream<T>> {
            let response = self
                .client
                .get(endpoint)
                .header("accept", "text/event-stream")
                .send()
                .await?
                .error_for_status()?;
            Ok(EventStream {
                state: State::Idle(response),
                buf: vec![],
                ready: VecDeque::new(),
                done: false,
                _t: PhantomData,
            })
        }
    }
    type Read = Pin<Box<dyn Future<Output = (reqwest::Response, reqwest::Result<Option<Vec<u8>>>)> + Send>>;
    enum State {
        Idle(reqwest::Response),
        Reading(Read),
        Gone,
    }
    pub struct EventStream<T> {
        state: State,
        buf: Vec<u8>,
        ready: VecDeque<String>,
        done: bool,
        _t: PhantomData<fn() -> T>,
    }
    impl<T> fmt::Debug for EventStream<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "EventStream")
        }
    }
    impl<T: DeserializeOwned> futures_core::Stream for EventStream<T> {
        type Item = Result<T, SseError>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            loop {
                if let Some(d) = self.ready.pop_front() {
                    return Poll::Ready(Some(
                        serde_json::from_str(&d).map_err(SseError::SerdeJsonError),
                    ));
                }
                if self.done {
                    return Poll::Ready(None);
                }
                match std::mem::replace(&mut self.state, State::Gone) {
                    State::Gone => return Poll::Ready(None),
                    State::Idle(mut r) => {
                        self.state = State::Reading(Box::pin(async move {
                            let c = r.chunk().await.map(|c| c.map(|c| c.to_vec()));
                            (r, c)
                        }));
                    }
                    State::Reading(mut f) => match f.as_mut().poll(cx) {
                        Poll::Pending => {
                            self.state = State::Reading(f);
                            return Poll::Pending;
                        }
                        Poll::Ready((r, Ok(Some(c)))) => {
                            self.state = State::Idle(r);
                            self.buf.extend_from_slice(&c);
                            self.parse();
                        }
                        Poll::Ready((_, Ok(None))) => self.done = true,
                        Poll::Ready((_, Err(e))) => {
                            self.done = true;
                            return Poll::Ready(Some(Err(SseError::Http(e))));
                        }
                    },
                }
            }
        }
    }
    impl<T> EventStream<T> {
        fn parse(&mut self) {
            while let Some(i) = self.buf.windows(2).position(|w| w == b"\n\n") {
                let frame: Vec<u8> = self.buf.drain(..i + 2).collect();
                let text = String::from_utf8_lossy(&frame).into_owned();
                let data: Vec<&str> = text
                    .lines()
                    .filter_map(|l| l.strip_prefix("data:"))
                    .map(|d| d.strip_prefix(' ').unwrap_or(d))
                    .collect();
                if !data.is_empty() {
                    self.ready.push_back(data.join("\n"));
                }
            }
        }
    }
}
