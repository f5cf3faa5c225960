//! an answer without a verdict is no verdict
use beacon_api_client::minimal::Client;
use reqwest::sim::{BodyEvent, SimRequest, SimResponse};
use std::sync::Arc;
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for (body, good) in [
        (r#"{"data":[{"index":"1","is_live":true}]}"#, true),
        (r#"{"data":[{"index":"1","is_live":false},{"index":"2","is_live":true}]}"#, true),
        (r#"{"data":[{"index":"1"}]}"#, false),
        (r#"{"data":[{"index":"1","is_live":true},{"index":"2"}]}"#, false),
        (r#"{"data":[{"is_live":true}]}"#, false),
        (r#"{"data":[{"index":"1","is_live":null}]}"#, false),
    ] {
        reqwest::sim::install(Some(Arc::new(move |_: SimRequest| {
            Box::pin(async move { Ok(SimResponse { status: 200, headers: vec![], body: vec![BodyEvent::Chunk(body.as_bytes().to_vec())] }) })
        })));
        let client = Client::new(url::Url::parse("http://node:5052/").unwrap());
        let got = rt.block_on(client.post_liveness(3, &[1, 2]));
        if got.is_ok() != good {
            println!("{body}: {got:?}");
            std::process::exit(1);
        }
    }
}
