//! a request for light client updates asks for as many periods as the caller did
use beacon_api_client::minimal::Client;
use reqwest::sim::{BodyEvent, SimRequest, SimResponse};
use std::sync::{Arc, Mutex};
fn main() {
    let seen: Arc<Mutex<Vec<SimRequest>>> = Default::default();
    let s = seen.clone();
    reqwest::sim::install(Some(Arc::new(move |r: SimRequest| {
        s.lock().unwrap().push(r);
        Box::pin(async { Ok(SimResponse { status: 200, headers: vec![], body: vec![BodyEvent::Chunk(b"[]".to_vec())] }) })
    })));
    let client = Client::new(url::Url::parse("http://node:5052/").unwrap());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for (start, count) in [(0, 1), (7, 127), (7, 128), (7, 129), (u64::MAX, 1000), (3, u64::MAX)] {
        let _ = rt.block_on(client.get_light_client_updates(start, count));
        let url = seen.lock().unwrap().last().unwrap().url.clone();
        let want = [("start_period".to_string(), start.to_string()), ("count".to_string(), count.to_string())];
        let got = url.query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
        if got != want {
            println!("{url} for {start}, {count}");
            std::process::exit(1);
        }
    }
}
