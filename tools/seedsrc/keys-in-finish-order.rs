//! keys come in index order whatever the order in which workers finish
include!(concat!(env!("OUT_DIR"), "/ec.rs"));
use validator::keys;
fn main() {
    let seed = [7u8; 64];
    let one = |i: u32| {
        rayon::install_schedule(None);
        let (s, w) = keys::generate(&seed, i, i + 1);
        (s[0].path.clone(), s[0].public_key.clone(), w[0].path.clone(), w[0].public_key.clone())
    };
    let want: Vec<_> = (3..6).map(one).collect();
    for order in 0..4usize {
        let mut k = order;
        // which of n ready workers goes next
        rayon::install_schedule(Some(Box::new(move |n| {
            k = (k * 5 + 3) % 7;
            if order == 0 { n - 1 } else { k % n }
        })));
        let (s, w) = keys::generate(&seed, 3, 6);
        let got: Vec<_> = s.iter().zip(&w).map(|(s, w)| (s.path.clone(), s.public_key.clone(), w.path.clone(), w.public_key.clone())).collect();
        if got != want {
            println!("schedule {order}: {:?}", got.iter().map(|x| &x.0).collect::<Vec<_>>());
            std::process::exit(1);
        }
    }
}
