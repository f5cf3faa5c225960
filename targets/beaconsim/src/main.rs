//! C01-C19: the beacon chain.
mod blinded;
mod check;
mod forks;
mod gen;
mod genesis;
mod mutate;
mod net;
mod queries;
mod replay;
mod sidecar;
mod solo;
mod world;

use simkit::{Sim, Target};
use world::Flavour;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Scene {
    /// one node and the model: aged states, empty slots, honest and Byzantine blocks, crashes, damage
    Solo,
    /// several nodes on a faulty network, from genesis
    Net,
    /// fork tables and configuration files
    Forks,
    /// signed messages replayed elsewhere
    Replay,
    Sidecar,
    Blinded,
    Genesis,
}
use Scene::*;

/// how the runs that decide a property are made: (scene, weight), and what blocks carry
fn shape(property: &str) -> (Vec<(Scene, u64)>, Flavour) {
    let base = Flavour { lo: 0, hi: 5, mainnet: 3, forks_ahead: 30, atts: 5, slashings: 4, deposits: 6, exits: 5, sync: 6, changes: 5, requests: 5, byzantine: 3, epochs: 5, crash: 2, queries: 2 };
    match property {
        "C01" => (vec![(Solo, 90), (Net, 4), (Genesis, 6)], Flavour { hi: 4, ..base }),
        "C02" => (vec![(Solo, 98), (Net, 2)], Flavour { byzantine: 12, ..base }),
        "C03" => (vec![(Solo, 85), (Net, 15)], Flavour { atts: 9, epochs: 9, ..base }),
        "C04" => (vec![(Solo, 98), (Net, 2)], Flavour { atts: 9, epochs: 9, ..base }),
        "C05" => (vec![(Solo, 100)], Flavour { exits: 9, slashings: 5, deposits: 8, epochs: 9, ..base }),
        "C06" => (vec![(Solo, 95), (Net, 5)], Flavour { slashings: 9, byzantine: 5, ..base }),
        "C07" => (vec![(Solo, 98), (Net, 2)], Flavour { queries: 9, mainnet: 6, ..base }),
        "C08" => (vec![(Solo, 92), (Genesis, 8)], Flavour { deposits: 10, byzantine: 6, ..base }),
        "C09" => (vec![(Solo, 100)], Flavour { lo: 2, forks_ahead: 40, changes: 9, exits: 7, byzantine: 6, ..base }),
        "C10" => (vec![(Solo, 74), (Forks, 24), (Net, 2)], Flavour { forks_ahead: 95, crash: 4, ..base }),
        "C11" => (vec![(Solo, 98), (Net, 2)], Flavour { forks_ahead: 50, sync: 10, byzantine: 5, ..base }),
        "C12" => (vec![(Solo, 92), (Blinded, 8)], Flavour { lo: 1, forks_ahead: 50, byzantine: 9, ..base }),
        "C13" => (vec![(Solo, 98), (Net, 2)], Flavour { epochs: 9, queries: 5, forks_ahead: 40, ..base }),
        "C14" => (vec![(Solo, 70), (Net, 4), (Blinded, 26)], Flavour { crash: 10, forks_ahead: 40, ..base }),
        "C15" => (vec![(Replay, 45), (Solo, 55)], Flavour { byzantine: 10, forks_ahead: 50, exits: 8, changes: 8, slashings: 6, ..base }),
        "C16" => (vec![(Sidecar, 100)], base),
        "C17" => (vec![(Solo, 100)], Flavour { lo: 4, hi: 5, forks_ahead: 70, requests: 9, exits: 7, deposits: 8, byzantine: 6, ..base }),
        "C18" => (vec![(Blinded, 100)], Flavour { lo: 1, forks_ahead: 40, ..base }),
        "C19" => (vec![(Genesis, 100)], base),
        // development: everything
        _ => (vec![(Solo, 100), (Net, 1), (Forks, 5), (Replay, 20), (Sidecar, 15), (Blinded, 20), (Genesis, 20)], Flavour { byzantine: 6, queries: 4, ..base }),
    }
}

fn main() {
    let property = simkit::arg("--property").expect("--property");
    let (mut scenes, fl) = shape(&std::env::var("BEACONSIM_LIKE").unwrap_or_else(|_| property.clone()));
    // development: one scene only
    if let Ok(x) = std::env::var("BEACONSIM_AS") {
        scenes = [Solo, Net, Forks, Replay, Sidecar, Blinded, Genesis].into_iter().filter(|s| format!("{s:?}") == x).map(|s| (s, 1)).collect();
    }
    let has = |s: Scene| scenes.iter().any(|x| x.0 == s);
    let only = |s: Scene| scenes.len() == 1 && has(s);
    let mut real: Vec<String> = vec!["ethereum-consensus state transition, containers, serde and signing of every fork, both presets".into(), "serde, serde_json, sha2".into()];
    if has(Net) {
        real.push("each simulated node's chain processing; the simulator plays the gossip network, fork choice, timers and disks".into());
    }
    let mut rule: Vec<&str> = vec![];
    for (s, _) in &scenes {
        rule.push(match s {
            Solo => "one node from an aged random chain: gaps, honest and Byzantine blocks, invalid engine answers, crashes, damaged bytes (non-trivial: an honest block was applied)",
            Net => "3-5 nodes from genesis through loss, duplication, delay, partitions, crashes, clock skew and equivocation, then calm (non-trivial: ran to the end)",
            Forks => "published fork tables and damaged configuration files (non-trivial: a table or file was read)",
            Replay => "messages signed on several networks replayed in other roles, forks, networks, aggregates (non-trivial: a replay was judged)",
            Sidecar => "blob sidecars lost, duplicated, reordered, corrupted and swapped (non-trivial: a sidecar was judged)",
            Blinded => "blocks through a relay that alters, withholds or swaps payloads (non-trivial: an unblinded block was applied)",
            Genesis => "deposit logs read by several observers, some damaged (non-trivial: a genesis was built)",
        });
    }
    let mut probes: Vec<&str> = vec![];
    if has(Solo) {
        probes.extend(["block accepted", "block refused", "epoch boundary", "fork boundary", "accepted attestations", "accepted deposits", "restarted from binary", "restarted from JSON"]);
    }
    if has(Net) {
        probes.extend(["network run to the end", "reorganisation", "node restarted", "finality advanced at a node"]);
    }
    match property.as_str() {
        "C05" => probes.push("accepted exits"),
        "C06" => probes.extend(["accepted proposer slashings", "accepted attester slashings"]),
        "C07" => probes.extend(["duty computed by a node", "asked committee"]),
        "C09" => probes.extend(["accepted withdrawals", "accepted credential changes"]),
        "C10" => probes.extend(["several forks at once", "configuration read", "damaged configuration refused"]),
        "C11" => probes.push("accepted sync votes"),
        "C12" => probes.push("accepted blobs"),
        "C17" => probes.extend(["accepted consolidations", "accepted deposit receipts", "accepted withdrawal requests"]),
        _ => {}
    }
    if only(Sidecar) {
        probes.extend(["sidecar accepted", "sidecar refused", "evaluation checked"]);
    }
    if only(Blinded) {
        probes.extend(["block unblinded", "wrong payload refused"]);
    }
    if only(Genesis) {
        probes.extend(["genesis state built", "log refused", "chain started"]);
    }
    let pick = scenes.clone();
    let total: u64 = pick.iter().map(|x| x.1).sum();
    simkit::main_for(Target {
        name: "beaconsim",
        property,
        run: Box::new(move |sim: &mut Sim| {
            let mut k = if pick.len() > 1 { sim.choose(total) } else { 0 };
            let mut scene = pick[0].0;
            for (s, n) in &pick {
                if k < *n {
                    scene = *s;
                    break;
                }
                k -= n;
            }
            sim.probe(&format!("scene {scene:?}"));
            for (f, early) in refspec::FORKS.iter().zip(world::W::new(false).p.early_exit) {
                if early {
                    check::report(sim, &["C02", "C05"], &format!("voluntary-exit-early:{f:?}"), "a voluntary exit is granted shard_committee_period epochs after the validator became eligible, not after it was activated");
                }
            }
            match scene {
                Solo => solo::run(sim, &fl),
                Net => net::run(sim, &fl),
                Forks => forks::run(sim, &fl),
                Replay => replay::run(sim, &fl),
                Sidecar => sidecar::run(sim, &fl),
                Blinded => blinded::run(sim, &fl),
                Genesis => genesis::run(sim, &fl),
            }
        }),
        rule: format!("each run draws a scene: {}", rule.join("; ")),
        state_measure: "distinct beacon states (header, balances, slot, preset), or for scenes without a chain distinct (message or table, place, verdict) tuples".into(),
        real,
        stubs: vec![
            "ssz_rs: stand-in crate with the SSZ rules (merkleization, decoding limits)".into(),
            "blst: algebraic stand-in (a group where pairings can be checked); c-kzg: the same, with real polynomial evaluation".into(),
            "execution engine: a simulated verdict".into(),
            "fork choice, gossip, disks and clocks around the nodes: the simulator".into(),
        ],
        assumptions: vec![
            "the reference model (refspec) states consensus-specs v1.4.0 (phase0 to deneb) and v1.5.0-alpha.2 (electra) correctly".into(),
            "real BLS and KZG verification are sound".into(),
        ],
        required_probes: probes.into_iter().map(String::from).collect(),
        quick_s: 45.0,
        thorough_s: 780.0,
        min_runs: 40,
        max_runs_quick: 60_000,
    })
}
