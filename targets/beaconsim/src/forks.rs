//! Which fork is active: the published schedules of the supported networks, drawn schedules, and configuration
//! files read back from a disk that may lose or damage them.
use crate::{check::*, gen::*, world::*};
use ethereum_consensus::{networks::Network, state_transition::Context, Fork as RealFork};
use refspec::{Fork::*, *};
use simkit::Sim;

const OWN: &[&str] = &["C10"];
type Conf = Vec<(&'static str, String)>;
const KEYS: &[&str] = &[
    "TERMINAL_TOTAL_DIFFICULTY", "TERMINAL_BLOCK_HASH", "TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH", "MIN_GENESIS_ACTIVE_VALIDATOR_COUNT", "MIN_GENESIS_TIME",
    "GENESIS_FORK_VERSION", "GENESIS_DELAY", "ALTAIR_FORK_VERSION", "ALTAIR_FORK_EPOCH", "BELLATRIX_FORK_VERSION", "BELLATRIX_FORK_EPOCH",
    "CAPELLA_FORK_VERSION", "CAPELLA_FORK_EPOCH", "DENEB_FORK_VERSION", "DENEB_FORK_EPOCH", "ELECTRA_FORK_VERSION", "ELECTRA_FORK_EPOCH",
    "SECONDS_PER_SLOT", "SECONDS_PER_ETH1_BLOCK", "MIN_VALIDATOR_WITHDRAWABILITY_DELAY", "SHARD_COMMITTEE_PERIOD", "ETH1_FOLLOW_DISTANCE",
    "INACTIVITY_SCORE_BIAS", "INACTIVITY_SCORE_RECOVERY_RATE", "EJECTION_BALANCE", "MIN_PER_EPOCH_CHURN_LIMIT", "MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT",
    "CHURN_LIMIT_QUOTIENT", "MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA", "MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT", "PROPOSER_SCORE_BOOST",
    "DEPOSIT_CHAIN_ID", "DEPOSIT_NETWORK_ID", "DEPOSIT_CONTRACT_ADDRESS",
];
fn hx(b: impl AsRef<[u8]>) -> String {
    "0x".to_string() + &b.as_ref().iter().map(|x| format!("{x:02x}")).collect::<String>()
}
fn held(c: &Context, key: &str) -> String {
    macro_rules! num { ($($k:literal $f:ident)*; $($v:literal $g:ident)*) => { match key { $($k => c.$f.to_string(),)* $($v => hx(&c.$g),)*
        "TERMINAL_TOTAL_DIFFICULTY" => c.terminal_total_difficulty.to_string(),
        _ => unreachable!() } } }
    num!("TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH" terminal_block_hash_activation_epoch "MIN_GENESIS_ACTIVE_VALIDATOR_COUNT" min_genesis_active_validator_count
        "MIN_GENESIS_TIME" min_genesis_time "GENESIS_DELAY" genesis_delay "ALTAIR_FORK_EPOCH" altair_fork_epoch "BELLATRIX_FORK_EPOCH" bellatrix_fork_epoch
        "CAPELLA_FORK_EPOCH" capella_fork_epoch "DENEB_FORK_EPOCH" deneb_fork_epoch "ELECTRA_FORK_EPOCH" electra_fork_epoch "SECONDS_PER_SLOT" seconds_per_slot
        "SECONDS_PER_ETH1_BLOCK" seconds_per_eth1_block "MIN_VALIDATOR_WITHDRAWABILITY_DELAY" min_validator_withdrawability_delay "SHARD_COMMITTEE_PERIOD" shard_committee_period
        "ETH1_FOLLOW_DISTANCE" eth1_follow_distance "INACTIVITY_SCORE_BIAS" inactivity_score_bias "INACTIVITY_SCORE_RECOVERY_RATE" inactivity_score_recovery_rate
        "EJECTION_BALANCE" ejection_balance "MIN_PER_EPOCH_CHURN_LIMIT" min_per_epoch_churn_limit "MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT" max_per_epoch_activation_churn_limit
        "CHURN_LIMIT_QUOTIENT" churn_limit_quotient "MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA" min_per_epoch_churn_limit_electra
        "MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT" max_per_epoch_activation_exit_churn_limit "PROPOSER_SCORE_BOOST" proposer_score_boost
        "DEPOSIT_CHAIN_ID" deposit_chain_id "DEPOSIT_NETWORK_ID" deposit_network_id;
        "TERMINAL_BLOCK_HASH" terminal_block_hash "GENESIS_FORK_VERSION" genesis_fork_version "ALTAIR_FORK_VERSION" altair_fork_version
        "BELLATRIX_FORK_VERSION" bellatrix_fork_version "CAPELLA_FORK_VERSION" capella_fork_version "DENEB_FORK_VERSION" deneb_fork_version
        "ELECTRA_FORK_VERSION" electra_fork_version "DEPOSIT_CONTRACT_ADDRESS" deposit_contract_address)
}
struct Published {
    name: &'static str,
    genesis_time: Option<u64>,
    /// versions and epochs, phase0 first
    forks: [(u32, u64); 6],
    rest: &'static [(&'static str, &'static str)],
}
const COMMON: &[(&str, &str)] = &[
    ("TERMINAL_BLOCK_HASH", "0x0000000000000000000000000000000000000000000000000000000000000000"),
    ("TERMINAL_BLOCK_HASH_ACTIVATION_EPOCH", "18446744073709551615"),
    ("MIN_GENESIS_ACTIVE_VALIDATOR_COUNT", "16384"),
    ("SECONDS_PER_SLOT", "12"),
    ("SECONDS_PER_ETH1_BLOCK", "14"),
    ("MIN_VALIDATOR_WITHDRAWABILITY_DELAY", "256"),
    ("SHARD_COMMITTEE_PERIOD", "256"),
    ("ETH1_FOLLOW_DISTANCE", "2048"),
    ("INACTIVITY_SCORE_BIAS", "4"),
    ("INACTIVITY_SCORE_RECOVERY_RATE", "16"),
    ("EJECTION_BALANCE", "16000000000"),
    ("MIN_PER_EPOCH_CHURN_LIMIT", "4"),
    ("MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT", "8"),
    ("CHURN_LIMIT_QUOTIENT", "65536"),
    ("MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA", "128000000000"),
    ("MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT", "256000000000"),
    ("PROPOSER_SCORE_BOOST", "40"),
];
static PUBLISHED: &[Published] = &[
    Published {
        name: "mainnet",
        genesis_time: Some(1606824023),
        forks: [(0, 0), (0x01000000, 74240), (0x02000000, 144896), (0x03000000, 194048), (0x04000000, 269568), (0x05000000, FAR)],
        rest: &[
            ("MIN_GENESIS_TIME", "1606824000"),
            ("GENESIS_DELAY", "604800"),
            ("TERMINAL_TOTAL_DIFFICULTY", "58750000000000000000000"),
            ("DEPOSIT_CHAIN_ID", "1"),
            ("DEPOSIT_NETWORK_ID", "1"),
            ("DEPOSIT_CONTRACT_ADDRESS", "0x00000000219ab540356cbb839cbe05303d7705fa"),
        ],
    },
    Published {
        name: "goerli",
        genesis_time: Some(1616508000),
        forks: [(0x1020, 0), (0x01001020, 36660), (0x02001020, 112260), (0x03001020, 162304), (0x04001020, 231680), (0x05001020, FAR)],
        rest: &[
            ("MIN_GENESIS_TIME", "1614588812"),
            ("GENESIS_DELAY", "1919188"),
            ("TERMINAL_TOTAL_DIFFICULTY", "10790000"),
            ("DEPOSIT_CHAIN_ID", "5"),
            ("DEPOSIT_NETWORK_ID", "5"),
            ("DEPOSIT_CONTRACT_ADDRESS", "0xff50ed3d0ec03ac01d4c79aad74928bff48a7b2b"),
        ],
    },
    Published {
        name: "sepolia",
        genesis_time: Some(1655733600),
        forks: [(0x90000069, 0), (0x90000070, 50), (0x90000071, 100), (0x90000072, 56832), (0x90000073, 132608), (0x90000074, FAR)],
        rest: &[
            ("MIN_GENESIS_TIME", "1655647200"),
            ("GENESIS_DELAY", "86400"),
            ("MIN_GENESIS_ACTIVE_VALIDATOR_COUNT", "1300"),
            ("TERMINAL_TOTAL_DIFFICULTY", "17000000000000000"),
            ("DEPOSIT_CHAIN_ID", "11155111"),
            ("DEPOSIT_NETWORK_ID", "11155111"),
            ("DEPOSIT_CONTRACT_ADDRESS", "0x7f02c3e3c98b133055b8b348b2ac625669ed295d"),
        ],
    },
    Published {
        name: "holesky",
        genesis_time: Some(1695902400),
        forks: [(0x01017000, 0), (0x02017000, 0), (0x03017000, 0), (0x04017000, 256), (0x05017000, 29696), (0x06017000, FAR)],
        rest: &[
            ("MIN_GENESIS_TIME", "1695902100"),
            ("GENESIS_DELAY", "300"),
            ("EJECTION_BALANCE", "28000000000"),
            ("TERMINAL_TOTAL_DIFFICULTY", "0"),
            ("DEPOSIT_CHAIN_ID", "17000"),
            ("DEPOSIT_NETWORK_ID", "17000"),
            ("DEPOSIT_CONTRACT_ADDRESS", "0x4242424242424242424242424242424242424242"),
        ],
    },
    Published {
        name: "hoodi",
        genesis_time: None,
        forks: [(0x10000910, 0), (0x20000910, 0), (0x30000910, 0), (0x40000910, 0), (0x50000910, 0), (0x60000910, 2048)],
        rest: &[
            ("MIN_GENESIS_TIME", "1742212800"),
            ("GENESIS_DELAY", "600"),
            ("SECONDS_PER_ETH1_BLOCK", "12"),
            ("TERMINAL_TOTAL_DIFFICULTY", "0"),
            ("DEPOSIT_CHAIN_ID", "560048"),
            ("DEPOSIT_NETWORK_ID", "560048"),
            ("DEPOSIT_CONTRACT_ADDRESS", "0x00000000219ab540356cbb839cbe05303d7705fa"),
        ],
    },
    Published {
        name: "minimal",
        genesis_time: None,
        forks: [(1, 0), (0x01000001, FAR), (0x02000001, FAR), (0x03000001, FAR), (0x04000001, FAR), (0x05000001, FAR)],
        rest: &[
            ("MIN_GENESIS_TIME", "1578009600"),
            ("GENESIS_DELAY", "300"),
            ("MIN_GENESIS_ACTIVE_VALIDATOR_COUNT", "64"),
            ("SECONDS_PER_SLOT", "6"),
            ("SHARD_COMMITTEE_PERIOD", "64"),
            ("ETH1_FOLLOW_DISTANCE", "16"),
            ("MIN_PER_EPOCH_CHURN_LIMIT", "2"),
            ("MAX_PER_EPOCH_ACTIVATION_CHURN_LIMIT", "4"),
            ("CHURN_LIMIT_QUOTIENT", "32"),
            ("MIN_PER_EPOCH_CHURN_LIMIT_ELECTRA", "64000000000"),
            ("MAX_PER_EPOCH_ACTIVATION_EXIT_CHURN_LIMIT", "128000000000"),
            ("TERMINAL_TOTAL_DIFFICULTY", "115792089237316195423570985008687907853269984665640564039457584007913129638912"),
            ("DEPOSIT_CHAIN_ID", "5"),
            ("DEPOSIT_NETWORK_ID", "5"),
            ("DEPOSIT_CONTRACT_ADDRESS", "0x1234567890123456789012345678901234567890"),
        ],
    },
];
const NAMES: [&str; 6] = ["GENESIS", "ALTAIR", "BELLATRIX", "CAPELLA", "DENEB", "ELECTRA"];
impl Published {
    fn conf(&self) -> Conf {
        KEYS.iter()
            .map(|k| {
                let f = NAMES.iter().position(|n| k.starts_with(&format!("{n}_FORK")));
                let v = match f {
                    Some(i) if k.ends_with("VERSION") => hx(self.forks[i].0.to_be_bytes()),
                    Some(i) => self.forks[i].1.to_string(),
                    None => self.rest.iter().chain(COMMON).find(|(n, _)| n == k).unwrap().1.to_string(),
                };
                (*k, v)
            })
            .collect()
    }
}
fn idx(f: RealFork) -> u8 {
    f as u8
}
fn real_fork(k: u8) -> RealFork {
    [RealFork::Phase0, RealFork::Altair, RealFork::Bellatrix, RealFork::Capella, RealFork::Deneb, RealFork::Electra][k as usize]
}
/// the schedule: the last fork whose epoch has come
fn active(forks: &[(u32, u64); 6], epoch: u64) -> u8 {
    (0..6).rev().find(|k| *k == 0 || forks[*k].1 != FAR && forks[*k].1 <= epoch).unwrap() as u8
}
/// walk the time line of a network, asking which fork is active
fn walk(sim: &mut Sim, c: &Context, forks: &[(u32, u64); 6], spe: u64, name: &str) {
    for _ in 0..2 + sim.choose(6) {
        let r = &mut Sub::new(sim);
        let k = 1 + r.below(5) as usize;
        let e = if forks[k].1 == FAR { r.below(1 << 20) } else { forks[k].1 };
        let at = e.saturating_mul(spe);
        let slot = match r.below(8) {
            0 => at.saturating_sub(1),
            1 | 2 => at,
            3 => at + spe - 1,
            4 => at.saturating_sub(spe),
            5 => at.saturating_add(r.below(100_000)),
            6 => r.below(20_000_000),
            _ => u64::MAX / 2 - r.below(1 << 40),
        };
        let want = active(forks, slot / spe);
        sim.probe("asked the active fork");
        match real(|| Ok((idx(c.fork_for(slot)), c.fork_version_for(c.fork_for(slot))))) {
            Real::Ok((f, v)) if f == want && v == forks[f as usize].0.to_be_bytes() => {}
            Real::Ok((f, v)) => report(sim, OWN, "active fork", format!("{name}, slot {slot}: fork {f} version {v:02x?} instead of fork {want} version {:08x}", forks[want as usize].0)),
            x => report(sim, OWN, "active fork", format!("{name}, slot {slot}: {}", x.what())),
        }
        sim.state(simkit::hash_bytes(name.as_bytes()) ^ slot ^ (want as u64) << 60);
        sim.log(format!("{name} slot {slot}: fork {want}"));
    }
    for k in 0..6u8 {
        let v = c.fork_version_for(real_fork(k));
        if v != forks[k as usize].0.to_be_bytes() {
            report(sim, OWN, "fork version", format!("{name}: fork {k} has version {v:02x?} instead of {:08x}", forks[k as usize].0));
        }
    }
}
fn presets(c: &Context, p: &Params) -> Option<String> {
    macro_rules! eq { ($($a:ident $b:ident)*) => { $(if c.$b as u64 != p.$a { return Some(format!("{} is {} instead of {}", stringify!($b), c.$b, p.$a)); })* } }
    eq!(spe slots_per_epoch max_eb max_effective_balance max_deposits max_deposits max_attestations max_attestations epsv epochs_per_slashings_vector sync_size sync_committee_size max_withdrawals max_withdrawals_per_payload max_commitments max_blob_commitments_per_block);
    None
}
fn published(sim: &mut Sim) {
    let n = sim.pick(PUBLISHED);
    let net = Network::from(n.name.to_string());
    let c = if n.name == "minimal" {
        Real::Ok(Context::for_minimal())
    } else if sim.chance(1, 2) {
        real(|| Context::try_from(net.clone()).map_err(|e| format!("{e:?}")))
    } else {
        real(|| {
            Ok(match n.name {
                "mainnet" => Context::for_mainnet(),
                "goerli" => Context::for_goerli(),
                "sepolia" => Context::for_sepolia(),
                "holesky" => Context::for_holesky(),
                _ => Context::for_hoodi(),
            })
        })
    };
    let c = match c {
        Real::Ok(c) => c,
        x => return report(sim, OWN, "supported network", format!("{}: {}", n.name, x.what())),
    };
    for (k, v) in n.conf() {
        let got = held(&c, k);
        if got != v {
            report(sim, OWN, "published parameter", format!("{}: {k} is {got} instead of {v}", n.name));
        }
    }
    let mainnet = n.name != "minimal";
    if let Some(e) = presets(&c, &if mainnet { Params::mainnet() } else { Params::minimal() }) {
        report(sim, OWN, "published parameter", format!("{}: {e}", n.name));
    }
    if mainnet {
        if c.name != net || net.to_string() != n.name {
            report(sim, OWN, "network name", format!("{} is called {} and its configuration {}", n.name, net, c.name));
        }
        let t = real(|| c.genesis_time().map_err(|e| format!("{e:?}")));
        match (n.genesis_time, t) {
            (Some(t), Real::Ok(x)) if x == t => {}
            (None, Real::Err(_)) => {}
            (None, Real::Ok(x)) if x == c.min_genesis_time + c.genesis_delay => {}
            (t, x) => report(sim, &["C10", "T01"], "genesis time", format!("{}: {} ({}) instead of {t:?}", n.name, x.what(), if let Real::Ok(y) = &x { *y } else { 0 })),
        }
    }
    let t = ethereum_consensus::networks::typical_genesis_time(&c);
    if t != c.min_genesis_time + c.genesis_delay {
        report(sim, OWN, "genesis time", format!("{}: typically {t}", n.name));
    }
    named(sim, net);
    walk(sim, &c, &n.forks, if mainnet { 32 } else { 8 }, n.name);
    sim.nontrivial = true;
}
/// a network written down in a node's settings and read again after a restart
fn named(sim: &mut Sim, net: Network) {
    let back = match sim.choose(3) {
        0 => real(|| Ok(Network::from(String::from(net.clone())))),
        1 => real(|| serde_json::to_string(&net).and_then(|t| serde_json::from_str(&t)).map_err(|e| e.to_string())),
        _ => real(|| serde_json::to_value(&net).and_then(serde_json::from_value).map_err(|e| e.to_string())),
    };
    match back {
        Real::Ok(b) if b == net => sim.probe("network named"),
        Real::Ok(b) => report(sim, OWN, "network name", format!("{net:?} is read again as {b:?}")),
        x => report(sim, OWN, "network name", format!("{net:?} is not read again: {}", x.what())),
    }
}
fn drawn(sim: &mut Sim) -> (bool, [(u32, u64); 6]) {
    let r = &mut Sub::new(sim);
    let mut f = [(0u32, 0u64); 6];
    let mut e = 0;
    for (k, x) in f.iter_mut().enumerate() {
        if k > 0 {
            e = match r.below(6) {
                0 | 1 => e,
                2 => FAR,
                _ if e == FAR => FAR,
                3 => e + 1,
                4 => e + r.below(10),
                _ => e + r.below(100_000),
            };
        }
        *x = ((k as u32) << 24 | r.below(1 << 24) as u32, e);
    }
    (r.one_in(2), f)
}
fn custom(sim: &mut Sim) {
    let (mainnet, forks) = drawn(sim);
    let r = &mut Sub::new(sim);
    // every value its own
    let mut conf: Conf = vec![];
    for (i, k) in KEYS.iter().enumerate() {
        let f = NAMES.iter().position(|n| k.starts_with(&format!("{n}_FORK")));
        let v = match (f, *k) {
            (Some(i), k) if k.ends_with("VERSION") => hx(forks[i].0.to_be_bytes()),
            (Some(i), _) => forks[i].1.to_string(),
            (_, "TERMINAL_BLOCK_HASH") => hx(r.root()),
            (_, "DEPOSIT_CONTRACT_ADDRESS") => hx(&r.root()[..20]),
            (_, "TERMINAL_TOTAL_DIFFICULTY") => (r.below(1 << 40) as u128 * r.below(1 << 40) as u128).to_string(),
            _ => (1000 * (i as u64 + 1) + r.below(999)).to_string(),
        };
        conf.push((k, v));
    }
    let dir = std::env::temp_dir().join(format!("beaconsim-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join("config.yaml");
    let mut order: Vec<usize> = (0..conf.len()).collect();
    sim.shuffle(&mut order);
    let mut text = format!("# a devnet\nPRESET_BASE: '{}'\nCONFIG_NAME: 'devnet'\n", if mainnet { "mainnet" } else { "minimal" });
    for i in order {
        let (k, v) = &conf[i];
        let q = if *k == "TERMINAL_TOTAL_DIFFICULTY" { format!("\"{v}\"") } else { v.clone() };
        if sim.chance(1, 6) {
            text += "\n# comment\n";
        }
        text += &format!("{k}: {q}\n");
    }
    for attempt in 0..2 {
        // the first read may meet a damaged file; the second finds it restored
        let mut t = text.clone();
        let mut broken = None;
        if attempt == 0 {
            let lines: Vec<&str> = text.lines().collect();
            match sim.choose(9) {
                0 => {
                    let at = text.find("PRESET_BASE").unwrap() + sim.choose((text.len() - 60) as u64) as usize;
                    t.truncate(at.min(text.len() - 60));
                    broken = Some("file torn");
                }
                1 => {
                    let k = sim.choose(lines.len() as u64) as usize;
                    if lines[k].contains(": ") {
                        t = lines.iter().enumerate().filter(|(i, _)| *i != k).map(|(_, l)| format!("{l}\n")).collect();
                        broken = Some("line lost");
                    }
                }
                2 => {
                    t = text.replace("PRESET_BASE: 'm", "PRESET_BASE: 'n");
                    broken = Some("unknown preset");
                }
                3 => {
                    t = text.replacen("_VERSION: 0x", "_VERSION: 0x00", 1);
                    broken = Some("version too long");
                }
                4 => {
                    t = text.replacen("_EPOCH: ", "_EPOCH: x", 1);
                    broken = Some("epoch not a number");
                }
                5 => broken = Some("file missing"),
                _ => {}
            }
        }
        if broken == Some("file missing") {
            let _ = std::fs::remove_file(&file);
        } else if std::fs::write(&file, &t).is_err() {
            sim.probe("scratch directory refused");
            break;
        }
        if let Some(b) = broken {
            sim.count_fault(&format!("configuration: {b}"));
        }
        let by_name = sim.chance(1, 2);
        let got = real(|| {
            if by_name {
                Context::try_from(Network::from(dir.display().to_string())).map_err(|e| format!("{e:?}"))
            } else {
                Context::try_from_file(&file).map_err(|e| format!("{e:?}"))
            }
        });
        match (broken, got) {
            (Some(_), Real::Err(_)) => sim.probe("damaged configuration refused"),
            (Some(b), x) => {
                report(sim, OWN, "damaged configuration", format!("{b}: {}", x.what()));
            }
            (None, Real::Ok(c)) => {
                for (k, v) in &conf {
                    let got = held(&c, k);
                    if got != *v {
                        report(sim, OWN, "configured parameter", format!("{k} is {got} instead of {v}"));
                    }
                }
                if let Some(e) = presets(&c, &if mainnet { Params::mainnet() } else { Params::minimal() }) {
                    report(sim, OWN, "configured parameter", e);
                }
                let k = sim.choose(1000);
                named(sim, Network::from(format!("/srv/devnet-{k}")));
                walk(sim, &c, &forks, if mainnet { 32 } else { 8 }, "devnet");
                sim.probe("configuration read");
                sim.nontrivial = true;
            }
            (None, x) => report(sim, OWN, "configuration refused", x.what()),
        }
        if sim.found() {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
pub fn run(sim: &mut Sim, _: &Flavour) {
    for _ in 0..1 + sim.choose(3) {
        if sim.chance(1, 2) {
            published(sim);
        } else {
            custom(sim);
        }
    }
    let _ = Phase0;
}
