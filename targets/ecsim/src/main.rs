//! E01, E02: the `ec` command line tool under simulated I/O, worker schedules and randomness.
mod blobsim;
mod keysim;
mod stdio;

include!(concat!(env!("OUT_DIR"), "/ec.rs"));

use simkit::Target;

#[allow(clippy::all)]
fn main() {
    let property = simkit::arg("--property").expect("--property");
    stdio::assert_seams();
    let io = property == "E01";
    assert!(io || property == "E02");
    if !io {
        keysim::self_test();
    }
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    simkit::main_for(Target {
        name: "ecsim",
        property,
        run: if io { Box::new(blobsim::run) } else { Box::new(keysim::run) },
        rule: if io { "each run draws a payload, framing and I/O behaviour for library calls or a whole command; non-trivial: every run" } else { "each run draws phrases, ranges, worker schedules and random sources; non-trivial: every run" }.into(),
        state_measure: if io { "distinct (payload size, framing) pairs, damage kinds and commands" } else { "distinct (key count, magnitude of index) pairs and random sources" }.into(),
        real: s(&["the ec binary: clap arguments, blobs and validator commands", "ethereum_consensus crypto and kzg wrappers", "bip39, uuid, bitvec, serde_json"]),
        stubs: s(&[
            "standard input and output (read/write of fds 0 and 1), io::Read, io::Write: simulated",
            "rayon: seeded single-threaded schedule of tasks",
            "getrandom: seeded, stuck, short or failing",
            "blst, c-kzg, aes, ctr, hkdf, scrypt, ruint: stand-ins, checked against published vectors; scrypt with 2^11 times fewer rounds except in one of 400 runs",
        ]),
        assumptions: s(&["tasks of the worker pool are atomic: the tool's tasks share nothing they write"]),
        required_probes: if io {
            s(&["blobs hold the payload", "decoded", "refused", "read error reported", "write error reported", "bundle checked", "command run"])
        } else {
            s(&["key derived", "keystore opened", "wrong passphrase refused", "mnemonic generated", "seed recovered", "damaged words refused", "command run", "no keystore without randomness"])
        },
        quick_s: 25.0,
        thorough_s: 780.0,
        min_runs: 60,
        max_runs_quick: 100_000,
    })
}
