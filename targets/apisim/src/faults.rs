//! What goes wrong between the client and the node, and what the caller may see of it.
use crate::{
    calls::Call,
    good,
    json::J,
    schema::{s, text, LATE, T},
    Reply, Want, World,
};
use reqwest::sim::{BodyEvent, SimError, SimResponse};
use simkit::{Rng, Sim};
use std::time::Duration;

pub fn health(sim: &mut Sim) -> (Reply, Want, String) {
    let st = *sim.pick(&[200u16, 206, 503, 400, 500]);
    let what = match st {
        200 => "ready",
        206 => "syncing",
        503 => "not initialized",
        _ => "unknown",
    };
    let mut r = good(sim, None, false, true, true);
    if let Ok(x) = &mut r.what {
        x.status = st;
    }
    (r, Want::Value(crate::calls::Got::Json(s(what))), String::new())
}

/// the error document of the API
fn api_error(sim: &mut Sim, status: u16) -> (J, J) {
    let mut r = Rng::new(sim.bits64());
    let n = |x: u64| J::Num(x.to_string());
    let mut f =
        vec![("code".to_string(), n(status as u64)), ("message".to_string(), J::Str(text(&mut r)))];
    if sim.chance(1, 3) {
        let k = sim.choose(4);
        f.push((
            "failures".into(),
            J::Arr(
                (0..k)
                    .map(|i| {
                        J::Obj(vec![
                            ("index".into(), n(i + r.below(9))),
                            ("message".into(), J::Str(text(&mut r))),
                        ])
                    })
                    .collect(),
            ),
        ));
    }
    let carried = J::Obj(f.clone());
    if sim.chance(1, 3) {
        f.push(("stacktraces".into(), J::Arr(vec![s("at line 1"), s("at line 2")])));
    }
    (J::Obj(f), carried)
}

fn respond(sim: &mut Sim, status: u16, text: &[u8]) -> Reply {
    let body = crate::deliver(sim, text, true);
    Reply {
        delay_ms: sim.choose(900),
        what: Ok(SimResponse {
            status,
            headers: vec![("content-type".into(), "application/json".into())],
            body,
        }),
    }
}
const ERRORS: [u16; 12] = [400, 401, 403, 404, 405, 406, 415, 429, 500, 501, 502, 503];

/// a document that no longer has the shape: (where, what it became, whether only a later fork's
/// part suffers)
fn damage(sim: &mut Sim, doc: &J, shape: &T, data_path: &[usize]) -> Option<(J, String, bool)> {
    // all places, with the shape each must have
    let mut places: Vec<(Vec<usize>, T, bool, bool)> = vec![];
    fn walk(
        t: &T,
        j: &J,
        path: &mut Vec<usize>,
        late: bool,
        root: bool,
        out: &mut Vec<(Vec<usize>, T, bool, bool)>,
    ) {
        let t = if let T::Opt(t) = t { t } else { t };
        out.push((path.clone(), t.clone(), late, !root));
        match (t, j) {
            (T::List(e, _), J::Arr(v)) => {
                for (i, x) in v.iter().enumerate() {
                    path.push(i);
                    walk(e, x, path, late, true, out);
                    path.pop();
                }
            }
            // vectors of a state are long: a few elements do
            (T::Vector(e, _), J::Arr(v)) => {
                for i in [0, v.len() / 2, v.len().saturating_sub(1)] {
                    if i < v.len() {
                        path.push(i);
                        walk(e, &v[i], path, late, true, out);
                        path.pop();
                    }
                }
            }
            (T::Obj(f), J::Obj(v)) => {
                for (i, (k, x)) in v.iter().enumerate() {
                    // carried along untyped by the client
                    if k == "execution_optimistic" {
                        continue;
                    }
                    let Some((_, ft)) = f.iter().find(|(n, _)| n == k) else { continue };
                    path.push(i);
                    walk(
                        ft,
                        x,
                        path,
                        late || LATE.contains(&k.as_str()),
                        matches!(ft, T::Opt(_)),
                        out,
                    );
                    path.pop();
                }
            }
            _ => {}
        }
    }
    let mut doc = doc.clone();
    let mut path = data_path.to_vec();
    let data = doc.at(data_path).clone();
    walk(shape, &data, &mut path, false, true, &mut places);
    let (path, t, late, member) = places[sim.choose(places.len() as u64) as usize].clone();
    // drop a member that must be there
    if member && sim.chance(1, 3) {
        let (last, parent) = path.split_last().unwrap();
        if let J::Obj(v) = doc.at(parent) {
            let k = v.remove(*last).0;
            return Some((doc, format!("{k} missing"), late));
        }
        return None;
    }
    let node = doc.at(&path);
    let old = node.clone();
    let junk = |sim: &mut Sim| -> J {
        sim.pick(&[
            J::Null,
            J::Obj(vec![]),
            J::Arr(vec![]),
            J::Bool(true),
            J::Num("-1".into()),
            J::Num("1.5".into()),
            J::Str("zz".into()),
        ])
        .clone()
    };
    let (new, what) = match (&t, &old) {
        (T::U64 | T::U8 | T::U256, J::Str(_)) => {
            let mut bad = vec![
                "",
                "-1",
                "1.5",
                "abc",
                "0x10",
                "1e3",
                " 1",
                "1 ",
                "1_000",
                "115792089237316195423570985008687907853269984665640564039457584007913129639936",
            ];
            match t {
                T::U64 => bad.push("18446744073709551616"),
                T::U8 => bad.extend(["256", "18446744073709551615"]),
                _ => {}
            }
            if matches!(t, T::U256) {
                // other spellings of a 256 bit integer are left open
                bad = vec!["abc", "-1", "115792089237316195423570985008687907853269984665640564039457584007913129639936"];
            }
            if sim.chance(1, 3) {
                (
                    sim.pick(&[
                        J::Null,
                        J::Obj(vec![]),
                        J::Arr(vec![]),
                        J::Bool(true),
                        J::Num("1.5".into()),
                        J::Num("-1".into()),
                    ])
                    .clone(),
                    "an integer became something else",
                )
            } else {
                (s(sim.pick(&bad)), "an integer became unreadable")
            }
        }
        (T::Bool, _) => (
            sim.pick(&[J::Null, s("true"), J::Num("1".into()), J::Arr(vec![]), J::Obj(vec![])])
                .clone(),
            "a boolean became something else",
        ),
        (T::Hex(n), J::Str(x)) => match sim.choose(5) {
            0 => (s(&x[..x.len() - 2]), "bytes one short"),
            1 => (s(format!("{x}00")), "bytes one long"),
            2 => (s(&x[..x.len() - 1]), "half a byte lost"),
            3 if *n > 0 => {
                let at = 2 + sim.choose(2 * *n as u64) as usize;
                let mut y = x.clone().into_bytes();
                y[at] = b'g';
                (s(String::from_utf8(y).unwrap()), "a digit that is none")
            }
            _ => (
                sim.pick(&[
                    J::Null,
                    J::Num("7".into()),
                    J::Obj(vec![]),
                    J::Arr(vec![]),
                    J::Bool(false),
                ])
                .clone(),
                "bytes became something else",
            ),
        },
        (T::HexList(max), J::Str(x)) => match sim.choose(3) {
            0 if *max <= 32 => (s(format!("0x{}", "ab".repeat(max + 1))), "too many bytes"),
            1 => (s(format!("{x}0")), "half a byte"),
            _ => (
                sim.pick(&[J::Null, J::Num("7".into()), J::Obj(vec![]), J::Bool(false)]).clone(),
                "bytes became something else",
            ),
        },
        (T::Bits(_), J::Str(x)) => match sim.choose(2) {
            0 => (s(format!("{x}00")), "bits too long"),
            _ => (J::Null, "bits became something else"),
        },
        (T::Bitlist(_), J::Str(_)) => match sim.choose(3) {
            0 => (s("0x"), "bits without end marker"),
            1 => (s("0x00"), "bits without end marker"),
            _ => (J::Null, "bits became something else"),
        },
        (T::List(e, max), J::Arr(v)) => {
            if *max <= 16 &&
                sim.property == "A02" &&
                !v.is_empty() &&
                matches!(**e, T::Obj(_)) &&
                member
            {
                // beyond the type's limit: only lists inside consensus objects have one
                (J::Arr(vec![v[0].clone(); max + 1]), "more elements than the type holds")
            } else if *max == 1 && sim.chance(1, 2) {
                // one header was asked for
                (J::Arr(vec![]), "nothing in the list")
            } else {
                (
                    sim.pick(&[J::Null, s("[]"), J::Num("0".into()), J::Bool(true)]).clone(),
                    "a list became something else",
                )
            }
        }
        (T::Vector(_, _), J::Arr(v)) => {
            let mut v = v.clone();
            if sim.chance(1, 2) {
                v.pop();
            } else {
                v.push(v[0].clone());
            }
            (J::Arr(v), "a vector of another length")
        }
        (T::Obj(_), J::Obj(_)) => (
            sim.pick(&[J::Null, s("{}"), J::Num("0".into()), J::Obj(vec![]), J::Arr(vec![])])
                .clone(),
            "an object became something else",
        ),
        (T::Enum(_), _) => (
            sim.pick(&[s("bogus"), s(""), J::Null, J::Num("0".into())]).clone(),
            "a word that is none of the known",
        ),
        (T::Text | T::Enr | T::Multiaddr | T::PeerId, J::Str(_)) => (
            sim.pick(&[J::Null, J::Num("0".into()), J::Obj(vec![]), J::Arr(vec![])]).clone(),
            "a text became something else",
        ),
        _ => (junk(sim), "something else"),
    };
    // objects without members and the like may be what they were
    if new == old {
        return None;
    }
    *node = new;
    Some((doc, what.to_string(), late))
}

pub fn plan<C>(sim: &mut Sim, w: &World, c: &Call<C>) -> (Reply, Want, String) {
    let is_health = c.name == "get_health";
    let good_text = c.doc.as_ref().map(|d| d.compact());
    loop {
        let (reply, want, why): (Reply, Want, &str) = match sim.choose(14) {
            0 => (
                Reply { delay_ms: sim.choose(50), what: Err(SimError::Refused) },
                Want::Error,
                "connection refused",
            ),
            1 => (
                Reply { delay_ms: sim.choose(2000), what: Err(SimError::Reset) },
                Want::Error,
                "connection reset",
            ),
            2 => (
                Reply { delay_ms: sim.choose(2000), what: Err(SimError::Timeout) },
                Want::Error,
                "timed out",
            ),
            3 => {
                let Some(t) = w.timeout else { continue };
                let mut r = good(sim, c.doc.as_ref(), c.post, is_health, false);
                r.delay_ms = t + 1 + sim.choose(5000);
                (r, Want::Error, "no answer in time")
            }
            4 | 5 if !is_health => {
                let st = *sim.pick(&ERRORS);
                let (doc, carried) = api_error(sim, st);
                (
                    respond(sim, st, doc.compact().as_bytes()),
                    Want::Server(carried),
                    "error document",
                )
            }
            6 if !is_health => {
                let st = *sim.pick(&ERRORS);
                let junk = sim
                    .pick(&[
                        "",
                        "<html><body>Bad Gateway</body></html>",
                        "upstream connect error",
                        "null",
                        "[]",
                        "{}",
                        "\u{feff}{}",
                        "{\"message\":\"no code\"}",
                        "{\"code\":\"500\",\"message\":7}",
                    ])
                    .to_string();
                (
                    respond(sim, st, junk.as_bytes()),
                    Want::Error,
                    "error status without an error document",
                )
            }
            7 => {
                // an error status over a body that reads like success
                let Some(t) = &good_text else { continue };
                let st = *sim.pick(&ERRORS);
                (respond(sim, st, t.as_bytes()), Want::Error, "error status over a good document")
            }
            // the rest needs a body that matters
            8 => {
                let Some(t) = &good_text else { continue };
                let k = sim.choose(t.len() as u64) as usize;
                (respond(sim, 200, &t.as_bytes()[..k]), Want::Error, "answer cut short")
            }
            9 => {
                let Some(t) = &good_text else { continue };
                let k = sim.choose(t.len() as u64 + 1) as usize;
                let mut r = respond(sim, 200, &t.as_bytes()[..k]);
                let ev = match sim.choose(3) {
                    0 => BodyEvent::Reset,
                    1 => BodyEvent::Truncated,
                    _ => match w.timeout {
                        Some(t) => BodyEvent::Wait(Duration::from_millis(t + 1)),
                        None => BodyEvent::Reset,
                    },
                };
                if let Ok(x) = &mut r.what {
                    x.body.push(ev);
                }
                (r, Want::Error, "broken off inside the answer")
            }
            10 => {
                let Some(t) = &good_text else { continue };
                let tail = *sim.pick(&["x", "}", "]", "{}", "\0", ",", "\"", "null"]);
                (
                    respond(sim, 200, format!("{t}{tail}").as_bytes()),
                    Want::Error,
                    "garbage after the answer",
                )
            }
            11 => {
                let Some(_) = &good_text else { continue };
                let junk = sim
                    .pick(&[
                        "",
                        "null",
                        "true",
                        "7",
                        "\"ok\"",
                        "[7]",
                        "{}",
                        "{\"data\":null}",
                        "{\"datum\":{}}",
                        "<html>",
                        "{\"code\":500,\"message\":\"oops\"}",
                        "{\"data\":7,\"version\":\"deneb\"}",
                    ])
                    .to_string();
                (respond(sim, 200, junk.as_bytes()), Want::Error, "another document")
            }
            12 | 13 => {
                let (Some(d), Some(shape)) = (&c.doc, &c.shape) else { continue };
                let at: Vec<usize> = match d {
                    J::Obj(v) => vec![v.iter().position(|x| x.0 == "data").unwrap()],
                    _ => vec![],
                };
                let Some((d, what, late)) = damage(sim, d, shape, &at) else { continue };
                let t = d.compact();
                let reply = respond(sim, 200, t.as_bytes());
                sim.count_fault("damaged answer");
                let want =
                    if c.poly && late { Want::ErrorOr("older-fork-accepted") } else { Want::Error };
                return (reply, want, format!("damaged: {what}"));
            }
            _ => continue,
        };
        sim.count_fault(why);
        return (reply, want, why.to_string());
    }
}
