//! C11: frozen vehicles.

use super::Prop;
use crate::chain::{self, *};
use crate::crowd::{self, Crowd};
use crate::gens;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        title: "A frozen vehicle brakes to a stop and stays until it is released",
        assumptions: &["accelerations are updated at least every 0.1 s plus one time step"],
        parts: || {
            vec![Box::new(Part {
                name: "road",
                rule: "histories of arrivals, freezes, releases, removals and closures on a chain of links; non-trivial if a moving vehicle was frozen for as long as it takes to stop",
                quick: 100_000,
                thorough: 3_000_000,
                strategy: road,
                check,
            }),
            Box::new(Part {
                name: "others",
                rule: "the same traffic with and without one vehicle being frozen for a while; non-trivial if it was moving and a vehicle ahead of it was still on the road when it had stopped",
                quick: 60_000,
                thorough: 2_000_000,
                strategy: others,
                check: check_others,
            }),
            Box::new(Part {
                name: "crowd",
                rule: "many vehicles on up to 23 roads, several of them added, removed, frozen and released at a time; non-trivial if at least four stood frozen at the same time",
                quick: 20_000,
                thorough: 600_000,
                strategy: crowd::case,
                check: check_crowd,
            })]
        },
    }
}

fn road() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(4, (30.0, 200.0), (6.0, 35.0)),
        Weights {
            arrive: 5,
            freeze: 6,
            remove: 1,
            close: 1,
            dt: 1,
            randomise: 0,
        },
        20,
        250,
    )
}

#[derive(Clone, Copy)]
struct Track {
    since: f64,
    vel: f64,
}

fn check(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    let mut frozen: HashMap<usize, Track> = HashMap::new();
    // Vehicles released, with when and how long they have had nothing in front of them.
    let mut released: HashMap<usize, f64> = HashMap::new();
    let mut longest = 0.0f64;
    drive(c, |x| {
        let start = x.w.time - x.dt;
        for v in frozen.keys() {
            if !x.frozen.contains(v) {
                released.insert(*v, start);
            }
        }
        frozen.retain(|v, _| x.frozen.contains(v));
        for v in x.frozen {
            released.remove(v);
            let a = x.prev.get(*v).unwrap();
            frozen.entry(*v).or_insert(Track {
                since: start,
                vel: a.vel,
            });
        }
        longest = longest.max(x.dt);
        let grace = 0.1 + longest + 1e-6;
        for (v, t) in &frozen {
            let (Some(a), Some(b)) = (x.prev.get(*v), x.next.get(*v)) else {
                continue;
            };
            let elapsed = x.w.time - t.since;
            if start - t.since >= grace - 1e-6 {
                // Braking as hard as it can: nothing less, nothing more
                let want = (a.vel - MAX_BRAKE * x.dt).max(0.0);
                if (b.vel - want).abs() > 1e-6 {
                    return Err(format!(
                        "vehicle {v}, frozen for {elapsed:.2} s, goes from {} to {} m/s in {} s",
                        a.vel, b.vel, x.dt
                    ));
                }
                if a.vel == 0.0 && (x.s(b) - x.s(a)).abs() > 1e-9 {
                    return Err(format!("vehicle {v} moves while frozen and stopped"));
                }
                if t.vel > 1.0 && b.vel == 0.0 {
                    o.nontrivial();
                }
            }
            // Whatever happens, it is stopped soon enough
            if elapsed > t.vel / MAX_BRAKE + 2.0 * grace + x.w.vehs[*v].p.max_acc * grace
                && b.vel > 1e-6
            {
                return Err(format!("vehicle {v} still moves {elapsed:.2} s after the freeze"));
            }
            if !x.w_frozen(*v) {
                return Err(format!("vehicle {v} is not reported as frozen"));
            }
        }
        for b in &x.next.vehs {
            if x.w_frozen(b.v) && !frozen.contains_key(&b.v) {
                return Err(format!("vehicle {} is reported as frozen but should not be", b.v));
            }
        }
        // A vehicle that is free again, with nothing in front of it, sets off.
        let front = x.order().first().copied();
        released.retain(|v, _| x.next.get(*v).is_some());
        for (v, since) in released.iter_mut() {
            if x.w_frozen(*v) {
                return Err(format!("vehicle {v} is reported as frozen after its release"));
            }
            let b = x.next.get(*v).unwrap();
            let p = &x.w.vehs[*v].p;
            let room = x
                .closed
                .iter()
                .enumerate()
                .filter(|(l, cl)| **cl && *l > b.link)
                .map(|(l, _)| x.base[l])
                .next()
                .unwrap_or(f64::INFINITY);
            let room = if c.with_dest {
                room
            } else {
                room.min(x.base[b.link] + x.w.len[b.link])
            };
            let clear = front == Some(*v) && room - x.s(b) > 0.5 * p.length + 15.0;
            if !clear {
                *since = x.w.time;
            } else if x.w.time - *since > 0.5 + 2.0 * grace {
                o.label("sets off after release");
                if b.vel < 0.05 {
                    return Err(format!(
                        "vehicle {v} does not move {:.2} s after its release",
                        x.w.time - *since
                    ));
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Others {
    chain: gens::ChainSpec,
    vehs: Vec<VehP>,
    /// Steps between one arrival and the next attempt
    wait: u8,
    dt: f64,
    /// Which vehicle is frozen, and steps until then and until it is released
    who: u8,
    until: u16,
    release: u16,
    /// A link that is closed and opened: steps until then
    shut: Option<(u8, u16, u16)>,
    with_dest: bool,
}

fn others() -> BoxedStrategy<Others> {
    (
        gens::short_chain(4, (30.0, 200.0), (6.0, 35.0)),
        prop::collection::vec(gens::veh(), 2..8),
        1u8..60,
        gens::dt(),
        any::<u8>(),
        1u16..400,
        1u16..300,
        prop::option::of((any::<u8>(), 0u16..300, 1u16..300)),
        prop::bool::weighted(0.8),
    )
        .prop_map(|(chain, vehs, wait, dt, who, until, release, shut, with_dest)| Others {
            chain,
            vehs,
            wait,
            dt,
            who,
            until,
            release,
            shut,
            with_dest,
        })
        .boxed()
}

/// The states after every step, and from when on which vehicle was frozen.
fn play(c: &Others, freeze: bool) -> (Vec<Snap>, Option<usize>) {
    let net = c.chain.net();
    let n = net.links.len();
    let mut w = World::build(&net);
    let mut left = c.vehs.iter();
    let mut next = left.next();
    let mut frozen = None;
    let mut out = vec![];
    for i in 0..c.until + c.release + 200 {
        // Nobody arrives later on: it would make a difference who there is room for
        if i < c.until && i % c.wait as u16 == 0 {
            if let Some(p) = next.filter(|p| w.room(0, p, 3.0)) {
                w.add(p, 0, c.with_dest.then_some(n - 1));
                next = left.next();
            }
        }
        if let Some((l, at, open)) = c.shut.filter(|_| n > 1) {
            let l = 1 + l as usize % (n - 1);
            if i == at {
                w.control(l, Ctl::Closed);
            } else if i == at + open {
                w.control(l, Ctl::Open);
            }
        }
        if i == c.until {
            let vehs = w.snap().vehs;
            frozen = vehs.get(c.who as usize % vehs.len().max(1)).map(|s| s.v);
        }
        if let Some(v) = frozen.filter(|v| freeze && w.snap().get(*v).is_some()) {
            if i == c.until {
                w.freeze(v, true);
            } else if i == c.until + c.release {
                w.freeze(v, false);
            }
        }
        w.step(c.dt);
        out.push(w.snap());
    }
    (out, frozen)
}

fn check_others(c: &Others, o: &mut Obs) -> Result<(), String> {
    let ((with, who), (without, _)) = (play(c, true), play(c, false));
    let Some(v) = who else { return Ok(()) };
    let at = c.until as usize;
    let Some(own) = with[at].get(v) else { return Ok(()) };
    let key = |s: &VSnap| (s.link, s.pos);
    let ahead: Vec<usize> = with[at].vehs.iter().filter(|s| s.v != v && key(s) > key(own)).map(|s| s.v).collect();
    for (i, (a, b)) in with.iter().zip(&without).enumerate() {
        for s in &ahead {
            let same = match (a.get(*s), b.get(*s)) {
                (Some(x), Some(y)) => {
                    x.link == y.link && (x.pos - y.pos).abs() < 1e-6 && (x.vel - y.vel).abs() < 1e-6
                }
                (None, None) => true,
                _ => false,
            };
            if !same {
                return Err(format!(
                    "freezing vehicle {v} in step {at} changes vehicle {s} ahead of it in step {i}: {:?} instead of {:?}",
                    a.get(*s),
                    b.get(*s)
                ));
            }
        }
        if i > at && i < at + c.release as usize && a.get(v).map_or(false, |s| s.vel == 0.0) && own.vel > 1.0 {
            if ahead.iter().any(|s| a.get(*s).is_some()) {
                o.nontrivial();
            }
        }
    }
    Ok(())
}

fn check_crowd(c: &Crowd, o: &mut Obs) -> Result<(), String> {
    let grace = 0.1 + c.dt;
    crowd::drive(c, &mut |x| {
        let mut standing = 0;
        for b in &x.next.vehs {
            let reported = x.w.sim.get_vehicle_frozen(x.w.vehs[b.v].id);
            let since = x.frozen.get(&b.v);
            if reported != since.is_some() {
                return Err(format!("vehicle {} is {}reported as frozen", b.v, if reported { "" } else { "not " }));
            }
            let (Some(since), Some(a)) = (since, x.prev.get(b.v)) else { continue };
            if x.w.time - c.dt - since < grace - 1e-6 {
                continue;
            }
            let stays = std::ptr::eq(x.prev, x.next);
            let want = if stays { a.vel } else { (a.vel - MAX_BRAKE * c.dt).max(0.0) };
            if (b.vel - want).abs() > 1e-6 {
                return Err(format!("vehicle {}, frozen for {:.2} s, goes from {} to {} m/s in {} s", b.v, x.w.time - since, a.vel, b.vel, c.dt));
            }
            if a.vel == 0.0 {
                standing += 1;
                if a.link != b.link || a.pos != b.pos {
                    return Err(format!("vehicle {} moves while frozen and stopped", b.v));
                }
            }
        }
        if standing > 3 {
            o.nontrivial();
        }
        o.max("frozen at a time", standing as f64);
        Ok(())
    })
}
