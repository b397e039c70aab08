//! C03: speed limits.

use super::Prop;
use crate::chain::{self, *};
use crate::gens::{self, f, ChainSpec};
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        title: "Drivers settle at the speed limit and respect lower limits in time",
        assumptions: &[
            "speed limits of 6 m/s to 20 m/s where lower limits ahead are concerned, 4 m/s to 35 m/s otherwise",
            "drivers' temperaments are within 25 % of the limit",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "traffic",
                    rule: "traffic with interventions on a chain of links with different limits; non-trivial if some vehicle entered a link with a limit below its speed before braking for it",
                    quick: 60_000,
                    thorough: 2_000_000,
                    strategy: traffic,
                    check: check_traffic,
                }),
                Box::new(Part {
                    name: "free",
                    rule: "one vehicle alone on a chain of links; non-trivial if it settled at the limit of some link",
                    quick: 40_000,
                    thorough: 1_000_000,
                    strategy: free,
                    check: check_free,
                }),
                Box::new(Part {
                    name: "tempers",
                    rule: "40 to 140 drivers on roads of their own after a randomisation of their desired speeds; non-trivial if the spread asked for is not zero",
                    quick: 300,
                    thorough: 2_000,
                    strategy: tempers,
                    check: check_tempers,
                }),
            ]
        },
    }
}

fn traffic() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(6, (30.0, 150.0), (6.0, 20.0)),
        Weights {
            arrive: 8,
            freeze: 1,
            remove: 1,
            close: 1,
            dt: 1,
            randomise: 1,
        },
        15,
        300,
    )
}

fn check_traffic(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    // When each vehicle came onto its link
    let mut entered: HashMap<usize, f64> = HashMap::new();
    let mut longest = 0.0f64;
    drive(c, |x| {
        longest = longest.max(x.dt);
        let hold = 0.1 + longest;
        let start = x.w.time - x.dt;
        for b in &x.next.vehs {
            let Some(a) = x.prev.get(b.v) else { continue };
            let p = &x.w.vehs[b.v].p;
            let keen = if x.randomised { 1.25 } else { 1.0 };
            entered.entry(b.v).or_insert(0.0);
            // Above the limit, no vehicle speeds up
            let limit = keen * x.w.limit[a.link];
            if a.vel > limit + 1e-6 && b.vel > a.vel + 1e-9 && start - entered[&b.v] > hold {
                return Err(format!(
                    "vehicle {} speeds up from {} to {} m/s on a link with limit {} m/s",
                    b.v, a.vel, b.vel, x.w.limit[a.link]
                ));
            }
            if b.link != a.link {
                entered.insert(b.v, x.w.time);
                let over = b.vel - keen * x.w.limit[b.link];
                if x.w.limit[b.link] < x.w.limit[a.link] - 0.5 {
                    o.label("enters a slower link");
                    o.max("speed above a lower limit on entry", over);
                    // Drivers brake no harder than twice their comfort for it, and react in time
                    // but for the interval between two decisions.
                    if over > 2.0 * p.comf_dec * hold + 0.3 {
                        return Err(format!(
                            "vehicle {} enters a link with limit {} m/s at {} m/s",
                            b.v, x.w.limit[b.link], b.vel
                        ));
                    }
                    if b.vel > 0.9 * x.w.limit[b.link] {
                        o.nontrivial();
                    }
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Free {
    chain: ChainSpec,
    veh: VehP,
    dt: f64,
    stddev: Option<f64>,
}

fn free() -> BoxedStrategy<Free> {
    (
        gens::short_chain(7, (30.0, 600.0), (4.0, 35.0)),
        gens::veh(),
        gens::dt(),
        prop_oneof![4 => Just(None), 1 => f(0.0, 0.6).prop_map(Some), 2 => Just(Some(1e6))],
    )
        .prop_map(|(mut chain, veh, dt, stddev)| {
            if stddev == Some(1e6) {
                // Room to settle on the first link
                let first = &mut chain.segs[0];
                first.0.kind = 0;
                first.0.len = first.0.len.max(6.0 * first.1.powi(2) / veh.max_acc);
            }
            Free {
                chain,
                veh,
                dt,
                stddev,
            }
        })
        .boxed()
}

/// A vehicle alone on the road: it never slows down without a slower link ahead of it or under it,
/// and given the time and the room, it drives at the limit.
fn check_free(c: &Free, o: &mut Obs) -> Result<(), String> {
    let net = c.chain.net();
    let mut w = World::build(&net);
    let n = net.links.len();
    let v = w.add(&c.veh, 0, Some(n - 1));
    if let Some(sd) = c.stddev {
        w.sim.randomise_velocity_adjusts(sd);
    }
    // The speed, relative to the limit, that the driver settles at
    let mut ratio: Option<f64> = match c.stddev {
        None => Some(1.0),
        Some(sd) if sd == 0.0 => Some(1.0),
        _ => None,
    };
    let slowest = c.chain.segs.iter().map(|s| s.1).fold(35.0, f64::min);
    let budget = 60.0 + 2.0 * (w.len.iter().sum::<f64>()) / slowest + 40.0 / c.veh.max_acc;
    let hold = 0.1 + c.dt;
    let mut since = 0.0;
    let mut came = 0.0;
    let mut on = 0usize;
    // Where the next link came into sight, and the speed there
    let mut sight: Option<(f64, f64)> = None;
    let mut prev = *w.snap().get(v).unwrap();
    let mut longest = 0.0f64;
    while w.time < budget {
        w.step(c.dt);
        let snap = w.snap();
        let Some(s) = snap.get(v).copied() else { break };
        // Below the least speed it may want here, it brakes for a limit ahead: with restraint.
        // (Decisions on the link before may still be in force.)
        let least = ratio.unwrap_or(0.75);
        if s.vel < prev.vel && w.time - came > 2.0 * hold && s.link == prev.link && prev.vel < least * w.limit[on] {
            let dec = (prev.vel - s.vel) / c.dt;
            o.label("brakes for a limit ahead");
            o.max("braking for a limit, relative to comfort", dec / c.veh.comf_dec);
            if dec > 2.0 * c.veh.comf_dec + 1e-3 {
                return Err(format!(
                    "alone on the road at {} m/s, the vehicle brakes at {dec} m/s^2 for a limit, more than twice its comfort of {}",
                    s.vel, c.veh.comf_dec
                ));
            }
        }
        if let Some(r) = ratio {
            // Slowing down is for a limit here, ahead or just behind, and no further than to that
            let ahead = w.limit[on.saturating_sub(1)..].iter().copied().fold(35.0, f64::min);
            if s.vel < prev.vel - 1e-6 && s.vel < 0.97 * r * ahead - 2.0 * c.veh.comf_dec * hold {
                return Err(format!(
                    "the vehicle slows down to {} m/s for a limit of {ahead} m/s though it settles at {r} of the limit",
                    s.vel
                ));
            }
            if s.link != on && w.limit[s.link] < w.limit[on] - 0.5 {
                let over = s.vel - r * w.limit[s.link];
                // Drivers look ahead for five seconds
                let slow = r * w.limit[s.link];
                let seen = sight.map_or(false, |(room, v)| {
                    room > (v * v - slow * slow) / (2.0 * c.veh.comf_dec) + v * hold + 5.0
                });
                if seen {
                    o.label("slowed down for a link in sight");
                    o.max("speed above a lower limit in sight on entry", over);
                }
                if seen && over > 2.0 * c.veh.comf_dec * hold + 0.3 {
                    return Err(format!(
                        "the vehicle enters a link with limit {} m/s at {} m/s though it settles at {r} of the limit",
                        w.limit[s.link], s.vel
                    ));
                }
            }
        }
        if s.link != on {
            on = s.link;
            since = w.time;
            came = w.time;
            sight = None;
        }
        let limit = w.limit[on];
        let room = w.len[on] - s.pos;
        if w.len[on] > 5.0 * limit && room < 5.0 * limit - 5.0 {
            sight.get_or_insert((room, s.vel));
        }
        // The next slower link that matters, and the room to it
        let mut room = w.len[on] - s.pos;
        let mut cleared = true;
        for l in on + 1..n {
            let slower = 0.75 * w.limit[l];
            let need = (s.vel * s.vel - slower * slower) / (2.0 * c.veh.comf_dec) + s.vel * hold;
            if slower < s.vel && room <= need + 1.0 {
                cleared = false;
            }
            room += w.len[l];
        }
        if cleared && s.vel < prev.vel - 1e-6 && w.time - since > hold && prev.vel < 0.75 * limit {
            return Err(format!(
                "alone on the road, well below the limit of {limit} m/s, the vehicle slows down from {} to {} m/s",
                prev.vel, s.vel
            ));
        }
        if !cleared {
            since = w.time;
        }
        if w.time - since > 3.0 * 1.25 * limit / c.veh.max_acc + hold {
            longest = longest.max(w.time - since);
            let r = s.vel / limit;
            match ratio {
                None => {
                    if !(0.75 * 0.97..=1.25 * 1.005).contains(&r) {
                        return Err(format!(
                            "the vehicle settles at {} m/s under a limit of {limit} m/s",
                            s.vel
                        ));
                    }
                    // Settled to within rounding only after a while
                    if c.stddev == Some(1e6) {
                        // One of the ends of the range
                        ratio = Some(if r > 1.0 { 1.25 } else { 0.75 });
                    } else if w.time - since > 8.0 * limit / c.veh.max_acc {
                        ratio = Some(r);
                    }
                }
                Some(want) => {
                    o.nontrivial();
                    if r < want * 0.97 || r > want * 1.005 {
                        return Err(format!(
                            "the vehicle drives at {} m/s under a limit of {limit} m/s though it settled at {want} of the limit before",
                            s.vel
                        ));
                    }
                }
            }
        }
        prev = s;
    }
    if w.snap().get(v).is_some() {
        return Err(format!(
            "alone on the road, the vehicle has not left after {budget:.0} s (it is at {:.1} m of link {on}, {:.2} m/s)",
            prev.pos, prev.vel
        ));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tempers {
    stddev: f64,
    limit: f64,
    max_acc: f64,
    /// More drivers, in twenties
    #[serde(default)]
    more: u8,
}

fn tempers() -> BoxedStrategy<Tempers> {
    (
        prop_oneof![3 => f(0.02, 0.08), 1 => f(0.1, 3.0), 1 => Just(0.0)],
        f(6.0, 30.0),
        f(1.0, 3.0),
        prop_oneof![3 => Just(0u8), 1 => 1u8..6],
    )
        .prop_map(|(stddev, limit, max_acc, more)| Tempers {
            stddev,
            limit,
            max_acc,
            more,
        })
        .boxed()
}

/// The speeds that many drivers on roads of their own settle at follow the documented distribution.
/// (The library draws them from the system's random source; the bounds are wide enough for a false
/// alarm to be out of the question.)
fn check_tempers(c: &Tempers, o: &mut Obs) -> Result<(), String> {
    let n = 40 + 20 * c.more as usize;
    let mut net = NetSpec::default();
    for i in 0..n {
        let y = 20.0 * i as f64;
        net.links.push(LinkSpec {
            curve: crate::geom::CurveSpec::Line([0.0, y], [2500.0, y]),
            limit: c.limit,
        });
    }
    let mut w = World::build(&net);
    let p = VehP {
        width: 2.0,
        length: 4.5,
        wheel_base: 1.0,
        headway: 1.5,
        max_acc: c.max_acc,
        comf_dec: 2.0,
    };
    for i in 0..n {
        w.add(&p, i, Some(i));
    }
    w.sim.randomise_velocity_adjusts(c.stddev);
    while w.time < 5.0 * c.limit / c.max_acc && w.snap().vehs.iter().all(|s| s.pos < 2300.0) {
        w.step(0.2);
    }
    let r: Vec<f64> = w.snap().vehs.iter().map(|s| s.vel / c.limit).collect();
    if r.len() != n {
        return Err("a vehicle has left early".into());
    }
    for x in &r {
        if !(0.74..=1.2501).contains(x) {
            return Err(format!("a driver settles at {x} times the limit"));
        }
    }
    let mean = r.iter().sum::<f64>() / n as f64;
    let sd = (r.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / (n - 1) as f64).sqrt();
    if c.stddev == 0.0 {
        if r.iter().any(|x| (x - 1.0).abs() > 0.01) {
            return Err(format!("drivers differ though the spread is zero: {r:?}"));
        }
        return Ok(());
    }
    o.nontrivial();
    // Nobody is left out
    for (i, some) in r.chunks(20).enumerate() {
        let mean = some.iter().sum::<f64>() / 20.0;
        let sd = (some.iter().map(|x| (x - mean).powi(2)).sum::<f64>() / 19.0).sqrt();
        if sd < 0.15 * c.stddev.min(0.08) {
            return Err(format!("a spread of {} gives {sd} for vehicles {} to {}", c.stddev, 20 * i, 20 * i + 19));
        }
    }
    if c.stddev < 0.09 {
        if (mean - 1.0).abs() > 7.0 * c.stddev / (n as f64).sqrt() + 0.01 {
            return Err(format!("drivers settle at {mean} of the limit on average"));
        }
        if sd < 0.3 * c.stddev || sd > 2.2 * c.stddev {
            return Err(format!("a spread of {} gives {sd}", c.stddev));
        }
    } else if sd < 0.01 {
        return Err(format!("a spread of {} gives {sd}", c.stddev));
    }
    Ok(())
}
