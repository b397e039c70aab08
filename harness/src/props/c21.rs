//! C21: the car following model.

use super::Prop;
use crate::gens::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        title: "Vehicles accelerate and brake by the intelligent driver model",
        assumptions: &["single-lane roads; a vehicle may or may not react to what is more than one link ahead"],
        parts: || {
            vec![Box::new(Part {
                name: "model",
                rule: "traffic with stops on a chain of links with different speed limits, with an open or closed end; the change of speed in every step against the model; non-trivial if a vehicle followed another one at more than 3 m/s",
                quick: 120_000,
                thorough: 3_000_000,
                strategy: case,
                check,
            })]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Arrive(VehP),
    Freeze(u8),
    Release,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum End {
    /// The vehicles leave at the end.
    Open,
    /// The last link is closed.
    Closed,
    /// The vehicles have no destination.
    Nowhere,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    road: ChainSpec,
    end: End,
    dt: f64,
    ops: Vec<(u8, Op)>,
}

fn case() -> BoxedStrategy<Case> {
    let op = prop_oneof![
        6 => veh().prop_map(Op::Arrive),
        1 => any::<u8>().prop_map(Op::Freeze),
        1 => Just(Op::Release),
    ];
    (
        short_chain(4, (40.0, 250.0), (5.0, 25.0)),
        prop_oneof![2 => Just(End::Open), 1 => Just(End::Closed), 1 => Just(End::Nowhere)],
        // (it is clear in which steps the acceleration is decided anew)
        prop_oneof![
            4 => Just(0.1),
            1 => Just(0.03),
            1 => Just(0.04),
            1 => Just(0.06),
            1 => Just(0.09),
            2 => f(0.11, 0.2),
        ],
        (veh(), prop::collection::vec((0u8..60, op), 1..14)),
    )
        .prop_map(|(road, end, dt, (first, mut ops))| {
            ops.insert(0, (0, Op::Arrive(first)));
            Case { road, end, dt, ops }
        })
        .boxed()
}

/// The intelligent driver model: approaching something at a distance.
fn idm(p: &VehP, gap: f64, vel: f64, other: f64) -> f64 {
    if gap <= 2.0 {
        return -10.0 * p.max_acc;
    }
    let want = 2.0 + vel * p.headway + vel * (vel - other) / (2.0 * (p.max_acc * p.comf_dec).sqrt());
    p.max_acc * (1.0 - (want / gap).powi(2))
}

/// Slowing down for a speed limit ahead.
fn ahead(p: &VehP, vel: f64, limit: f64, dist: f64) -> f64 {
    let a = (limit * limit - vel * vel) / (2.0 * dist);
    if a <= -p.comf_dec {
        a.max(-2.0 * p.comf_dec)
    } else {
        f64::INFINITY
    }
}

/// The accelerations the model allows: all of `must`, any of `may`.
#[derive(Default)]
struct Want {
    must: f64,
    may: Vec<f64>,
    follows: bool,
}

fn model(w: &World, s: &VSnap, all: &[VSnap], c: &Case, edge: &mut bool) -> Want {
    let p = w.vehs[s.v].p;
    let limit = w.limit[s.link];
    let front = s.pos + 0.5 * p.length;
    let len = w.len[s.link];
    let last = w.len.len() - 1;
    let mut out = Want {
        must: p.max_acc * (1.0 - (s.vel / limit).powi(4)),
        ..Default::default()
    };
    // How far it looks ahead
    let look = len - 5.0 * limit;
    *edge |= (front - look).abs() < 1e-6;
    let first = !all.iter().any(|t| t.link == s.link && t.pos > s.pos);
    let mut start = 0.0;
    let mut leader = false;
    for k in s.link..=last {
        let next = all
            .iter()
            .filter(|t| t.link == k && (k > s.link || t.pos > s.pos))
            .min_by(|a, b| a.pos.partial_cmp(&b.pos).unwrap());
        if k == s.link + 1 && first && front >= look {
            let a = ahead(&p, s.vel, w.limit[k], start - s.pos);
            // (if it has not decided to go there yet, it may not know)
            if next.is_some() {
                out.must = out.must.min(a);
            } else {
                out.may.push(a);
            }
        } else if k > s.link + 1 {
            // (also the distance from which it may know)
            out.may.push(ahead(&p, s.vel, w.limit[k], start - s.pos));
        }
        if let (Some(t), false) = (next, leader) {
            let gap = start + t.pos - 0.5 * w.vehs[t.v].p.length - front;
            *edge |= (gap - 2.0).abs() < 1e-6;
            let a = idm(&p, gap, s.vel, t.vel);
            if k == s.link || (k == s.link + 1 && front >= look) {
                out.must = out.must.min(a);
                out.follows = s.vel > 3.0;
            } else if k > s.link + 1 {
                out.may.push(a);
            }
            leader = true;
        }
        start += w.len[k];
    }
    // The line it stops at
    let stops = match c.end {
        End::Open => false,
        End::Closed => s.link + 1 == last,
        End::Nowhere => true,
    };
    if c.end == End::Closed && s.link + 1 < last {
        let line: f64 = w.len[s.link..last].iter().sum();
        out.may.push(idm(&p, line - front, s.vel, 0.0));
    }
    if stops && first && front >= look {
        *edge |= (len - front - 2.0).abs() < 1e-6;
        out.must = out.must.min(idm(&p, len - front, s.vel, 0.0));
    }
    out
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let net = c.road.net();
    let last = net.links.len() - 1;
    let mut w = World::build(&net);
    if c.end == End::Closed {
        w.control(last, Ctl::Closed);
    }
    let mut frozen: Vec<usize> = vec![];
    // The accelerations in force
    let mut acc: HashMap<usize, (f64, Vec<f64>)> = HashMap::new();
    let mut since = 0.0;
    let mut ops = c.ops.clone();
    ops.push((100, Op::Release));
    for (wait, op) in &ops {
        for _ in 0..*wait {
            let prev = w.snap();
            let mut skip: Vec<usize> = vec![];
            if since >= 0.1 {
                since = 0.0;
                for s in &prev.vehs {
                    let mut edge = false;
                    let want = model(&w, s, &prev.vehs, c, &mut edge);
                    if edge {
                        skip.push(s.v);
                        acc.remove(&s.v);
                        continue;
                    }
                    if want.follows && !frozen.contains(&s.v) {
                        o.nontrivial();
                    }
                    acc.insert(
                        s.v,
                        if frozen.contains(&s.v) {
                            (-MAX_BRAKE, vec![])
                        } else {
                            (want.must, want.may)
                        },
                    );
                }
            }
            w.step(c.dt);
            since += c.dt;
            let next = w.snap();
            for s in &prev.vehs {
                let (Some(t), Some((must, may))) = (next.get(s.v), acc.get(&s.v)) else {
                    continue;
                };
                // Any of the optional ones may apply: the least of them, and those above it, do
                // not matter.
                let mut levels = vec![*must];
                levels.extend(may.iter().filter(|a| **a < *must));
                let vel = |a: f64| (s.vel + a.max(-MAX_BRAKE) * c.dt).max(0.0);
                let err = levels.iter().map(|a| (vel(*a) - t.vel).abs()).fold(f64::INFINITY, f64::min);
                o.max("error of the speed (m/s)", err);
                if err > 1e-6 {
                    return Err(format!(
                        "vehicle {} at {:.3} m of link {} goes from {} m/s to {} m/s instead of {}",
                        s.v,
                        s.pos,
                        s.link,
                        s.vel,
                        t.vel,
                        vel(*must)
                    ));
                }
            }
        }
        match op {
            Op::Arrive(p) => {
                if w.room(0, p, 3.0) {
                    let dest = if c.end == End::Nowhere { None } else { Some(last) };
                    let v = w.add(p, 0, dest);
                    // Until the next decision
                    acc.insert(v, (p.max_acc, vec![]));
                }
            }
            Op::Freeze(k) => {
                let snap = w.snap();
                if let Some(s) = snap.vehs.get(*k as usize % snap.vehs.len().max(1)) {
                    w.freeze(s.v, true);
                    frozen.push(s.v);
                }
            }
            Op::Release => {
                for v in frozen.drain(..) {
                    w.freeze(v, false);
                }
            }
        }
    }
    Ok(())
}
