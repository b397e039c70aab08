//! C13: traffic on neighbouring lanes.

use super::Prop;
use crate::gens::*;
use crate::lanes::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        title: "Traffic on neighbouring lanes passes freely and never collides",
        assumptions: &[
            "parallel lanes 3.5 m apart, straight or with radii of 60 m and more; vehicles up to 2.2 m wide (and 8 m long on bends)",
            "lane changes over 20 to 60 m are made into gaps the vehicle behind can brake for in comfort",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "changes",
                    rule: "dense traffic on parallel lanes, told to change lanes wherever there is a gap, and to stop, at any time; non-trivial if two lane changes were made",
                    quick: 60_000,
                    thorough: 1_500_000,
                    strategy: busy,
                    check: check_changes,
                }),
                Box::new(Part {
                    name: "passing",
                    rule: "traffic that keeps to its lanes, compared with the same traffic on each lane alone; non-trivial if a vehicle overtook another one on a neighbouring lane",
                    quick: 60_000,
                    thorough: 1_500_000,
                    strategy: passing,
                    check: check_passing,
                }),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Arrive(VehP, u8),
    Change(u8, bool, f64),
    Freeze(u8, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Busy {
    road: LanesSpec,
    dt: f64,
    ops: Vec<(u8, Op)>,
}

fn cars() -> BoxedStrategy<VehP> {
    veh().prop_map(|mut p| {
        p.width = p.width.min(2.2);
        p
    })
    .boxed()
}

fn road() -> BoxedStrategy<LanesSpec> {
    (
        2u8..=4,
        prop::collection::vec((f(100.0, 300.0), f(-1.0, 1.0), f(6.0, 25.0)), 1..=2),
        any::<bool>(),
    )
        .prop_map(|(lanes, s, straight)| LanesSpec {
            sections: s
                .into_iter()
                .map(|(len, bend, limit)| Section {
                    len,
                    bend: if straight { 0.0 } else { bend },
                    lanes,
                    shift: 0,
                    mask: 0,
                    limit,
                    cut: 0,
                    split: false,
                })
                .collect(),
        })
        .boxed()
}

fn busy() -> BoxedStrategy<Busy> {
    let op = prop_oneof![
        3 => (cars(), any::<u8>()).prop_map(|(p, l)| Op::Arrive(p, l)),
        5 => (any::<u8>(), any::<bool>(), f(20.0, 60.0)).prop_map(|(v, r, d)| Op::Change(v, r, d)),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(v, on)| Op::Freeze(v, on)),
    ];
    (road(), dt(), prop::collection::vec((0u8..15, op), 4..60))
        .prop_map(|(road, dt, ops)| Busy { road, dt, ops })
        .boxed()
        .prop_map(limit_trucks)
        .boxed()
}

fn limit_trucks(mut c: Busy) -> Busy {
    if c.road.sections.iter().any(|s| s.bend != 0.0) {
        for (_, op) in &mut c.ops {
            if let Op::Arrive(p, _) = op {
                p.length = p.length.min(8.0);
                p.wheel_base = p.wheel_base.min(3.2);
            }
        }
    }
    c
}

fn check_changes(c: &Busy, o: &mut Obs) -> Result<(), String> {
    let ln = c.road.net();
    let lanes = ln.at[0].len();
    let last = ln.at.len() - 1;
    let mut w = World::build(&ln.net);
    let len = w.len.clone();
    // Metres along the lane
    let along = |s: &VSnap| -> f64 {
        let (sec, lane) = ln.place[s.link];
        (0..sec).map(|k| len[ln.at[k][lane]]).sum::<f64>() + s.pos
    };
    let mut made = 0;
    // Where each vehicle's latest lane change ends
    let mut until: std::collections::HashMap<usize, f64> = Default::default();
    let mut frozen: Vec<usize> = vec![];
    let mut ops = c.ops.clone();
    ops.push((100, Op::Freeze(0, false)));
    for (wait, op) in &ops {
        let snap = w.snap();
        let pick = |k: u8| snap.vehs.get(k as usize % snap.vehs.len().max(1));
        match op {
            Op::Arrive(p, l) => {
                let lane = *l as usize % lanes;
                let link = ln.at[0][lane];
                // Room ahead, also beside vehicles that are changing lanes here
                let free = snap.vehs.iter().all(|s| {
                    let near = ln.place[s.link].1.abs_diff(lane) <= 1;
                    !near || along(s) - 0.5 * (p.length + w.vehs[s.v].p.length) > if ln.place[s.link].1 == lane { 3.0 } else { 1.0 }
                });
                if free {
                    w.add(p, link, Some(ln.at[last][lane]));
                }
            }
            Op::Change(k, right, d) => {
                if let Some(s) = pick(*k).copied() {
                    let (sec, lane) = ln.place[s.link];
                    let to = if *right { lane + 1 } else { lane.wrapping_sub(1) };
                    if to >= lanes || until.get(&s.v).map_or(false, |u| along(&s) < *u) {
                        continue;
                    }
                    let p = w.vehs[s.v].p;
                    let stop = |v: f64, p: &VehP| v * (p.headway + 0.3) + v * v / (2.0 * p.comf_dec);
                    // (positions on lanes of a bend compare by their share of the section)
                    let here = s.pos / len[s.link] * len[ln.at[sec][to]]
                        + (0..sec).map(|k| len[ln.at[k][to]]).sum::<f64>();
                    let room = snap.vehs.iter().all(|b| {
                        let q = &w.vehs[b.v].p;
                        let d = along(b) - here;
                        // One at a time
                        let changing = until.get(&b.v).map_or(false, |u| along(b) < *u);
                        if changing && d.abs() < 60.0 {
                            return false;
                        }
                        if ln.place[b.link].1 != to {
                            return true;
                        }
                        let gap = d.abs() - 0.5 * (p.length + q.length);
                        if d > 0.0 {
                            gap > 3.0 + stop(s.vel, &p)
                        } else {
                            gap > 3.0 + stop(b.vel, q)
                        }
                    });
                    if room {
                        w.lane_change(s.v, ln.at[sec][to], *d);
                        w.set_dest(s.v, ln.at[last][to]);
                        let now = *w.snap().get(s.v).unwrap();
                        until.insert(s.v, along(&now) + d);
                        made += 1;
                    }
                }
            }
            Op::Freeze(k, on) => {
                if *on {
                    if let Some(s) = pick(*k) {
                        w.freeze(s.v, true);
                        frozen.push(s.v);
                    }
                } else {
                    for v in frozen.drain(..) {
                        w.freeze(v, false);
                    }
                }
            }
        }
        for _ in 0..*wait {
            w.step(c.dt);
            let snap = w.snap();
            let boxes: Vec<_> = snap
                .vehs
                .iter()
                .map(|s| {
                    let p = &w.vehs[s.v].p;
                    corners(s.xy, s.dir, p.length, p.width)
                })
                .collect();
            for i in 0..boxes.len() {
                for j in 0..i {
                    let (a, b) = (&snap.vehs[i], &snap.vehs[j]);
                    if crate::geom::dist(a.xy, b.xy) > 20.0 {
                        continue;
                    }
                    let g = rect_gap(&boxes[i], &boxes[j]);
                    o.max("least gap (negative, m)", -g);
                    if g < 0.05 {
                        return Err(format!(
                            "vehicles {} (link {}, {:.2} m, {:.2} m/s) and {} (link {}, {:.2} m, {:.2} m/s) are {g:.3} m apart at {:.2} s",
                            a.v, a.link, a.pos, a.vel, b.v, b.link, b.pos, b.vel, w.time
                        ));
                    }
                }
            }
        }
    }
    o.count("lane changes", made);
    if made >= 2 {
        o.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Passing {
    road: LanesSpec,
    dt: f64,
    arrivals: Vec<(u8, u8, VehP)>,
    freezes: Vec<(u8, u8)>,
}

fn passing() -> BoxedStrategy<Passing> {
    (
        road(),
        dt(),
        prop::collection::vec((0u8..40, any::<u8>(), cars()), 2..12),
        prop::collection::vec((any::<u8>(), any::<u8>()), 0..3),
    )
        .prop_map(|(road, dt, mut arrivals, freezes)| {
            if road.sections.iter().any(|s| s.bend != 0.0) {
                for (.., p) in &mut arrivals {
                    p.length = p.length.min(8.0);
                    p.wheel_base = p.wheel_base.min(3.2);
                }
            }
            Passing {
                road,
                dt,
                arrivals,
                freezes,
            }
        })
        .boxed()
}

/// The states of all vehicles (of the lanes chosen) after every step.
fn run(c: &Passing, only: Option<usize>, grouped: bool) -> Vec<Vec<(usize, usize, f64, f64)>> {
    let mut ln = c.road.net();
    if !grouped {
        ln.net.groups.clear();
    }
    let lanes = ln.at[0].len();
    let last = ln.at.len() - 1;
    let mut w = World::build(&ln.net);
    let mut who = vec![];
    let mut out = vec![];
    let mut todo: Vec<(usize, u8, usize, VehP)> = vec![];
    let mut t = 0u32;
    let mut arrivals = c.arrivals.iter().enumerate();
    let mut next = arrivals.next();
    let mut wait = next.map_or(0, |(_, a)| a.0 as u32);
    for step in 0..400u32 {
        while let Some((i, (_, lane, p))) = next {
            if t < wait {
                break;
            }
            todo.push((i, *lane, *lane as usize % lanes, *p));
            next = arrivals.next();
            wait += next.map_or(0, |(_, a)| a.0 as u32);
        }
        t += 1;
        // First come, first served on each lane
        let mut k = 0;
        while k < todo.len() {
            let (i, _, lane, p) = todo[k];
            let link = ln.at[0][lane];
            if only.map_or(false, |l| l != lane) {
                todo.remove(k);
                continue;
            }
            let first = todo[..k].iter().all(|x| x.2 != lane);
            if first && w.room(link, &p, 3.0) {
                w.add(&p, link, Some(ln.at[last][lane]));
                who.push(i);
                todo.remove(k);
            } else {
                k += 1;
            }
        }
        for (at, which) in &c.freezes {
            let which = *which as usize % c.arrivals.len();
            if let Some(v) = who.iter().position(|i| *i == which) {
                if *at as u32 == step {
                    w.freeze(v, true);
                }
                if *at as u32 + 40 == step {
                    w.freeze(v, false);
                }
            }
        }
        w.step(c.dt);
        out.push(
            w.snap()
                .vehs
                .iter()
                .map(|s| (who[s.v], s.link, s.pos, s.vel))
                .collect(),
        );
    }
    out
}

fn check_passing(c: &Passing, o: &mut Obs) -> Result<(), String> {
    let ln = c.road.net();
    let lanes = ln.at[0].len();
    let all = run(c, None, true);
    for lane in 0..lanes {
        if !c.arrivals.iter().any(|a| a.1 as usize % lanes == lane) {
            continue;
        }
        let alone = run(c, Some(lane), true);
        for (step, (a, b)) in all.iter().zip(&alone).enumerate() {
            let mut a: Vec<_> = a.iter().filter(|s| ln.place[s.1].1 == lane).copied().collect();
            let mut b = b.clone();
            a.sort_by_key(|s| s.0);
            b.sort_by_key(|s| s.0);
            let same = a.len() == b.len()
                && a.iter().zip(&b).all(|(x, y)| {
                    x.0 == y.0 && x.1 == y.1 && (x.2 - y.2).abs() < 1e-6 && (x.3 - y.3).abs() < 1e-6
                });
            if !same {
                return Err(format!(
                    "traffic on the other lanes changes that on lane {lane} in step {step}: {a:?} instead of {b:?}"
                ));
            }
        }
    }
    // Did anyone overtake?
    for w in all.windows(2) {
        for x in &w[0] {
            for y in &w[0] {
                let sec = |l: usize| ln.place[l].0;
                if ln.place[x.1].1.abs_diff(ln.place[y.1].1) == 1 && sec(x.1) == sec(y.1) && x.2 < y.2 {
                    let find = |i: usize| w[1].iter().find(|s| s.0 == i);
                    if let (Some(p), Some(q)) = (find(x.0), find(y.0)) {
                        if sec(p.1) == sec(q.1) && p.2 > q.2 {
                            o.nontrivial();
                        }
                    }
                }
            }
        }
    }
    Ok(())
}
