//! C04: vehicles are conserved.

use super::Prop;
use crate::chain::{self, *};
use crate::crowd::{self, Crowd};
use crate::gens::{self, f};
use crate::lanes::{self, *};
use crate::net::ref_costs;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        title: "Vehicles leave only when removed or past the end of their destination",
        assumptions: &[
            "a vehicle sent to a place it cannot reach, or onto a lane that does not lead on, still has room to stop on its link",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "road",
                    rule: "histories of arrivals, removals, freezes and closures on a chain of links, with and without destinations, against a set of expected vehicles; non-trivial if a vehicle was removed or left",
                    quick: 60_000,
                    thorough: 2_000_000,
                    strategy: road,
                    check: check_road,
                }),
                Box::new(Part {
                    name: "reroute",
                    rule: "several vehicles on a multi-lane road whose destinations are changed and which are told to change lanes at any time; non-trivial if a destination was changed or a lane change made on the way",
                    quick: 60_000,
                    thorough: 2_000_000,
                    strategy: reroute,
                    check: check_reroute,
                }),
                Box::new(Part {
                    name: "crowd",
                    rule: "many vehicles on up to 23 roads, several of them added, removed, frozen and leaving at a time; non-trivial if at least three left in the same step",
                    quick: 20_000,
                    thorough: 600_000,
                    strategy: crowd::case,
                    check: check_crowd,
                }),
            ]
        },
    }
}

fn road() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(6, (15.0, 100.0), (5.0, 35.0)),
        Weights {
            arrive: 8,
            freeze: 1,
            remove: 4,
            close: 1,
            dt: 1,
            randomise: 1,
        },
        25,
        250,
    )
}

fn check_road(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    let mut expect: HashSet<usize> = HashSet::new();
    let mut seen = 0;
    let mut frame = 0;
    drive(c, |x| {
        frame += 1;
        if x.w.sim.frame() != frame {
            return Err(format!("frame {} after {frame} steps", x.w.sim.frame()));
        }
        for v in seen..x.w.vehs.len() {
            expect.insert(v);
        }
        seen = x.w.vehs.len();
        expect.retain(|v| !x.w.vehs[*v].removed);
        if x.w.vehs.iter().any(|v| v.removed) {
            o.nontrivial();
        }
        let last = x.w.len.len() - 1;
        for a in &x.prev.vehs {
            if x.next.get(a.v).is_none() {
                o.nontrivial();
                o.count("exits", 1);
                let reach = a.pos + a.vel * x.dt + 0.5 * x.w.vehs[a.v].p.max_acc * x.dt * x.dt;
                if !c.with_dest {
                    return Err(format!("vehicle {} without a destination leaves", a.v));
                }
                if a.link != last || reach < x.w.len[last] - 1e-6 {
                    return Err(format!(
                        "vehicle {} leaves from {} m along link {} (of {last})",
                        a.v, a.pos, a.link
                    ));
                }
                expect.remove(&a.v);
            }
        }
        same(x.w, x.next, &expect, 1e-6)
    })?;
    Ok(())
}

/// The vehicles reported are exactly the expected ones, each on the road (at most `over` metres past
/// the end of its link) and each reported once.
fn same(w: &World, next: &Snap, expect: &HashSet<usize>, over: f64) -> Result<(), String> {
    let got: HashSet<usize> = next.vehs.iter().map(|s| s.v).collect();
    if got.len() != next.vehs.len() {
        return Err("a vehicle is reported twice".into());
    }
    if &got != expect {
        return Err(format!("vehicles {got:?} reported, {expect:?} expected"));
    }
    for s in &next.vehs {
        if s.pos > w.len[s.link] + over {
            return Err(format!(
                "vehicle {} is at {} m of a link of {} m",
                s.v, s.pos, w.len[s.link]
            ));
        }
        let veh = w.sim.get_vehicle(w.vehs[s.v].id);
        if veh.id() != w.vehs[s.v].id || veh.pos_mid() != s.pos {
            return Err(format!("looking up vehicle {} gives another one", s.v));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Add(VehP, u8, u8),
    Dest(u8, u8),
    Lane(u8, bool, f64),
    Remove(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reroute {
    road: LanesSpec,
    dt: f64,
    ops: Vec<(u8, Op)>,
}

fn reroute() -> BoxedStrategy<Reroute> {
    let op = prop_oneof![
        3 => (gens::veh(), any::<u8>(), any::<u8>()).prop_map(|(p, a, b)| Op::Add(p, a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Dest(a, b)),
        3 => (any::<u8>(), any::<bool>(), f(10.0, 60.0)).prop_map(|(a, r, d)| Op::Lane(a, r, d)),
        1 => any::<u8>().prop_map(Op::Remove),
    ];
    (
        lanes::lanes((30.0, 150.0), 4, 3),
        gens::dt(),
        gens::veh(),
        any::<u8>(),
        any::<u8>(),
        prop::collection::vec((0u8..80, op), 1..14),
    )
        .prop_map(|(road, dt, p, a, b, mut ops)| {
            ops.insert(0, (0, Op::Add(p, a, b)));
            Reroute { road, dt, ops }
        })
        .boxed()
}

fn check_reroute(c: &Reroute, o: &mut Obs) -> Result<(), String> {
    let ln = c.road.net();
    let mut w = World::build(&ln.net);
    let n = ln.net.links.len();
    let succ = c.road.successors(&ln);
    let reach: Vec<Vec<Option<usize>>> = (0..n).map(|s| ref_costs(&vec![1; n], &succ, s)).collect();
    // Whether a vehicle gets from `a` to `d` without having to change lanes on `a` itself (for
    // which it may be too late).
    let outs = w.outs.clone();
    let onward = |a: usize, d: usize| a == d || outs[a].iter().any(|b| reach[*b][d].is_some());
    let mut expect: HashSet<usize> = HashSet::new();
    let mut prev = w.snap();
    let mut ops = c.ops.clone();
    ops.push((200, Op::Remove(255)));
    let last = ops.len() - 1;
    for (i, (wait, op)) in ops.iter().enumerate() {
        for _ in 0..*wait {
            w.step(c.dt);
            let next = w.snap();
            for a in &prev.vehs {
                if next.get(a.v).is_some() {
                    continue;
                }
                let rec = &w.vehs[a.v];
                let dist = a.vel * c.dt + 0.5 * rec.p.max_acc * c.dt * c.dt;
                // It may have changed lanes, or gone to the next link, in the very same step.
                let at_dest = Some(a.link) == rec.dest
                    || rec.dest.map_or(false, |d| succ[a.link].contains(&d));
                if !at_dest {
                    return Err(format!(
                        "vehicle {} leaves from link {} though its destination is {:?}",
                        a.v, a.link, rec.dest
                    ));
                }
                if Some(a.link) == rec.dest && a.pos + dist < w.len[a.link] - 1e-6 {
                    return Err(format!("vehicle {} leaves from {} m", a.v, a.pos));
                }
                o.count("exits", 1);
                expect.remove(&a.v);
            }
            same(&w, &next, &expect, 1e-6)?;
            prev = next;
        }
        if i == last {
            break;
        }
        // Whether a vehicle could still stop at the end of its link
        let stops = |w: &World, s: &VSnap, link: usize| {
            let room = w.len[link] - s.pos - 0.5 * w.vehs[s.v].p.length - c.dt * s.vel;
            room > 10.0 + 1.5 * s.vel + s.vel * s.vel / 3.0
        };
        let alive: Vec<VSnap> = prev.vehs.clone();
        let pick = |k: u8| alive.get(k as usize % alive.len().max(1)).copied();
        match op {
            Op::Add(p, a, b) => {
                let src = *a as usize % n;
                if w.room(src, p, 3.0) {
                    let cands: Vec<usize> = (0..n).filter(|d| reach[src][*d].is_some()).collect();
                    let v = w.add(p, src, Some(cands[*b as usize % cands.len()]));
                    expect.insert(v);
                }
            }
            Op::Dest(k, b) => {
                if let Some(s) = pick(*k) {
                    let cands: Vec<usize> = (0..n).filter(|d| onward(s.link, *d) || stops(&w, &s, s.link)).collect();
                    w.set_dest(s.v, cands[*b as usize % cands.len()]);
                    o.nontrivial();
                    o.count("destination changes", 1);
                }
            }
            Op::Lane(k, right, d) => {
                if let Some(s) = pick(*k) {
                    let (sec, lane) = ln.place[s.link];
                    let dest = w.vehs[s.v].dest.unwrap();
                    let cands: Vec<usize> = [lane + 1, lane.wrapping_sub(1)]
                        .into_iter()
                        .filter(|to| *to < ln.at[sec].len())
                        .map(|to| ln.at[sec][to])
                        .filter(|l| onward(*l, dest) || stops(&w, &s, *l))
                        .collect();
                    if !cands.is_empty() {
                        let to = cands[*right as usize % cands.len()];
                        if !onward(to, dest) {
                            o.label("into a lane that doesn't lead on");
                        }
                        w.lane_change(s.v, to, *d);
                        o.nontrivial();
                        o.count("lane changes", 1);
                    }
                }
            }
            Op::Remove(k) => {
                if let Some(s) = pick(*k) {
                    w.remove(s.v);
                    expect.remove(&s.v);
                }
            }
        }
        prev = w.snap();
        // Beside a place just before the end of a bent lane may be one just past the end of the
        // next lane, until the next step.
        same(&w, &prev, &expect, 0.2)?;
    }
    Ok(())
}

fn check_crowd(c: &Crowd, o: &mut Obs) -> Result<(), String> {
    let mut expect: HashSet<usize> = HashSet::new();
    let mut seen = 0;
    crowd::drive(c, &mut |x| {
        expect.extend(seen..x.w.vehs.len());
        seen = x.w.vehs.len();
        expect.retain(|v| !x.w.vehs[*v].removed);
        o.max("vehicles at a time", x.next.vehs.len() as f64);
        let mut exits = 0;
        for a in &x.prev.vehs {
            if x.next.vehs.binary_search_by_key(&a.v, |s| s.v).is_ok() {
                continue;
            }
            let rec = &x.w.vehs[a.v];
            let reach = a.pos + a.vel * c.dt + 0.5 * rec.p.max_acc * c.dt * c.dt;
            if Some(a.link) != rec.dest || reach < x.w.len[a.link] - 1e-6 {
                return Err(format!("vehicle {} leaves from {} m along link {}", a.v, a.pos, a.link));
            }
            expect.remove(&a.v);
            exits += 1;
        }
        o.count("exits", exits);
        if exits > 2 {
            o.nontrivial();
        }
        same(x.w, x.next, &expect, 1e-6)
    })
}
