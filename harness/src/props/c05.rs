//! C05: routing.

use super::Prop;
use crate::gens::{self, f};
use crate::lanes::{self, *};
use crate::net::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        title: "Vehicles take a cheapest permitted route to their destination",
        assumptions: &[
            "single-lane links of at least 15 m; multi-lane sections long enough to change all lanes (40 m each)",
            "costs are compared in the units links report (travel time in tenths of a second)",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "network",
                    rule: "one vehicle in a random road network, its destination changed once or twice on the way; route compared with an independent shortest-path computation; non-trivial if the best route is longer than one link",
                    quick: 100_000,
                    thorough: 3_000_000,
                    strategy: network,
                    check: check_network,
                }),
                Box::new(Part {
                    name: "lanes",
                    rule: "one vehicle on a multi-lane road with restricted lane changes, dead ends and lanes that come and go or become roads of their own; non-trivial if it had to change lanes",
                    quick: 100_000,
                    thorough: 3_000_000,
                    strategy: lanes_case,
                    check: check_lanes,
                }),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Network {
    grid: GridSpec,
    veh: VehP,
    src: u8,
    dst: u8,
    dt: f64,
    /// Later changes of destination: (seconds, which)
    changes: Vec<(f64, u8)>,
}

fn network() -> BoxedStrategy<Network> {
    (
        grid(18),
        gens::veh(),
        any::<u8>(),
        any::<u8>(),
        gens::dt(),
        prop::collection::vec((f(0.0, 40.0), any::<u8>()), 0..3),
        prop::option::weighted(0.08, f(3.0, 8.0)),
    )
        .prop_map(|(mut grid, veh, src, dst, mut dt, mut changes, wide)| {
            if let Some(k) = wide {
                // Links that take minutes
                grid.spacing *= k;
                dt = dt.max(0.2);
                for ch in changes.iter_mut() {
                    ch.0 *= k;
                }
            }
            Network {
                grid,
                veh,
                src,
                dst,
                dt,
                changes,
            }
        })
        .boxed()
}

fn check_network(c: &Network, o: &mut Obs) -> Result<(), String> {
    let net = c.grid.net();
    let n = net.links.len();
    if n == 0 {
        return Ok(());
    }
    let mut w = World::build(&net);
    let cost: Vec<usize> = w.ids.iter().map(|i| w.sim.get_link(*i).cost()).collect();
    let src = c.src as usize % n;
    let choose = |w: &World, from: usize, k: u8| -> usize {
        let d = ref_costs(&cost, &w.outs, from);
        // Prefer somewhere else than here
        let cands: Vec<usize> = (0..n).filter(|i| d[*i].is_some() && *i != from).collect();
        if cands.is_empty() {
            from
        } else {
            cands[k as usize % cands.len()]
        }
    };
    let mut dst = choose(&w, src, c.dst);
    let v = w.add(&c.veh, src, Some(dst));
    // The route since the destination was last set
    let mut path = vec![src];
    let mut changes = c.changes.clone();
    changes.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let budget = 150.0 + 3.0 * w.len.iter().sum::<f64>() / 3.0;
    loop {
        w.step(c.dt);
        let snap = w.snap();
        let Some(s) = snap.get(v) else { break };
        if s.link != *path.last().unwrap() {
            path.push(s.link);
        }
        if w.time > budget {
            return Err(format!(
                "the vehicle never arrives: route so far {path:?}, destination {dst}, now at {:.2} m, {:.2} m/s",
                s.pos, s.vel
            ));
        }
        if changes.last().map_or(false, |ch| ch.0 <= w.time) {
            let (_, k) = changes.pop().unwrap();
            dst = choose(&w, s.link, k);
            w.set_dest(v, dst);
            if w.sim.get_vehicle(w.vehs[v].id).destination() != w.ids[dst] {
                return Err("the destination is not reported".into());
            }
            o.label("destination changed on the way");
            path = vec![s.link];
        }
    }
    for p in path.windows(2) {
        if !w.outs[p[0]].contains(&p[1]) {
            return Err(format!("from {} to {} without a connection", p[0], p[1]));
        }
    }
    if *path.last().unwrap() != dst {
        return Err(format!("left at {path:?}, destination {dst}"));
    }
    let best = ref_costs(&cost, &w.outs, path[0])[dst].unwrap();
    let taken: usize = path[..path.len() - 1].iter().map(|l| cost[*l]).sum();
    if taken != best {
        return Err(format!("route {path:?} costs {taken}, the best one {best}"));
    }
    if path.len() > 1 {
        o.nontrivial();
    }
    if path[..path.len() - 1].iter().any(|l| cost[*l] > 600) {
        o.label("more than a minute on a link");
    }
    if path.len() > 3 {
        o.label("four links or more");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Lanes {
    road: LanesSpec,
    veh: VehP,
    src: u8,
    dst: u8,
    dt: f64,
    /// Lane changes it is told to make: (seconds, to the right, distance)
    #[serde(default)]
    told: Vec<(f64, bool, f64)>,
}

fn lanes_case() -> BoxedStrategy<Lanes> {
    (
        lanes::lanes((60.0, 250.0), 4, 5),
        gens::veh(),
        any::<u8>(),
        any::<u8>(),
        gens::dt(),
        prop_oneof![
            1 => Just(vec![]),
            1 => prop::collection::vec((f(0.0, 30.0), any::<bool>(), f(10.0, 40.0)), 1..4),
        ],
        prop_oneof![1 => Just(0u8), 1 => any::<u8>()],
        prop::bool::weighted(0.2),
    )
        .prop_map(|(mut road, veh, mut src, dst, dt, mut told, split, part)| {
            for (i, s) in road.sections.iter_mut().enumerate() {
                s.split = (split >> i) & 1 != 0;
            }
            let n = road.sections.len();
            if part && n >= 3 {
                // Once on another lane it has to stay there, and gets to its destination all the same
                let lanes = road.sections[0].lanes.max(2);
                for (i, s) in road.sections.iter_mut().enumerate() {
                    s.lanes = lanes;
                    s.shift = 0;
                    s.cut = 0;
                    s.split = i > 0 && i + 1 < n;
                    s.mask = if i == 0 { 0 } else { u32::MAX };
                    s.len += 40.0 * lanes as f64;
                }
                src %= lanes;
                for t in told.iter_mut() {
                    t.0 *= 0.2;
                }
            }
            Lanes { road, veh, src, dst, dt, told }
        })
        .boxed()
}

fn check_lanes(c: &Lanes, o: &mut Obs) -> Result<(), String> {
    let ln = c.road.net();
    let mut w = World::build(&ln.net);
    let n = ln.net.links.len();
    let succ = c.road.successors(&ln);
    let src = c.src as usize % n;
    let d = ref_costs(&vec![1; n], &succ, src);
    let cands: Vec<usize> = (0..n).filter(|i| d[*i].is_some()).collect();
    let dst = cands[c.dst as usize % cands.len()];
    let v = w.add(&c.veh, src, Some(dst));
    let mut path = vec![src];
    let mut told = c.told.clone();
    told.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let mut moved: Vec<(usize, usize)> = vec![];
    let budget = 60.0 + w.len.iter().sum::<f64>() / 3.0;
    loop {
        w.step(c.dt);
        let snap = w.snap();
        let Some(s) = snap.get(v) else { break };
        if s.link != *path.last().unwrap() {
            path.push(s.link);
        }
        if told.last().map_or(false, |t| t.0 <= w.time) {
            // (as soon as it is possible)
            let (_, right, by) = *told.last().unwrap();
            let (sec, lane) = ln.place[s.link];
            let row = &ln.at[sec];
            let to = if right { lane + 1 } else { lane.wrapping_sub(1) };
            // With room to change lanes again if need be
            let room = w.len[s.link] - s.pos - s.vel - by;
            if to < row.len()
                && !c.road.sections[sec].split
                && room > 40.0 * row.len() as f64
                && ref_costs(&vec![1; n], &succ, row[to])[dst].is_some()
            {
                told.pop();
                w.lane_change(v, row[to], by);
                moved.push((s.link, row[to]));
                path.push(row[to]);
                o.label("told to change lanes");
            }
        }
        if w.time > budget {
            return Err(format!(
                "the vehicle never arrives: route so far {path:?}, destination {dst}, now at {:.2} m, {:.2} m/s",
                s.pos, s.vel
            ));
        }
    }
    let side = |a: usize, b: usize| {
        ln.place[a].0 == ln.place[b].0 && c.road.allows(ln.place[a].0, ln.place[a].1, ln.place[b].1)
    };
    for p in path.windows(2) {
        // A lane change and the step onto the next link may fall into the same time step.
        let ok = w.outs[p[0]].contains(&p[1])
            || side(p[0], p[1])
            || moved.contains(&(p[0], p[1]))
            || succ[p[0]]
                .iter()
                .any(|m| side(p[0], *m) && w.outs[*m].contains(&p[1]));
        if !ok {
            return Err(format!(
                "from {} to {} without a connection or permitted lane change, route {path:?}",
                p[0], p[1]
            ));
        }
    }
    let last = *path.last().unwrap();
    if last != dst {
        return Err(format!("left at {path:?}, destination {dst}"));
    }
    if path.windows(2).any(|p| side(p[0], p[1])) {
        o.nontrivial();
    }
    Ok(())
}
