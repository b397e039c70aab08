//! Many vehicles on many roads side by side, several of them added, removed, frozen and released
//! at a time.

use crate::gens::{dt, f, veh};
use crate::geom::CurveSpec;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    /// Lengths of the two halves of each road and its speed limit
    pub roads: Vec<(f64, f64, f64)>,
    pub vehs: Vec<VehP>,
    pub dt: f64,
    pub rounds: Vec<Round>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    /// On which roads a vehicle arrives, if there is room
    pub arrive: u32,
    pub remove: Vec<u16>,
    /// Vehicles frozen, or released if they already are
    pub freeze: Vec<u16>,
    pub steps: u8,
}

pub fn case() -> BoxedStrategy<Crowd> {
    let picks = || prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(any::<u16>(), 1..6)];
    let round = (any::<u32>(), picks(), picks(), 0u8..25)
        .prop_map(|(arrive, remove, freeze, steps)| Round { arrive, remove, freeze, steps });
    (
        prop::collection::vec((f(16.0, 60.0), f(16.0, 60.0), f(5.0, 15.0)), 2..24),
        prop::collection::vec(veh(), 1..4),
        dt(),
        prop::collection::vec(round, 5..40),
        any::<bool>(),
    )
        .prop_map(|(mut roads, mut vehs, dt, mut rounds, alike)| {
            if alike {
                // All leave together
                let first = roads[0];
                roads.iter_mut().for_each(|r| *r = first);
                vehs.truncate(1);
                for r in rounds.iter_mut().step_by(3) {
                    r.arrive = u32::MAX;
                }
            }
            Crowd { roads, vehs, dt, rounds }
        })
        .boxed()
}

/// The state of the crowd after a step. `frozen` says since when each frozen vehicle is.
pub struct State<'a> {
    pub w: &'a mut World,
    pub prev: &'a Snap,
    pub next: &'a Snap,
    pub frozen: &'a BTreeMap<usize, f64>,
}

/// Drives a case, calling the monitor after every step and, with equal snapshots, after every
/// round of operations.
pub fn drive(c: &Crowd, monitor: &mut dyn FnMut(&mut State) -> Result<(), String>) -> Result<(), String> {
    let mut net = NetSpec::default();
    for (i, (a, b, limit)) in c.roads.iter().enumerate() {
        let y = 20.0 * i as f64;
        for (x0, x1) in [(0.0, *a), (*a, a + b)] {
            net.links.push(LinkSpec { curve: CurveSpec::Line([x0, y], [x1, y]), limit: *limit });
        }
        net.conns.push((2 * i, 2 * i + 1));
    }
    let mut w = World::build(&net);
    let mut frozen: BTreeMap<usize, f64> = BTreeMap::new();
    for (k, round) in c.rounds.iter().enumerate() {
        for r in 0..c.roads.len() {
            let p = &c.vehs[(k + r) % c.vehs.len()];
            if round.arrive >> r & 1 != 0 && w.room(2 * r, p, 3.0) {
                w.add(p, 2 * r, Some(2 * r + 1));
            }
        }
        for pick in &round.remove {
            let vehs = w.snap().vehs;
            if !vehs.is_empty() {
                let v = vehs[*pick as usize % vehs.len()].v;
                w.remove(v);
                frozen.remove(&v);
            }
        }
        for pick in &round.freeze {
            let vehs = w.snap().vehs;
            if !vehs.is_empty() {
                let v = vehs[*pick as usize % vehs.len()].v;
                let on = frozen.remove(&v).is_none();
                w.freeze(v, on);
                if on {
                    frozen.insert(v, w.time);
                }
            }
        }
        let mut prev = w.snap();
        monitor(&mut State { w: &mut w, prev: &prev, next: &prev, frozen: &frozen })?;
        for _ in 0..round.steps {
            w.step(c.dt);
            let next = w.snap();
            frozen.retain(|v, _| next.vehs.binary_search_by_key(v, |s| s.v).is_ok());
            monitor(&mut State { w: &mut w, prev: &prev, next: &next, frozen: &frozen })?;
            prev = next;
        }
    }
    Ok(())
}
