//! Histories of traffic on a chain of links: the shared driver.

use crate::gens::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// A vehicle wants to enter at the start of the chain as soon as there is room.
    Arrive(VehP),
    /// A vehicle wants to enter at the start of some link of the chain, likewise.
    Join(VehP, u8),
    Freeze(u8),
    Unfreeze(u8),
    Remove(u8),
    Close(u8),
    Open(u8),
    Dt(f64),
    Randomise(f64),
    Nop,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    pub chain: ChainSpec,
    pub dt: f64,
    /// Whether vehicles get the last link as destination, or none at all.
    pub with_dest: bool,
    /// Gap required for insertion.
    pub gap: f64,
    pub events: Vec<(u8, Act)>,
    pub tail: u16,
}

pub struct Weights {
    pub arrive: u32,
    pub freeze: u32,
    pub remove: u32,
    pub close: u32,
    pub dt: u32,
    pub randomise: u32,
}

pub fn act(w: &Weights) -> BoxedStrategy<Act> {
    prop_oneof![
        w.arrive => veh().prop_map(Act::Arrive),
        w.arrive / 4 => (veh(), any::<u8>()).prop_map(|(p, l)| Act::Join(p, l)),
        w.freeze => any::<u8>().prop_map(Act::Freeze),
        w.freeze => any::<u8>().prop_map(Act::Unfreeze),
        w.remove => any::<u8>().prop_map(Act::Remove),
        w.close => any::<u8>().prop_map(Act::Close),
        w.close => any::<u8>().prop_map(Act::Open),
        w.dt => dt().prop_map(Act::Dt),
        w.randomise => f(0.0, 0.5).prop_map(Act::Randomise),
        1 => Just(Act::Nop),
    ]
    .boxed()
}

pub fn case(
    chain: BoxedStrategy<ChainSpec>,
    w: Weights,
    events: usize,
    tail: u16,
) -> BoxedStrategy<ChainCase> {
    (
        chain,
        dt(),
        prop::bool::weighted(0.8),
        f(2.5, 8.0),
        veh(),
        prop::collection::vec((0u8..60, act(&w)), 1..=events),
    )
        .prop_map(move |(chain, dt, with_dest, gap, first, mut events)| {
            events.insert(0, (0, Act::Arrive(first)));
            ChainCase {
                chain,
                dt,
                with_dest,
                gap,
                events,
                tail,
            }
        })
        .boxed()
}

/// What happened in the scenario at the time of a step.
pub struct Ctx<'a> {
    pub w: &'a World,
    pub dt: f64,
    pub prev: &'a Snap,
    pub next: &'a Snap,
    pub frozen: &'a [usize],
    pub reported_frozen: &'a [usize],
    /// Vehicles added since the previous step
    pub closed: &'a [bool],
    /// start of each link along the chain
    pub base: &'a [f64],
    pub randomised: bool,
}

impl<'a> Ctx<'a> {
    /// What the simulation itself says about whether a vehicle is frozen.
    pub fn w_frozen(&self, v: usize) -> bool {
        self.reported_frozen.contains(&v)
    }

    /// The vehicles from front to back.
    pub fn order(&self) -> Vec<usize> {
        let mut v: Vec<(f64, usize)> = self.next.vehs.iter().map(|s| (self.s(s), s.v)).collect();
        v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
        v.into_iter().map(|(_, v)| v).collect()
    }

    pub fn s(&self, v: &VSnap) -> f64 {
        self.base[v.link] + v.pos
    }
}

/// Drives a case, calling the monitor after every step.
pub fn drive(
    case: &ChainCase,
    mut monitor: impl FnMut(&Ctx) -> Result<(), String>,
) -> Result<World, String> {
    let net = case.chain.net();
    let mut w = World::build(&net);
    let n = net.links.len();
    let mut base = vec![0.0; n];
    for i in 1..n {
        base[i] = base[i - 1] + w.len[i - 1];
    }
    let mut dt = case.dt;
    let mut pending: Vec<(VehP, usize)> = vec![];
    let mut frozen: Vec<usize> = vec![];
    let mut closed = vec![false; n];
    let mut randomised = false;
    let mut prev = w.snap();

    let mut events = case.events.clone();
    events.push((0, Act::Nop));
    let last = events.len() - 1;
    for (i, (wait, a)) in events.into_iter().enumerate() {
        let steps = if i == last { case.tail } else { wait as u16 };
        let alive: Vec<usize> = prev.vehs.iter().map(|s| s.v).collect();
        let pick = |k: u8| alive.get(k as usize % alive.len().max(1)).copied();
        match a {
            Act::Arrive(p) => pending.push((p, 0)),
            Act::Join(p, l) => {
                // Without a destination no vehicle would look past the end of its link
                // and on short links it would stand across the next line
                let l = if case.with_dest { l as usize % n } else { 0 };
                pending.push((p, if case.chain.segs[l].0.len < 15.0 { 0 } else { l }))
            }
            Act::Freeze(k) => {
                if let Some(v) = pick(k) {
                    w.freeze(v, true);
                    if !frozen.contains(&v) {
                        frozen.push(v);
                    }
                }
            }
            Act::Unfreeze(k) => {
                if !frozen.is_empty() {
                    let v = frozen.remove(k as usize % frozen.len());
                    w.freeze(v, false);
                }
            }
            Act::Remove(k) => {
                if let Some(v) = pick(k) {
                    w.remove(v);
                    prev.vehs.retain(|s| s.v != v);
                }
            }
            Act::Close(k) => {
                if n > 1 {
                    let l = 1 + k as usize % (n - 1);
                    w.control(l, Ctl::Closed);
                    closed[l] = true;
                }
            }
            Act::Open(k) => {
                if n > 1 {
                    let l = 1 + k as usize % (n - 1);
                    w.control(l, Ctl::Open);
                    closed[l] = false;
                }
            }
            Act::Dt(d) => dt = d,
            Act::Randomise(s) => {
                w.sim.randomise_velocity_adjusts(s);
                randomised = true;
            }
            Act::Nop => {}
        }
        for _ in 0..steps {
            if let Some((p, link)) = pending.first().copied() {
                let free = prev.vehs.iter().all(|o| {
                    let q = &w.vehs[o.v].p;
                    let d = base[o.link] + o.pos - base[link];
                    let gap = d.abs() - 0.5 * (q.length + p.length);
                    if d >= 0.0 {
                        gap >= case.gap
                    } else {
                        // Those behind must be able to stop in comfort
                        gap >= case.gap
                            + o.vel * (q.headway + 0.3)
                            + o.vel * o.vel / (2.0 * q.comf_dec)
                    }
                });
                if free {
                    pending.remove(0);
                    w.add(&p, link, case.with_dest.then_some(n - 1));
                    prev = w.snap();
                }
            }
            w.step(dt);
            let next = w.snap();
            frozen.retain(|v| next.get(*v).is_some());
            let reported_frozen: Vec<usize> = next
                .vehs
                .iter()
                .map(|s| s.v)
                .filter(|v| w.sim.get_vehicle_frozen(w.vehs[*v].id))
                .collect();
            monitor(&Ctx {
                w: &w,
                dt,
                prev: &prev,
                next: &next,
                frozen: &frozen,
                reported_frozen: &reported_frozen,
                closed: &closed,
                base: &base,
                randomised,
            })?;
            prev = next;
        }
    }
    Ok(w)
}
