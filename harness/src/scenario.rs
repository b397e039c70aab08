//! Histories of all kinds of operations on all kinds of networks, for comparing runs that should
//! agree.

use crate::cross::{self, CrossCase};
use crate::gens::*;
use crate::geom::*;
use crate::inter::{self, InterCase};
use crate::lanes::{self, LanesSpec};
use crate::net::{self, GridSpec};
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Place {
    Chain(ChainSpec),
    Grid(GridSpec),
    Lanes(LanesSpec),
    Cross(CrossCase),
    Inter(InterCase),
}

impl Place {
    pub fn net(&self) -> NetSpec {
        match self {
            Place::Chain(c) => c.net(),
            Place::Grid(g) => g.net(),
            Place::Lanes(l) => l.net().net,
            Place::Cross(c) => c.net(),
            Place::Inter(i) => i.net().net,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// A vehicle on a link, for a destination
    Add(VehP, u8, u8),
    Dest(u8, u8),
    Lane(u8, bool, f64),
    Remove(u8),
    Freeze(u8, bool),
    Control(u8, Ctl),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub place: Place,
    /// Steps to wait, then what to do
    pub ops: Vec<(u8, Op)>,
}

pub fn place() -> BoxedStrategy<Place> {
    let light = (f(1.0, 4.0), f(0.0, 3.0), f(4.0, 12.0), f(4.0, 12.0));
    prop_oneof![
        2 => chain(4, (30.0, 120.0), (5.0, 25.0)).prop_map(Place::Chain),
        2 => net::grid(14).prop_map(Place::Grid),
        4 => lanes::lanes((50.0, 200.0), 3, 4).prop_map(Place::Lanes),
        3 => (any::<bool>(), cross::case(false), cross::case(true), prop::option::of(light)).prop_map(|(merge, a, b, light)| {
            let mut c = if merge { b } else { a };
            c.arrivals.clear();
            c.light = light.map(|(amber, red, d0, d1)| LightSpec {
                moves: vec![
                    MoveSpec { conflict: 2, amber, red, links: vec![1] },
                    MoveSpec { conflict: 1, amber, red, links: vec![4] },
                ],
                phases: vec![(1, d0), (2, d1)],
            });
            Place::Cross(c)
        }),
        3 => (inter::case(), any::<bool>()).prop_map(|(mut c, turns)| {
            c.arrivals.clear();
            if turns {
                c.moves = 0xFFFF;
            }
            Place::Inter(c)
        }),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        8 => (veh(), any::<u8>(), any::<u8>()).prop_map(|(p, a, b)| Op::Add(p, a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Dest(a, b)),
        2 => (any::<u8>(), any::<bool>(), f(10.0, 60.0)).prop_map(|(a, r, d)| Op::Lane(a, r, d)),
        1 => any::<u8>().prop_map(Op::Remove),
        1 => (any::<u8>(), any::<bool>()).prop_map(|(a, b)| Op::Freeze(a, b)),
        1 => (any::<u8>(), prop_oneof![
            2 => Just(Ctl::Open),
            1 => Just(Ctl::Closed),
            2 => cross::ctl(),
        ]).prop_map(|(a, c)| Op::Control(a, c)),
    ]
    .boxed()
}

pub fn scenario() -> BoxedStrategy<Scenario> {
    (
        place(),
        (veh(), any::<u8>(), any::<u8>()),
        prop::collection::vec((0u8..40, op()), 1..20),
    )
        .prop_map(|(place, first, mut ops)| {
            ops.insert(0, (0, Op::Add(first.0, first.1, first.2)));
            Scenario { place, ops }
        })
        .boxed()
}

/// What can be known about a network from its specification.
pub struct Known {
    /// Where one can go from each link, onwards or sideways
    pub succ: Vec<Vec<usize>>,
    /// The neighbouring lanes one may change to
    pub side: Vec<Vec<usize>>,
    /// Whether one can get from here to there
    pub reach: Vec<Vec<bool>>,
    /// Whether a light governs the link
    pub lit: Vec<bool>,
}

impl Known {
    pub fn new(net: &NetSpec) -> Known {
        let n = net.links.len();
        let mut side = vec![vec![]; n];
        for (g, mask) in &net.groups {
            for i in 0..g.len() {
                if i > 0 && (mask >> (2 * i)) & 1 == 1 {
                    side[g[i]].push(g[i - 1]);
                }
                if i + 1 < g.len() && (mask >> (2 * i + 1)) & 1 == 1 {
                    side[g[i]].push(g[i + 1]);
                }
            }
        }
        let mut succ = side.clone();
        for (a, b) in &net.conns {
            succ[*a].push(*b);
        }
        let reach = (0..n)
            .map(|s| {
                let mut seen = vec![false; n];
                let mut todo = vec![s];
                while let Some(x) = todo.pop() {
                    if !seen[x] {
                        seen[x] = true;
                        todo.extend(&succ[x]);
                    }
                }
                seen
            })
            .collect();
        let mut lit = vec![false; n];
        for l in &net.lights {
            for m in &l.moves {
                for i in &m.links {
                    lit[*i] = true;
                }
            }
        }
        Known {
            succ,
            side,
            reach,
            lit,
        }
    }

    /// Whether a vehicle gets from `a` to `d` without having to change lanes on `a` itself.
    pub fn onward(&self, a: usize, d: usize) -> bool {
        a == d || self.succ[a].iter().any(|b| !self.side[a].contains(b) && self.reach[*b][d])
    }
}

/// Takes the operations of a scenario to a world.
pub struct Player<'a> {
    pub known: Known,
    ops: &'a [(u8, Op)],
    next: usize,
    wait: u32,
    /// Which destinations vehicles are given
    pub allow: Box<dyn Fn(usize, usize) -> bool + 'a>,
    pub done: Vec<&'static str>,
}

impl<'a> Player<'a> {
    pub fn new(net: &NetSpec, ops: &'a [(u8, Op)]) -> Self {
        Player {
            known: Known::new(net),
            ops,
            next: 0,
            wait: ops.first().map_or(0, |o| o.0 as u32),
            allow: Box::new(|_, _| true),
            done: vec![],
        }
    }

    pub fn finished(&self) -> bool {
        self.next >= self.ops.len()
    }

    /// Before a step: whatever is due. The links of the scenario are those from `base` on in the
    /// order given by `map`, its vehicles those listed in `vehs`.
    pub fn act(&mut self, w: &mut World, map: &dyn Fn(usize) -> usize, vehs: &mut Vec<usize>) {
        while self.next < self.ops.len() && self.wait == 0 {
            let op = &self.ops[self.next].1;
            self.next += 1;
            self.wait = self.ops.get(self.next).map_or(0, |o| o.0 as u32);
            self.apply(op, w, map, vehs);
        }
        self.wait = self.wait.saturating_sub(1);
    }

    fn apply(&mut self, op: &Op, w: &mut World, map: &dyn Fn(usize) -> usize, vehs: &mut Vec<usize>) {
        let n = self.known.succ.len();
        if n == 0 {
            return;
        }
        let unmap = |l: usize| (0..n).find(|i| map(*i) == l).expect("link of another network");
        let snap = w.snap();
        let alive: Vec<VSnap> = vehs.iter().filter_map(|v| snap.get(*v).copied()).collect();
        let pick = |k: u8| alive.get(k as usize % alive.len().max(1)).copied();
        match op {
            Op::Add(p, a, b) => {
                let src = *a as usize % n;
                let cands: Vec<usize> = (0..n)
                    .filter(|d| self.known.reach[src][*d] && (self.allow)(src, *d))
                    .collect();
                if !cands.is_empty() && w.room(map(src), p, 3.0) {
                    vehs.push(w.add(p, map(src), Some(map(cands[*b as usize % cands.len()]))));
                }
            }
            Op::Dest(k, b) => {
                if let Some(s) = pick(*k) {
                    let at = unmap(s.link);
                    let cands: Vec<usize> = (0..n)
                        .filter(|d| self.known.onward(at, *d) && (self.allow)(at, *d))
                        .collect();
                    if !cands.is_empty() {
                        w.set_dest(s.v, map(cands[*b as usize % cands.len()]));
                        self.done.push("destination changed");
                    }
                }
            }
            Op::Lane(k, right, d) => {
                if let Some(s) = pick(*k) {
                    let at = unmap(s.link);
                    let dest = unmap(w.vehs[s.v].dest.unwrap());
                    let cands: Vec<usize> = self.known.side[at]
                        .iter()
                        .copied()
                        .filter(|l| self.known.onward(*l, dest))
                        .collect();
                    if !cands.is_empty() {
                        w.lane_change(s.v, map(cands[*right as usize % cands.len()]), *d);
                        self.done.push("lane change");
                    }
                }
            }
            Op::Remove(k) => {
                if let Some(s) = pick(*k) {
                    w.remove(s.v);
                    self.done.push("vehicle removed");
                }
            }
            Op::Freeze(k, on) => {
                if let Some(s) = pick(*k) {
                    w.freeze(s.v, *on);
                }
            }
            Op::Control(l, c) => {
                let l = *l as usize % n;
                if !self.known.lit[l] {
                    w.control(map(l), *c);
                    self.done.push("control changed");
                }
            }
        }
    }
}

/// Everything that can be seen after a step.
#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub vehs: Vec<VSnap>,
    /// The vehicles in the order in which the simulation lists them
    pub listed: Vec<usize>,
    pub lights: Vec<String>,
}

/// Plays a scenario and records what is seen after every step. The network may have been altered
/// in ways that should not matter.
pub fn record(
    spec: &NetSpec,
    net: &NetSpec,
    ops: &[(u8, Op)],
    dt: f64,
    tail: u32,
    map: &dyn Fn(usize) -> usize,
    allow: &dyn Fn(usize, usize) -> bool,
    before: &mut dyn FnMut(&mut World, u32),
) -> Vec<Frame> {
    let mut w = World::build(net);
    let mut vehs = vec![];
    let mut player = Player::new(spec, ops);
    player.allow = Box::new(|a, b| allow(a, b));
    let mut out = vec![];
    let mut left = tail;
    let mut step = 0;
    while left > 0 {
        player.act(&mut w, map, &mut vehs);
        before(&mut w, step);
        w.step(dt);
        step += 1;
        out.push(frame(&w, &vehs, &(0..net.lights.len()).collect::<Vec<_>>()));
        if player.finished() {
            left -= 1;
        }
    }
    out
}

/// What is seen of some vehicles and lights, the vehicles numbered in the order given.
pub fn frame(w: &World, vehs: &[usize], lights: &[usize]) -> Frame {
    let snap = w.snap();
    Frame {
        vehs: vehs
            .iter()
            .enumerate()
            .filter_map(|(i, v)| snap.get(*v).map(|s| VSnap { v: i, ..*s }))
            .collect(),
        listed: w
            .sim
            .iter_vehicles()
            .filter_map(|x| vehs.iter().position(|v| w.vehs[*v].id == x.id()))
            .collect(),
        lights: lights.iter().map(|l| format!("{:?}", w.light_state(*l))).collect(),
    }
}

/// Whether vehicles that arrive at their signs in the same step may be queued in different orders
/// by the two simulations: who comes first then depends on the order in which vehicles are listed.
pub fn tied(net: &NetSpec, ops: &[(u8, Op)], a: &[Frame], b: &[Frame]) -> bool {
    let signs = net.controls.iter().filter(|(_, c)| matches!(c, Ctl::Yield { .. })).count()
        + ops.iter().filter(|(_, op)| matches!(op, Op::Control(_, Ctl::Yield { .. }))).count();
    signs >= 2 && a.iter().zip(b).any(|(x, y)| x.listed != y.listed)
}

/// Rotates (and before that mirrors) a network in the plane, keeping everything else.
pub fn moved(net: &NetSpec, m: &Motion) -> NetSpec {
    let mut out = net.clone();
    for l in &mut out.links {
        l.curve = l.curve.map(&|p| m.point(p), &|a, sw| {
            if m.mirror {
                (m.angle - a, -sw)
            } else {
                (m.angle + a, sw)
            }
        });
    }
    if m.mirror {
        // Lanes are given from left to right
        for (g, mask) in &mut out.groups {
            g.reverse();
            let n = g.len();
            let mut new = 0;
            for i in 0..n {
                let bits = (*mask >> (2 * i)) & 3;
                let bits = (bits >> 1) | ((bits & 1) << 1);
                new |= bits << (2 * (n - 1 - i));
            }
            *mask = new;
        }
    }
    out
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Motion {
    pub mirror: bool,
    pub angle: f64,
    pub shift: P,
}

impl Motion {
    pub fn vector(&self, v: P) -> P {
        let v = if self.mirror { [v[0], -v[1]] } else { v };
        let (s, c) = self.angle.sin_cos();
        [c * v[0] - s * v[1], s * v[0] + c * v[1]]
    }
    pub fn point(&self, p: P) -> P {
        add(self.vector(p), self.shift)
    }
}

/// The first step in which two recordings differ by more than the tolerance.
pub fn differ(a: &[Frame], b: &[Frame], m: &Motion, map: &dyn Fn(usize) -> usize, tol: f64) -> Option<(usize, String)> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x.lights != y.lights {
            return Some((i, format!("lights {:?} and {:?}", x.lights, y.lights)));
        }
        let ids = |f: &Frame| f.vehs.iter().map(|s| s.v).collect::<Vec<_>>();
        if ids(x) != ids(y) {
            return Some((i, format!("vehicles {:?} and {:?}", ids(x), ids(y))));
        }
        for (s, t) in x.vehs.iter().zip(&y.vehs) {
            let what = if map(s.link) != t.link {
                Some("link")
            } else if (s.pos - t.pos).abs() > tol {
                Some("position")
            } else if (s.vel - t.vel).abs() > tol {
                Some("speed")
            } else if dist(m.point(s.xy), t.xy) > tol {
                Some("place")
            } else if dist(m.vector(s.dir), t.dir) > tol {
                Some("heading")
            } else {
                // (mirroring swaps the ends of the rear line)
                let r = s.rear.map(|p| m.point(p));
                let r = if m.mirror { [r[1], r[0]] } else { r };
                if dist(r[0], t.rear[0]) > tol || dist(r[1], t.rear[1]) > tol {
                    Some("rear")
                } else {
                    None
                }
            };
            if let Some(what) = what {
                return Some((
                    i,
                    format!(
                        "the {what} of vehicle {}: link {}, {} m, {} m/s and link {}, {} m, {} m/s",
                        s.v, s.link, s.pos, s.vel, t.link, t.pos, t.vel
                    ),
                ));
            }
        }
    }
    if a.len() != b.len() {
        return Some((a.len().min(b.len()), "number of steps".into()));
    }
    None
}
