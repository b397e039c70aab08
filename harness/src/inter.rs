//! Histories of traffic on a four-arm intersection of straight roads.

use crate::gens::*;
use crate::geom::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InterCase {
    /// Deviation of each arm from its compass direction.
    pub skew: [f64; 4],
    /// Distance of the stop lines from the centre.
    pub radius: f64,
    /// Lateral offset of the lanes from the middle of the road (positive: drive on the right).
    pub side: f64,
    pub approach: f64,
    pub exit: f64,
    pub limit: [f64; 4],
    /// Bit per movement (4*from + to): whether it exists at all.
    pub moves: u16,
    /// Arms (0/2 or 1/3) whose straight movements have right of way; 2: none.
    pub major: u8,
    /// Control of each movement that is not open.
    pub ctl: [Ctl; 16],
    pub dt: f64,
    /// (steps to wait, arm, movement pick, vehicle)
    pub arrivals: Vec<(u8, u8, u8, VehP)>,
}

/// The movements that go straight on.
pub const STRAIGHT: u16 = (1 << 2) | (1 << 7) | (1 << 8) | (1 << 13);

pub struct InterNet {
    pub net: NetSpec,
    /// Link of movement 4*from+to
    pub link: [Option<usize>; 16],
    /// Movement of each link
    pub mov: Vec<Option<usize>>,
}

impl InterCase {
    /// Links: approaches 0..4, exits 4..8, then the movements.
    pub fn net(&self) -> InterNet {
        let mut net = NetSpec::default();
        let arm = |k: usize| {
            let th = k as f64 * std::f64::consts::FRAC_PI_2 + self.skew[k];
            let out = [th.cos(), th.sin()];
            let right_in = mul(perp(out), self.side); // right-hand side when driving inwards
            (out, right_in)
        };
        let ends = |k: usize| {
            let (out, r) = arm(k);
            let stop = add(mul(out, self.radius), r);
            let start = add(mul(out, self.radius + self.approach), r);
            let leave = sub(mul(out, self.radius), r);
            let end = sub(mul(out, self.radius + self.exit), r);
            (start, stop, leave, end)
        };
        for k in 0..4 {
            let (start, stop, _, _) = ends(k);
            net.links.push(LinkSpec {
                curve: CurveSpec::Line(start, stop),
                limit: self.limit[k],
            });
        }
        for k in 0..4 {
            let (_, _, leave, end) = ends(k);
            net.links.push(LinkSpec {
                curve: CurveSpec::Line(leave, end),
                limit: self.limit[k],
            });
        }
        let mut link = [None; 16];
        let mut mov = vec![None; 8];
        for from in 0..4 {
            for to in 0..4 {
                if from == to || (self.moves >> (4 * from + to)) & 1 == 0 {
                    continue;
                }
                let (_, stop, _, _) = ends(from);
                let (_, _, leave, _) = ends(to);
                let (of, _) = arm(from);
                let (ot, _) = arm(to);
                let l = 0.55 * dist(stop, leave).max(1.0) * 0.7;
                let c = CurveSpec::Cubic([
                    stop,
                    sub(stop, mul(of, l)),
                    sub(leave, mul(ot, l)),
                    leave,
                ]);
                let i = net.links.len();
                link[4 * from + to] = Some(i);
                mov.push(Some(4 * from + to));
                net.links.push(LinkSpec {
                    curve: c,
                    limit: self.limit[from].min(self.limit[to]),
                });
                net.conns.push((from, i));
                net.conns.push((i, 4 + to));
                let straight = to == (from + 2) % 4;
                if straight && self.major < 2 && from % 2 == self.major as usize {
                    net.controls.push((i, Ctl::Open));
                } else {
                    net.controls.push((i, self.ctl[4 * from + to]));
                }
            }
        }
        for a in 0..16 {
            for b in 0..a {
                if a / 4 == b / 4 {
                    continue;
                }
                if let (Some(x), Some(y)) = (link[a], link[b]) {
                    net.convs.push((x, y));
                }
            }
        }
        InterNet { net, link, mov }
    }
}

pub fn case() -> BoxedStrategy<InterCase> {
    (
        (
            prop::array::uniform4(f(-0.25, 0.25)),
            f(12.0, 25.0),
            prop_oneof![f(2.0, 2.5).boxed(), f(-2.5, -2.0).boxed()],
            f(60.0, 120.0),
            prop::array::uniform4(f(6.0, 18.0)),
        ),
        prop_oneof![3 => Just(0xFFFFu16), 2 => any::<u16>()],
        0u8..3,
        (
            prop::array::uniform16(crate::cross::ctl()),
            any::<bool>(),
        ),
        dt(),
        prop::collection::vec((0u8..50, 0u8..4, any::<u8>(), veh()), 1..24),
    )
        .prop_map(
            |((skew, radius, side, approach, limit), moves, major, (mut ctl, stop), dt, arrivals)| {
                if stop {
                    let c = ctl[0];
                    ctl = [c; 16];
                }
                let moves = moves & STRAIGHT;
                InterCase {
                    skew,
                    radius,
                    side,
                    approach,
                    exit: 80.0,
                    limit,
                    moves,
                    major,
                    ctl,
                    dt,
                    arrivals,
                }
            },
        )
        .boxed()
}

/// Runs the case until everyone has left or stood for 40 s, or for `budget` seconds after the last arrival.
/// Returns the world; the movement of each vehicle is in the vector.
pub fn drive(
    c: &InterCase,
    budget: f64,
    monitor: &mut dyn FnMut(&World, &InterNet, &[usize], &Snap, &Snap) -> Result<(), String>,
) -> Result<(World, Vec<usize>), String> {
    let n = c.net();
    let mut w = World::build(&n.net);
    let mut prev = w.snap();
    let mut pend: [Vec<(usize, VehP)>; 4] = Default::default();
    let mut movs = vec![];
    let mut end = f64::INFINITY;
    let mut stood = 0.0;
    let mut i = 0;
    loop {
        let steps = c.arrivals.get(i).map_or(1, |a| a.0 as usize);
        for _ in 0..steps {
            for k in 0..4 {
                if let Some((m, p)) = pend[k].first().copied() {
                    if w.room(k, &p, 3.0) {
                        pend[k].remove(0);
                        w.add(&p, k, Some(4 + m % 4));
                        movs.push(m);
                        prev = w.snap();
                    }
                }
            }
            w.step(c.dt);
            let next = w.snap();
            monitor(&w, &n, &movs, &prev, &next)?;
            prev = next;
            let stands = end < f64::INFINITY && prev.vehs.iter().all(|v| v.vel < 1e-3);
            stood = if stands { stood + c.dt } else { 0.0 };
        }
        if let Some((_, arm, pick, p)) = c.arrivals.get(i) {
            let arm = *arm as usize;
            let opts: Vec<usize> = (0..4).map(|t| 4 * arm + t).filter(|m| n.link[*m].is_some()).collect();
            if !opts.is_empty() {
                pend[arm].push((opts[*pick as usize % opts.len()], *p));
            }
            i += 1;
        } else if end == f64::INFINITY && pend.iter().all(|p| p.is_empty()) {
            end = w.time + budget;
        }
        if i == c.arrivals.len() && pend.iter().all(|p| p.is_empty()) && (prev.vehs.is_empty() || w.time > end || stood > 40.0) {
            return Ok((w, movs));
        }
        if w.time > 2000.0 {
            return Ok((w, movs));
        }
    }
}
