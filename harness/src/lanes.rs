//! Multi-lane roads.

use crate::gens::*;
use crate::geom::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const LANE_WIDTH: f64 = 3.5;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Section {
    pub len: f64,
    /// Signed bend; sections are straight or circular.
    pub bend: f64,
    pub lanes: u8,
    /// How many lanes sideways the first lane is from the previous section's first lane.
    pub shift: i8,
    pub mask: u32,
    pub limit: f64,
    /// Lanes that are not connected onwards
    pub cut: u8,
    /// The lanes are separate roads
    #[serde(default)]
    pub split: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LanesSpec {
    pub sections: Vec<Section>,
}

/// The network, plus for each link its (section, lane).
pub struct LanesNet {
    pub net: NetSpec,
    pub place: Vec<(usize, usize)>,
    pub at: Vec<Vec<usize>>,
}

impl LanesSpec {
    pub fn net(&self) -> LanesNet {
        let mut net = NetSpec::default();
        let mut place = vec![];
        let mut at: Vec<Vec<usize>> = vec![];
        let mut pose = Pose {
            p: [0.0, 0.0],
            th: 0.0,
        };
        let mut first: i32 = 0;
        let mut prev_first = 0;
        for (k, s) in self.sections.iter().enumerate() {
            if k > 0 {
                prev_first = first;
                first += s.shift as i32;
            }
            let lanes = s.lanes.max(1) as usize;
            let d0 = [pose.th.cos(), pose.th.sin()];
            let turn = s.bend * (s.len / 80.0).min(1.2);
            let mut row = vec![];
            for i in 0..lanes {
                // From left to right
                let off = -(first + i as i32) as f64 * LANE_WIDTH;
                let a = add(pose.p, mul(perp(d0), off));
                let curve = if turn.abs() < 0.02 {
                    CurveSpec::Line(a, add(a, mul(d0, s.len)))
                } else {
                    let r = s.len / turn;
                    let c = add(pose.p, mul(perp(d0), r));
                    let a0 = if r > 0.0 {
                        pose.th - std::f64::consts::FRAC_PI_2
                    } else {
                        pose.th + std::f64::consts::FRAC_PI_2
                    };
                    CurveSpec::Arc(c, (r - off).abs(), a0, turn)
                };
                row.push(net.links.len());
                place.push((k, i));
                net.links.push(LinkSpec {
                    curve,
                    limit: s.limit,
                });
            }
            if turn.abs() < 0.02 {
                pose.p = add(pose.p, mul(d0, s.len));
            } else {
                let r = s.len / turn;
                let c = add(pose.p, mul(perp(d0), r));
                pose.th += turn;
                let d1 = [pose.th.cos(), pose.th.sin()];
                pose.p = sub(c, mul(perp(d1), r));
            }
            if lanes >= 2 && !s.split {
                net.groups.push((row.clone(), s.mask));
            }
            if k > 0 {
                for (i, l) in at[k - 1].iter().enumerate() {
                    let j = prev_first + i as i32 - first;
                    if j >= 0 && (j as usize) < lanes && (self.sections[k - 1].cut >> i) & 1 == 0 {
                        net.conns.push((*l, row[j as usize]));
                    }
                }
            }
            at.push(row);
        }
        LanesNet { net, place, at }
    }

    /// Where a vehicle on each link can go next: onwards, or sideways.
    pub fn successors(&self, ln: &LanesNet) -> Vec<Vec<usize>> {
        let n = ln.net.links.len();
        let mut succ = vec![vec![]; n];
        for (a, b) in &ln.net.conns {
            succ[*a].push(*b);
        }
        for a in 0..n {
            for b in 0..n {
                let (pa, pb) = (ln.place[a], ln.place[b]);
                if pa.0 == pb.0 && self.allows(pa.0, pa.1, pb.1) {
                    succ[a].push(b);
                }
            }
        }
        succ
    }

    /// Whether the mask allows the change between the two lanes of a section.
    pub fn allows(&self, section: usize, from: usize, to: usize) -> bool {
        let s = &self.sections[section];
        let n = s.lanes as usize;
        if from >= n || to >= n || s.split {
            return false;
        }
        if to + 1 == from {
            (s.mask >> (2 * from)) & 1 != 0
        } else if from + 1 == to {
            (s.mask >> (2 * from + 1)) & 1 != 0
        } else {
            false
        }
    }
}

pub fn section(len: (f64, f64), max_lanes: u8) -> BoxedStrategy<Section> {
    (
        f(len.0, len.1),
        f(-1.0, 1.0),
        1u8..=max_lanes,
        prop_oneof![3 => Just(0i8), 1 => -1i8..=1],
        prop_oneof![2 => Just(u32::MAX), 1 => any::<u32>()],
        f(6.0, 25.0),
        prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
    )
        .prop_map(|(len, bend, lanes, shift, mask, limit, cut)| Section {
            len: len.max(40.0 * (lanes as f64 - 1.0) + 20.0),
            bend,
            lanes,
            shift,
            mask,
            limit,
            cut,
            split: false,
        })
        .boxed()
}

pub fn lanes(len: (f64, f64), max_sections: usize, max_lanes: u8) -> BoxedStrategy<LanesSpec> {
    prop::collection::vec(section(len, max_lanes), 1..=max_sections)
        .prop_map(|sections| LanesSpec { sections })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LaneRoute {
    pub road: LanesSpec,
    pub veh: VehP,
    pub src: u8,
    pub dst: u8,
    pub dt: f64,
}

pub fn lane_route() -> BoxedStrategy<LaneRoute> {
    (lanes((60.0, 250.0), 4, 4), veh(), any::<u8>(), any::<u8>(), dt())
        .prop_map(|(road, veh, src, dst, dt)| LaneRoute {
            road,
            veh,
            src,
            dst,
            dt,
        })
        .boxed()
}
