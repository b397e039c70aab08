//! Shared proptest generators.

use crate::geom::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Rounds to a readable grid (also keeps replay files short).
pub fn q(x: f64, k: f64) -> f64 {
    (x * k).round() / k
}

pub fn f(lo: f64, hi: f64) -> impl Strategy<Value = f64> + Clone {
    (lo..hi).prop_map(move |x| q(x, 100.0).clamp(lo, hi))
}

pub fn veh() -> BoxedStrategy<VehP> {
    (
        f(1.6, 2.6),
        prop_oneof![4 => f(3.5, 6.0), 1 => f(2.0, 3.5), 2 => f(6.0, 14.0)],
        f(0.15, 0.4),
        f(1.0, 2.5),
        f(1.0, 3.0),
        f(1.5, 4.0),
    )
        .prop_map(|(width, length, wb, headway, max_acc, comf_dec)| VehP {
            width,
            length,
            wheel_base: q(wb * length, 100.0),
            headway,
            max_acc,
            comf_dec,
        })
        .boxed()
}

pub fn dt() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => Just(0.1),
        1 => Just(0.05),
        1 => Just(0.02),
        1 => Just(1.0 / 60.0),
        1 => Just(1.0 / 30.0),
        2 => Just(0.2),
        2 => f(0.02, 0.2),
    ]
    .boxed()
}

pub fn seg(lo: f64, hi: f64) -> BoxedStrategy<Seg> {
    (0u8..4, f(lo, hi), f(-1.0, 1.0))
        .prop_map(|(kind, len, bend)| Seg { kind, len, bend })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainSpec {
    pub start: P,
    pub th: f64,
    pub segs: Vec<(Seg, f64)>,
}

pub fn chain(max: usize, len: (f64, f64), limit: (f64, f64)) -> BoxedStrategy<ChainSpec> {
    (
        (f(-200.0, 200.0), f(-200.0, 200.0)),
        f(-3.0, 3.0),
        prop::collection::vec((seg(len.0, len.1), f(limit.0, limit.1)), 1..=max),
    )
        .prop_map(|(s, th, segs)| ChainSpec {
            start: [s.0, s.1],
            th,
            segs,
        })
        .boxed()
}

/// As [chain], but with some links of only 1 m to 15 m between the first and the last.
pub fn short_chain(max: usize, len: (f64, f64), limit: (f64, f64)) -> BoxedStrategy<ChainSpec> {
    let short = prop_oneof![3 => Just(None), 1 => f(1.0, 15.0).prop_map(Some)];
    (chain(max, len, limit), prop::collection::vec(short, max))
        .prop_map(|(mut c, short)| {
            let n = c.segs.len();
            for (s, len) in c.segs.iter_mut().take(n - 1).skip(1).zip(short) {
                s.0.len = len.unwrap_or(s.0.len);
            }
            c
        })
        .boxed()
}

impl ChainSpec {
    pub fn net(&self) -> NetSpec {
        let mut pose = Pose {
            p: self.start,
            th: self.th,
        };
        let mut net = NetSpec::default();
        for (i, (s, limit)) in self.segs.iter().enumerate() {
            let (curve, next) = s.lay(pose, 12.0);
            pose = next;
            net.links.push(LinkSpec {
                curve,
                limit: *limit,
            });
            if i > 0 {
                net.conns.push((i - 1, i));
            }
        }
        net
    }
}
