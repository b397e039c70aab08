//! Random single-lane road networks and a reference router.

use crate::gens::*;
use crate::geom::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GridSpec {
    /// Jitter of the nodes of a 3x3 grid.
    pub jit: Vec<(f64, f64)>,
    pub spacing: f64,
    /// (from node, to node, speed limit, bend)
    pub edges: Vec<(u8, u8, f64, f64)>,
    /// For each possible connection in turn, whether it is left out.
    pub drop: Vec<bool>,
}

pub fn grid(max_edges: usize) -> BoxedStrategy<GridSpec> {
    (
        prop::collection::vec((f(-0.25, 0.25), f(-0.25, 0.25)), 9),
        f(40.0, 120.0),
        prop::collection::vec((0u8..9, 0u8..9, f(5.0, 25.0), f(-0.3, 0.3)), 1..=max_edges),
        prop::collection::vec(prop::bool::weighted(0.15), 40),
    )
        .prop_map(|(jit, spacing, edges, drop)| GridSpec {
            jit,
            spacing,
            edges,
            drop,
        })
        .boxed()
}

impl GridSpec {
    pub fn net(&self) -> NetSpec {
        let node = |i: u8| -> P {
            let (x, y) = ((i % 3) as f64, (i / 3) as f64);
            let (jx, jy) = self.jit[i as usize];
            [(x + jx) * self.spacing, (y + jy) * self.spacing]
        };
        let mut net = NetSpec::default();
        let mut ends: Vec<(u8, u8)> = vec![];
        for (a, b, limit, bend) in &self.edges {
            if a == b {
                continue;
            }
            let (pa, pb) = (node(*a), node(*b));
            let curve = if bend.abs() < 0.1 {
                CurveSpec::Line(pa, pb)
            } else {
                let m = add(lerp(pa, pb, 0.5), mul(perp(sub(pb, pa)), *bend));
                CurveSpec::Quad([pa, m, pb])
            };
            net.links.push(LinkSpec {
                curve,
                limit: *limit,
            });
            ends.push((*a, *b));
        }
        let mut k = 0;
        for i in 0..ends.len() {
            for j in 0..ends.len() {
                if i != j && ends[i].1 == ends[j].0 {
                    if !self.drop[k % self.drop.len()] {
                        net.conns.push((i, j));
                    }
                    k += 1;
                }
            }
        }
        net
    }
}

/// Cheapest cost of driving from the start of `src` to the start of each link (Bellman-Ford).
pub fn ref_costs(cost: &[usize], succ: &[Vec<usize>], src: usize) -> Vec<Option<usize>> {
    let n = cost.len();
    let mut d: Vec<Option<usize>> = vec![None; n];
    d[src] = Some(0);
    for _ in 0..n {
        for a in 0..n {
            if let Some(da) = d[a] {
                for &b in &succ[a] {
                    let nd = da + cost[a];
                    if d[b].map_or(true, |x| nd < x) {
                        d[b] = Some(nd);
                    }
                }
            }
        }
    }
    d
}
