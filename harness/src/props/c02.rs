//! C02: vehicles in one lane keep their distance and their order.

use super::Prop;
use crate::chain::{self, *};
use crate::gens;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;

/// The smallest bumper-to-bumper distance allowed (m).
const GAP: f64 = 1.5;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        title: "Vehicles following one another never collide or swap places",
        assumptions: &[
            "vehicles enter at standstill with at least 2.5 m to the vehicle ahead",
            "links of at least 1 m (the first and last of a road at least 15 m), vehicles of 2 m to 14 m, headways of 1 s to 2.5 s, maximum acceleration 1 to 3 m/s^2, comfortable deceleration 1.5 to 4 m/s^2, time steps up to 0.2 s",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "mixed",
                    rule: "histories of arrivals, freezes, removals, closures and changes of time step on a chain of links of different lengths, shapes and limits; non-trivial if some vehicle came within 20 m of the one ahead at more than 3 m/s",
                    quick: 150_000,
                    thorough: 3_000_000,
                    strategy: mixed,
                    check,
                }),
                Box::new(Part {
                    name: "fast",
                    rule: "long fast roads with sudden stops ahead; non-trivial as above",
                    quick: 60_000,
                    thorough: 1_500_000,
                    strategy: fast,
                    check,
                }),
            ]
        },
    }
}

fn mixed() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(8, (15.0, 120.0), (4.0, 35.0)),
        Weights {
            arrive: 8,
            freeze: 2,
            remove: 1,
            close: 2,
            dt: 1,
            randomise: 1,
        },
        25,
        300,
    )
}

fn fast() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::chain(4, (100.0, 500.0), (15.0, 40.0)),
        Weights {
            arrive: 8,
            freeze: 2,
            remove: 0,
            close: 1,
            dt: 1,
            randomise: 0,
        },
        20,
        400,
    )
}

fn check(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    // The vehicles from front to back: whoever is present must stay in this order.
    let mut order: Vec<usize> = vec![];
    let mut tightest = f64::INFINITY;
    let mut known = false;
    // When one vehicle was last not seen by the other because of its overhang
    let mut overhang: std::collections::HashMap<(usize, usize), f64> = Default::default();
    drive(c, |x| {
        if known {
            return Ok(());
        }
        let mut ahead: Option<(&VSnap, f64)> = None;
        order.retain(|v| x.next.get(*v).is_some());
        for v in x.order() {
            if !order.contains(&v) {
                // A new vehicle: its place is where it was put
                let s = x.s(x.next.get(v).unwrap());
                let at = order
                    .iter()
                    .position(|o| x.s(x.next.get(*o).unwrap()) < s)
                    .unwrap_or(order.len());
                order.insert(at, v);
            }
        }
        for v in &order {
            let v = x.next.get(*v).unwrap();
            let s = x.s(v);
            let half = 0.5 * x.w.vehs[v.v].p.length;
            if let Some((l, rear)) = ahead {
                let gap = rear - (s + half);
                // The one ahead reaches back over lines the other is before, on short links
                let between = x.base[l.link] - x.base[(v.link + 1).min(l.link)];
                if l.link >= v.link + 2 && rear < x.base[l.link] && between < 15.0 {
                    overhang.insert((v.v, l.v), x.w.time);
                }
                let lately = overhang.get(&(v.v, l.v)).map_or(false, |t| *t > x.w.time - 2.0);
                if gap < GAP && lately && is_known("C02", "overhang") {
                    o.label("known finding: overhang");
                    known = true;
                    return Ok(());
                }
                tightest = tightest.min(gap);
                if gap < GAP {
                    return Err(format!(
                        "at {:.2} s vehicle {} is {gap:.3} m behind vehicle {} (speeds {:.2} and {:.2} m/s)",
                        x.w.time, v.v, l.v, v.vel, l.vel
                    ));
                }
                if gap < 20.0 && v.vel > 3.0 {
                    o.nontrivial();
                    if v.link != l.link {
                        o.label("follows across a link boundary");
                    }
                    if l.vel < 0.1 {
                        o.label("approaches a stopped vehicle");
                    }
                }
            }
            ahead = Some((v, s - half));
        }
        Ok(())
    })?;
    if tightest.is_finite() {
        o.max("smallest gap (negated)", -tightest);
    }
    Ok(())
}
