//! C18: the same again, turned and mirrored.

use super::Prop;
use crate::gens::*;
use crate::runner::*;
use crate::scenario::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        title: "The simulation is deterministic and knows no left, right or north",
        assumptions: &[
            "where there is a choice between equally good lanes to the left and right, either may be taken",
            "histories that a turn by a millionth of a radian changes are not compared",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "again",
                    rule: "the same history of operations on two simulations built alike; non-trivial if two vehicles were on the road",
                    quick: 60_000,
                    thorough: 600_000,
                    strategy: again,
                    check: check_again,
                }),
                Box::new(Part {
                    name: "moved",
                    rule: "a history of operations on a network, and on the same network turned, mirrored and shifted in the plane; non-trivial if two vehicles were on the road",
                    quick: 100_000,
                    thorough: 800_000,
                    strategy: moved_case,
                    check: check_moved,
                }),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Moved {
    sc: Scenario,
    dt: f64,
    motion: Motion,
}

fn again() -> BoxedStrategy<Moved> {
    (scenario(), dt())
        .prop_map(|(sc, dt)| Moved {
            sc,
            dt,
            motion: STAY,
        })
        .boxed()
}

const STAY: Motion = Motion {
    mirror: false,
    angle: 0.0,
    shift: [0.0, 0.0],
};

fn moved_case() -> BoxedStrategy<Moved> {
    (
        scenario(),
        dt(),
        prop::bool::weighted(0.6),
        prop_oneof![4 => f(-3.1, 3.1), 1 => Just(0.0), 1 => (-2i8..=2).prop_map(|k| k as f64 * std::f64::consts::FRAC_PI_2)],
        (f(-300.0, 300.0), f(-300.0, 300.0)),
    )
        .prop_map(|(mut sc, dt, mirror, angle, s)| {
            if let Place::Lanes(l) = &mut sc.place {
                for s in &mut l.sections {
                    // No choice between lanes to the left and to the right
                    if mirror {
                        s.lanes = s.lanes.min(2);
                    }
                    // Lengths far from being rounded up or down
                    s.len += 0.0037;
                }
            }
            Moved {
                sc,
                dt,
                motion: Motion {
                    mirror,
                    angle,
                    shift: [s.0, s.1],
                },
            }
        })
        .boxed()
}

fn run(c: &Moved, m: &Motion) -> Vec<Frame> {
    let net = c.sc.place.net();
    let mut out = record(&net, &moved(&net, m), &c.sc.ops, c.dt, 120, &|l| l, &|_, _| true, &mut |_, _| ());
    if let Place::Grid(_) = c.sc.place {
        // (the heading of a vehicle that turns round on the spot is undefined)
        for s in out.iter_mut().flat_map(|f| &mut f.vehs) {
            s.dir = [0.0, 0.0];
            s.rear = [s.xy; 2];
        }
    }
    out
}

fn check_again(c: &Moved, o: &mut Obs) -> Result<(), String> {
    let a = run(c, &STAY);
    let b = run(c, &STAY);
    if a.iter().any(|f| f.vehs.len() >= 2) {
        o.nontrivial();
    }
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if x != y {
            let d = differ(&a[i..=i], &b[i..=i], &STAY, &|l| l, 0.0);
            return Err(format!("the second run differs in step {i}: {d:?}"));
        }
    }
    Ok(())
}

const TOL: f64 = 0.02;

fn check_moved(c: &Moved, o: &mut Obs) -> Result<(), String> {
    let a = run(c, &STAY);
    let b = run(c, &c.motion);
    if a.iter().any(|f| f.vehs.len() >= 2) {
        o.nontrivial();
    }
    o.label(match c.sc.place {
        Place::Chain(_) => "chain",
        Place::Grid(_) => "grid",
        Place::Lanes(_) => "lanes",
        Place::Cross(_) => "crossing or merge",
        Place::Inter(_) => "intersection",
    });
    let Some((i, what)) = differ(&a, &b, &c.motion, &|l| l, TOL) else {
        return Ok(());
    };
    // On a knife's edge? Try with tiny turns and shifts.
    let tiny = [1e-6, -1e-6, 4e-7, -3e-7, 2e-5, -2e-5].map(|x| (x, [0.0; 2]));
    let tiny = tiny.into_iter().chain((0..16).map(|k| {
        let x = 1e-6 * 0.7f64.powi(k);
        (0.0, [[x, 0.0], [0.0, x], [-x, x], [x, -x]][k as usize % 4])
    }));
    // (The start of a lane lies exactly at the start of the lanes beside it: on which side of each
    // other they are depends on the rounding of the coordinates.)
    let lanes = if matches!(c.sc.place, Place::Lanes(_)) { 24 } else { 0 };
    let tiny = tiny.chain((0..lanes).map(|k| {
        let x = 3.7 * (k / 2 + 1) as f64;
        (0.0, if k % 2 == 0 { [0.0, x] } else { [x, 0.0] })
    }));
    for (angle, shift) in tiny {
        let m = Motion { angle, shift, ..STAY };
        let n = Motion {
            angle: c.motion.angle + angle,
            shift: [c.motion.shift[0] + angle + shift[0], c.motion.shift[1] + shift[1]],
            ..c.motion
        };
        let first = |d: Option<(usize, String)>| d.map_or(usize::MAX, |x| x.0);
        let k = first(differ(&a, &run(c, &m), &m, &|l| l, 0.1 * TOL));
        // (the frames of both are turned back by the original motion; the difference is small)
        let back = Motion { shift, ..STAY };
        let l = first(differ(&b, &run(c, &n), &back, &|l| l, 2.0 * TOL));
        if k.min(l) <= i {
            o.label("too sensitive to compare");
            return Ok(());
        }
    }
    Err(format!(
        "{} by {} rad, it differs in step {i}: {what}",
        if c.motion.mirror { "mirrored and turned" } else { "turned" },
        c.motion.angle
    ))
}
