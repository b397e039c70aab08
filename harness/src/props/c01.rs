//! C01: the motion of every vehicle is physically sound in every step.

use super::Prop;
use crate::chain::{self, *};
use crate::cross::{self, CrossCase};
use crate::gens::{self, f};
use crate::geom::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        title: "Vehicles move forward only, within their acceleration limits",
        assumptions: &[
            "time steps of 1/100 s to 1 s (most at most 0.2 s: the documentation advises against more)",
            "links of at least 1 m (the first and last of a road at least 15 m), speed limits of 4 m/s to 35 m/s",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "road",
                    rule: "histories of arrivals, freezes, removals, closures, changes of time step and of driver temperament on a chain of links; non-trivial if some vehicle both sped up and slowed down",
                    quick: 60_000,
                    thorough: 2_000_000,
                    strategy: road,
                    check: check_road,
                }),
                Box::new(Part {
                    name: "wild",
                    rule: "as \"road\", with time steps of up to a second and vehicles of all sizes and powers; non-trivial likewise",
                    quick: 30_000,
                    thorough: 1_000_000,
                    strategy: wild,
                    check: check_road,
                }),
                Box::new(Part {
                    name: "junction",
                    rule: "two crossing or merging roads with right of way; non-trivial if vehicles of both roads were present at once",
                    quick: 20_000,
                    thorough: 500_000,
                    strategy: junction,
                    check: check_junction,
                }),
            ]
        },
    }
}

fn road() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(8, (15.0, 150.0), (4.0, 35.0)),
        Weights {
            arrive: 8,
            freeze: 2,
            remove: 1,
            close: 2,
            dt: 2,
            randomise: 1,
        },
        25,
        200,
    )
}

fn wild() -> BoxedStrategy<ChainCase> {
    let attrs = (f(0.5, 4.0), f(1.0, 25.0), f(0.1, 5.0), f(0.3, 8.0), f(0.3, 6.0)).prop_map(
        |(width, length, headway, max_acc, comf_dec)| VehP {
            width,
            length,
            wheel_base: 0.3 * length,
            headway,
            max_acc,
            comf_dec,
        },
    );
    (road(), prop::collection::vec(attrs, 1..6), prop::collection::vec(f(0.01, 1.0), 1..4))
        .prop_map(|(mut c, attrs, dts)| {
            c.dt = dts[0];
            for (i, (_, act)) in c.events.iter_mut().enumerate() {
                match act {
                    Act::Arrive(p) | Act::Join(p, _) => *p = attrs[i % attrs.len()],
                    Act::Dt(dt) => *dt = dts[i % dts.len()],
                    _ => {}
                }
            }
            c
        })
        .boxed()
}

fn junction() -> BoxedStrategy<CrossCase> {
    any::<bool>().prop_flat_map(cross::case).boxed()
}

/// Checks the speeds of a vehicle before and after a step of `dt`, and the distance travelled.
pub fn step_ok(p: &VehP, a: &VSnap, b: &VSnap, ds: f64, dt: f64) -> Result<(), String> {
    let tol = 1e-6;
    let numbers = [[b.vel, b.pos], b.xy, b.dir, b.rear[0], b.rear[1]];
    if !numbers.iter().flatten().all(|x| x.is_finite()) {
        return Err(format!("vehicle {}: speed {} pos {} {numbers:?}", a.v, b.vel, b.pos));
    }
    // In the plane it gets no further (the centre line is known to 1 % and joints to a few centimetres)
    let jump = dist(a.xy, b.xy);
    if jump > 1.03 * ds.abs() + 0.1 {
        return Err(format!("vehicle {} jumps by {jump} m in the plane when driving {ds} m", a.v));
    }
    if b.vel < 0.0 {
        return Err(format!("vehicle {} drives backwards at {} m/s", a.v, b.vel));
    }
    if b.vel > a.vel + dt * p.max_acc + tol {
        return Err(format!(
            "vehicle {} with maximum acceleration {} goes from {} to {} m/s in {dt} s",
            a.v, p.max_acc, a.vel, b.vel
        ));
    }
    if b.vel < a.vel - dt * MAX_BRAKE - tol {
        return Err(format!(
            "vehicle {} brakes from {} to {} m/s in {dt} s, harder than {MAX_BRAKE} m/s^2",
            a.v, a.vel, b.vel
        ));
    }
    let want = 0.5 * (a.vel + b.vel) * dt;
    if (ds - want).abs() > tol {
        return Err(format!(
            "vehicle {} moves {ds} m in {dt} s while its speed goes from {} to {} m/s",
            a.v, a.vel, b.vel
        ));
    }
    Ok(())
}

fn check_road(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    let mut up = vec![];
    let mut down = vec![];
    drive(c, |x| {
        for a in &x.prev.vehs {
            if let Some(b) = x.next.get(a.v) {
                step_ok(&x.w.vehs[a.v].p, a, b, x.s(b) - x.s(a), x.dt)?;
                o.count("vehicle steps", 1);
                o.max("way in the plane beyond that driven (m)", dist(a.xy, b.xy) - (x.s(b) - x.s(a)));
                if b.link != a.link {
                    o.label("crosses into another link");
                }
                if b.vel > a.vel && !up.contains(&a.v) {
                    up.push(a.v);
                }
                if b.vel < a.vel && !down.contains(&a.v) {
                    down.push(a.v);
                }
                if a.vel - b.vel > x.dt * (MAX_BRAKE - 0.01) {
                    o.label("brakes at the limit");
                }
            }
        }
        Ok(())
    })?;
    if up.iter().any(|v| down.contains(v)) {
        o.nontrivial();
    }
    Ok(())
}

fn check_junction(c: &CrossCase, o: &mut Obs) -> Result<(), String> {
    cross::drive(c, |w, prev, next, dt| {
        for a in &prev.vehs {
            if let Some(b) = next.get(a.v) {
                let ds = if a.link == b.link {
                    b.pos - a.pos
                } else {
                    b.pos + w.len[a.link] - a.pos
                };
                step_ok(&w.vehs[a.v].p, a, b, ds, dt)?;
                o.count("vehicle steps", 1);
            }
        }
        if next.vehs.iter().any(|v| v.link < 3) && next.vehs.iter().any(|v| v.link >= 3) {
            o.nontrivial();
        }
        Ok(())
    })
}
