//! C22: the shortest time to reach a place.

use super::Prop;
use crate::gens::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        title: "The shortest time to reach a place is that of accelerating at full power",
        assumptions: &["vehicles in motion on chains of links; speeds asked for of 1 to 50 m/s"],
        parts: || {
            vec![Box::new(Part {
                name: "reach",
                rule: "a vehicle drives along a chain of links; at random times it is asked for the shortest time to reach places behind and ahead, which is compared with the motion equations and with when it gets there; non-trivial if it moved and was asked for a place ahead",
                quick: 600_000,
                thorough: 3_000_000,
                strategy: reach,
                check: check_reach,
            })]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reach {
    chain: ChainSpec,
    veh: VehP,
    dt: f64,
    /// Step, distance ahead, highest speed
    asks: Vec<(u8, f64, f64)>,
    randomise: bool,
}

fn reach() -> BoxedStrategy<Reach> {
    (
        short_chain(3, (20.0, 200.0), (4.0, 35.0)),
        veh(),
        dt(),
        prop::collection::vec(
            (
                any::<u8>(),
                prop_oneof![f(0.0, 10.0), f(0.0, 300.0), f(-30.0, 0.0)],
                f(1.0, 50.0),
            ),
            1..20,
        ),
        any::<bool>(),
    )
        .prop_map(|(chain, veh, dt, asks, randomise)| Reach {
            chain,
            veh,
            dt,
            asks,
            randomise,
        })
        .boxed()
}

/// The shortest time to cover `d` from speed `v`, accelerating at `acc` up to `limit`.
fn shortest(v: f64, d: f64, acc: f64, limit: f64) -> f64 {
    if d <= 0.0 {
        return 0.0;
    }
    // Above the speed allowed, it is kept
    let top = limit.max(v);
    let need = (top * top - v * v) / (2.0 * acc);
    if need < d {
        (top - v) / acc + (d - need) / top
    } else {
        2.0 * d / (v + (v * v + 2.0 * acc * d).sqrt())
    }
}

fn check_reach(c: &Reach, o: &mut Obs) -> Result<(), String> {
    let net = c.chain.net();
    let mut w = World::build(&net);
    let n = net.links.len();
    let v = w.add(&c.veh, 0, Some(n - 1));
    if c.randomise {
        w.sim.randomise_velocity_adjusts(0.2);
    }
    let last = c.asks.iter().map(|a| a.0).max().unwrap_or(0);
    // Promises: link, position, earliest time
    let mut open: Vec<(usize, f64, f64)> = vec![];
    for step in 0..=last {
        let snap = w.snap();
        let Some(s) = snap.get(v) else { break };
        open.retain(|(link, ..)| *link == s.link);
        for (link, pos, at) in &open {
            if s.pos >= *pos && w.time < at - 1e-6 {
                return Err(format!(
                    "the vehicle is at {:.3} m of link {link} at {:.3} s, {pos:.3} m should take it until {at:.3} s",
                    s.pos, w.time
                ));
            }
        }
        let veh = w.sim.get_vehicle(w.vehs[v].id);
        for (_, d, top) in c.asks.iter().filter(|a| a.0 == step) {
            let got = veh.min_reach_time(s.pos + d, *top);
            let want = shortest(s.vel, *d, c.veh.max_acc, *top);
            if s.vel > 0.1 && *d > 0.0 {
                o.nontrivial();
            }
            if s.vel > *top {
                o.label("faster than allowed");
            }
            o.max("error (s)", (got - want).abs());
            if !((got - want).abs() <= 1e-6 * (1.0 + want)) {
                return Err(format!(
                    "{got} s instead of {want} s for {d} m from {} m/s up to {top} m/s",
                    s.vel
                ));
            }
            // It cannot get there sooner, whatever its temper
            let keen = 1.3 * w.limit[s.link].max(s.vel);
            let soonest = veh.min_reach_time(s.pos + d, keen);
            // (the speed of the end of a step holds during all of it)
            open.push((s.link, s.pos + d, w.time + soonest - c.dt));
        }
        w.step(c.dt);
    }
    Ok(())
}
