//! C08: traffic lights govern the links of the simulation.

use super::Prop;
use crate::cross::{self, CrossCase};
use crate::gens::f;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use std::collections::{HashMap, HashSet};
use traffic_sim::LightState;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        title: "Vehicles obey the traffic lights of the simulation, and get through",
        assumptions: &[
            "a vehicle may be committed to a link once it could no longer stop comfortably 5 m before it",
            "each road has a phase of its own of at least 4 s",
        ],
        parts: || {
            vec![Box::new(Part {
                name: "junction",
                rule: "traffic on two crossing roads under a traffic light; non-trivial if a vehicle stopped for a red light and later drove on",
                quick: 60_000,
                thorough: 1_200_000,
                strategy: junction,
                check,
            })]
        },
    }
}

fn junction() -> BoxedStrategy<CrossCase> {
    (
        cross::case(false),
        (f(1.0, 5.0), f(1.0, 5.0)),
        (f(0.0, 4.0), f(0.0, 4.0)),
        prop::collection::vec((0u8..4, f(4.0, 20.0)), 0..4),
        any::<bool>(),
        (prop_oneof![40 => Just(0u8), 10 => 1u8..6, 1 => 6u8..25], prop::collection::vec(any::<u8>(), 16)),
        (cross::feed(), cross::feed(), f(25.0, 60.0)),
    )
        .prop_map(|(mut c, amber, red, extra, swap, (more, road), (f0, f1, short))| {
            c.more = more;
            for (a, r) in c.arrivals.iter_mut().zip(road) {
                a.1 = r % (2 * (1 + more));
            }
            c.feed = [f0, f1];
            for r in 0..2 {
                if c.feed[r].is_some() {
                    c.approach[r] = c.approach[r].min(short);
                }
            }
            let links = |l: usize| (0..=more as usize).map(|k| l + 6 * k).collect::<Vec<_>>();
            let mut phases: Vec<(u64, f64)> = vec![(1, 6.0), (2, 8.0)];
            for (m, d) in extra {
                phases.push(((m % 3) as u64, d));
            }
            if swap {
                phases.rotate_left(1);
            }
            c.light = Some(LightSpec {
                moves: vec![
                    MoveSpec {
                        conflict: 2,
                        amber: amber.0,
                        red: red.0,
                        links: links(1),
                    },
                    MoveSpec {
                        conflict: 1,
                        amber: amber.1,
                        red: red.1,
                        links: links(4),
                    },
                ],
                phases,
            });
            c.tail = 300;
            c
        })
        .boxed()
}

fn check(c: &CrossCase, o: &mut Obs) -> Result<(), String> {
    let spec = c.light.clone().unwrap();
    let mut alone: Option<traffic_sim::TrafficLight> = None;
    let mut prev_state = vec![LightState::Green; 2]; // links are open until the first step
    let mut may: HashSet<usize> = HashSet::new();
    let mut waited: HashSet<usize> = HashSet::new();
    let mut green_for: [f64; 2] = [0.0; 2];
    let mut stuck: HashMap<usize, f64> = HashMap::new();
    let mut monitor = |w: &World, prev: &Snap, next: &Snap, dt: f64| -> Result<(), String> {
        let alone = alone.get_or_insert_with(|| spec.lib(&w.ids));
        alone.step(dt);
        let state = w.light_state(0);
        let want: Vec<LightState> = alone.state().map(|(_, s)| s).collect();
        if state != want {
            return Err(format!(
                "at {:.2} s the light shows {state:?}, the same light on its own {want:?}",
                w.time
            ));
        }
        for a in &prev.vehs {
            let r = a.link / 3;
            if a.link == 3 * r && prev_state[r % 2] == LightState::Green {
                let p = &w.vehs[a.v].p;
                let d = w.len[a.link] - a.pos - 0.5 * p.length;
                if d < a.vel * a.vel / (2.0 * p.comf_dec) + 7.5 + 1e-6 {
                    may.insert(a.v);
                }
            }
        }
        for r in 0..2 {
            green_for[r] = if state[r] == LightState::Green {
                green_for[r] + dt
            } else {
                0.0
            };
        }
        for b in &next.vehs {
            let r = b.link / 3;
            let p = &w.vehs[b.v].p;
            if b.link == 3 * r {
                let d = w.len[b.link] - b.pos - 0.5 * p.length;
                if !may.contains(&b.v) && prev_state[r % 2] != LightState::Green {
                    if d < 1.0 {
                        return Err(format!(
                            "at {:.2} s vehicle {} is {d:.3} m before the line of a {:?} light, at {:.2} m/s",
                            w.time, b.v, prev_state[r % 2], b.vel
                        ));
                    }
                    if b.vel < 0.1 && d < 8.0 {
                        waited.insert(b.v);
                    }
                    if d < 30.0 {
                        o.max("closest to the line (negated)", -d);
                    }
                }
                // First in the queue, green, and the road ahead clear: it moves.
                let ahead = next.vehs.iter().any(|x| {
                    x.v != b.v && x.link / 3 == r && (x.link > b.link || x.pos > b.pos)
                });
                if green_for[r % 2] > 2.0 && !ahead && d < 20.0 && b.vel < 0.2 {
                    let t = stuck.entry(b.v).or_insert(0.0);
                    *t += dt;
                    // Vehicles still in the junction from the other road may be in the way
                    if *t > 1.0 && next.vehs.iter().all(|x| x.link % 3 != 1 || x.link / 6 != b.link / 6) {
                        return Err(format!(
                            "vehicle {} does not move though its light has been green for {:.1} s",
                            b.v, green_for[r % 2]
                        ));
                    }
                } else {
                    stuck.remove(&b.v);
                }
            } else if !may.contains(&b.v) && prev_state[r % 2] != LightState::Green && b.link % 3 == 1 {
                return Err(format!("at {:.2} s vehicle {} passed a red light", w.time, b.v));
            } else if waited.contains(&b.v) {
                o.nontrivial();
            }
        }
        prev_state = state;
        Ok(())
    };
    let mut w = cross::drive_world(c, &mut monitor)?;
    // Everyone gets through
    let cycle: f64 = spec.phases.iter().map(|p| p.1 + 15.0).sum();
    let budget = 60.0 + 8.0 * cycle;
    let end = w.time + budget;
    let left = cross::finish(c, &mut w, end, &mut monitor)?;
    if left > 0 {
        return Err(format!("{left} vehicles have not got through the junction in {budget:.0} s"));
    }
    Ok(())
}
