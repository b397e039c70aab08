//! C07: the signal heads of a traffic light.

use super::Prop;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use traffic_sim::math::{LineSegment2d, Point2d};
use traffic_sim::{LightState, LinkAttributes, LinkId, Simulation, TrafficControl, TrafficLight};

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        title: "Traffic lights never give way to conflicting movements and keep their timing",
        assumptions: &[
            "conflicts are declared both ways and no phase combines conflicting movements",
            "in the part against the reference model, no duration is a multiple of the time step",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "model",
                    rule: "a light with 1 to 64 movements and 0 to 6 phases stepped against a reference model; non-trivial if it went through at least two phases",
                    quick: 100_000,
                    thorough: 1_000_000,
                    strategy: model,
                    check: check_model,
                }),
                Box::new(Part {
                    name: "varied",
                    rule: "a light stepped by varying time steps, also those of zero clearance and amber times; non-trivial if some movement waited for a conflicting one",
                    quick: 100_000,
                    thorough: 1_000_000,
                    strategy: varied,
                    check: check_varied,
                }),
            ]
        },
    }
}

/// Times in steps and a fraction of a step, to stay away from ties.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Move {
    amber: f64,
    red: f64,
    links: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    dt: Vec<f64>,
    moves: Vec<Move>,
    /// Pairs of conflicting movements (indices are wrapped)
    conflicts: Vec<(u8, u8)>,
    /// Movements in each phase (those that conflict with earlier ones are left out), duration
    phases: Vec<(u64, f64)>,
    steps: u16,
}

impl Case {
    fn conflict(&self, a: usize, b: usize) -> bool {
        let n = self.moves.len();
        self.conflicts.iter().any(|(x, y)| {
            let (x, y) = (*x as usize % n, *y as usize % n);
            x != y && ((x, y) == (a, b) || (y, x) == (a, b))
        })
    }

    fn mask(&self, want: u64) -> u64 {
        let mut m = 0u64;
        for i in 0..self.moves.len() {
            let free = (0..i).all(|j| (m >> j) & 1 == 0 || !self.conflict(i, j));
            if (want >> i) & 1 == 1 && free {
                m |= 1 << i;
            }
        }
        m
    }

    fn light(&self, links: &[LinkId]) -> (TrafficLight, Vec<Vec<LinkId>>) {
        let mut l = TrafficLight::new();
        let n = self.moves.len();
        let mut at = 0;
        let mut heads = vec![];
        for (i, m) in self.moves.iter().enumerate() {
            let conflict = (0..n)
                .filter(|j| self.conflict(i, *j))
                .fold(0u64, |a, j| a | (1 << j));
            let own: Vec<LinkId> = (0..m.links as usize)
                .map(|k| links[(at + k) % links.len()])
                .collect();
            at += own.len();
            l.add_movement(conflict, m.amber, m.red, own.iter().copied());
            heads.push(own);
        }
        for (want, dur) in &self.phases {
            l.add_phase(self.mask(*want), *dur);
        }
        (l, heads)
    }
}

fn count() -> BoxedStrategy<usize> {
    prop_oneof![6 => 1usize..8, 2 => 8usize..33, 1 => 33usize..=64, 1 => Just(64usize)].boxed()
}

fn ticks(max: u32) -> BoxedStrategy<f64> {
    (0..max, 0.2f64..0.8).prop_map(|(k, f)| k as f64 + crate::gens::q(f, 100.0)).boxed()
}

fn phases() -> BoxedStrategy<Vec<(u64, f64)>> {
    let mask = prop_oneof![
        3 => any::<u64>(),
        2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b),
        1 => Just(0u64),
        1 => Just(u64::MAX),
        2 => (0u32..64).prop_map(|b| 1u64 << b),
        2 => 0u64..64,
    ];
    prop::collection::vec((mask, ticks(40)), 0..=6).boxed()
}

fn model() -> BoxedStrategy<Case> {
    (
        prop_oneof![Just(0.1), Just(0.05), Just(0.2), Just(1.0 / 60.0), Just(0.125)],
        count(),
    )
        .prop_flat_map(|(dt, n)| {
            (
                Just(dt),
                prop::collection::vec((ticks(20), ticks(20), 0u8..3), n),
                prop::collection::vec((any::<u8>(), any::<u8>()), 0..3 * n),
                phases(),
                50u16..600,
            )
        })
        .prop_map(|(dt, moves, conflicts, phases, steps)| Case {
            dt: vec![dt],
            moves: moves
                .into_iter()
                .map(|(a, r, links)| Move {
                    amber: a * dt,
                    red: r * dt,
                    links,
                })
                .collect(),
            conflicts,
            phases: phases.into_iter().map(|(m, d)| (m, d * dt)).collect(),
            steps,
        })
        .boxed()
}

fn varied() -> BoxedStrategy<Case> {
    let secs = |hi: f64| prop_oneof![1 => Just(0.0), 5 => crate::gens::f(0.0, hi)];
    (
        prop::collection::vec(crate::gens::dt(), 1..5),
        count().prop_flat_map(move |n| {
            (
                prop::collection::vec((secs(4.0), secs(4.0), 0u8..3), n),
                prop::collection::vec((any::<u8>(), any::<u8>()), 0..3 * n),
            )
        }),
        phases(),
        100u16..600,
    )
        .prop_map(|(dt, (moves, conflicts), phases, steps)| Case {
            dt,
            moves: moves
                .into_iter()
                .map(|(amber, red, links)| Move { amber, red, links })
                .collect(),
            conflicts,
            phases: phases.into_iter().map(|(m, d)| (m, d * 0.1)).collect(),
            steps,
        })
        .boxed()
}

/// Identifiers to hand to the light.
fn some_links() -> Vec<LinkId> {
    let mut sim = Simulation::new();
    (0..5)
        .map(|i| {
            sim.add_link(&LinkAttributes {
                curve: &LineSegment2d::from_ends(
                    Point2d::new(0.0, i as f64 * 10.0),
                    Point2d::new(20.0, i as f64 * 10.0),
                ),
                speed_limit: 10.0,
            })
        })
        .collect()
}

/// What the links are told agrees with what the signal heads show.
fn heads_agree(l: &TrafficLight, heads: &[Vec<LinkId>]) -> Result<(), String> {
    let state: Vec<LightState> = l.state().map(|(_, s)| s).collect();
    let mut want: Vec<(LinkId, bool)> = vec![];
    for (i, own) in heads.iter().enumerate() {
        for id in own {
            want.push((*id, state[i] == LightState::Green));
        }
    }
    let mut got: Vec<(LinkId, bool)> = vec![];
    for (id, c) in l.get_states() {
        got.push((
            id,
            match c {
                TrafficControl::Open => true,
                TrafficControl::Closed => false,
                _ => return Err("a link under a light is told to yield".into()),
            },
        ));
    }
    want.sort();
    got.sort();
    if want != got {
        return Err(format!("links told {got:?}, heads show {want:?}"));
    }
    Ok(())
}

/// The reference model: everything counted in whole steps.
struct Model {
    state: Vec<LightState>,
    age: Vec<u32>,
    phase: usize,
    phase_age: u32,
}

fn check_model(c: &Case, o: &mut Obs) -> Result<(), String> {
    use LightState::*;
    let dt = c.dt[0];
    let n = c.moves.len();
    let links = some_links();
    let (mut l, heads) = c.light(&links);
    let masks: Vec<u64> = c.phases.iter().map(|(w, _)| c.mask(*w)).collect();
    // Steps a signal shows amber, is red before conflicting ones may go, a phase lasts
    let amber: Vec<u32> = c.moves.iter().map(|m| (m.amber / dt).ceil() as u32).collect();
    let clear: Vec<u32> = c.moves.iter().map(|m| (m.red / dt).ceil() as u32).collect();
    let lasts: Vec<u32> = c.phases.iter().map(|p| (p.1 / dt).ceil() as u32).collect();
    let conflicts: Vec<Vec<usize>> = (0..n)
        .map(|i| (0..n).filter(|j| c.conflict(i, *j)).collect())
        .collect();
    let mut m = Model {
        state: vec![Red; n],
        age: vec![0; n],
        phase: 0,
        phase_age: 0,
    };
    let mut changes = 0;
    for step in 0..c.steps {
        if !masks.is_empty() {
            let done = m.phase_age >= lasts[m.phase]
                && (0..n)
                    .filter(|i| (masks[m.phase] >> i) & 1 == 1)
                    .all(|i| m.state[i] == Green && m.age[i] >= lasts[m.phase]);
            if done {
                m.phase = (m.phase + 1) % masks.len();
                m.phase_age = 0;
                changes += 1;
            }
        }
        let mask = masks.get(m.phase).copied().unwrap_or(0);
        let next: Vec<LightState> = (0..n)
            .map(|i| {
                let wanted = (mask >> i) & 1 == 1;
                match m.state[i] {
                    Green if wanted => Green,
                    Green => Amber,
                    Amber if wanted => Green,
                    Amber if m.age[i] >= amber[i] => Red,
                    Red if wanted
                        && conflicts[i]
                            .iter()
                            .all(|j| m.state[*j] == Red && m.age[*j] >= clear[*j]) =>
                    {
                        Green
                    }
                    s => s,
                }
            })
            .collect();
        for i in 0..n {
            m.age[i] = if next[i] == m.state[i] { m.age[i] + 1 } else { 1 };
        }
        m.phase_age += 1;
        m.state = next;

        l.step(dt);
        let got: Vec<(usize, LightState)> = l.state().collect();
        for i in 0..n {
            if got.get(i) != Some(&(i, m.state[i])) {
                return Err(format!(
                    "step {step} (phase {}): movement {i} shows {:?}, expected {:?}",
                    m.phase,
                    got.get(i),
                    m.state[i]
                ));
            }
        }
        if got.len() != n {
            return Err(format!("{} movements reported of {n}", got.len()));
        }
        heads_agree(&l, &heads)?;
        for i in 0..n {
            if m.state[i] != Red && conflicts[i].iter().any(|j| m.state[*j] != Red) {
                return Err(format!("step {step}: movement {i} and a conflicting one may both go"));
            }
        }
    }
    if changes >= 2 {
        o.nontrivial();
    }
    o.count("phases completed", changes);
    if n > 32 {
        o.label("more than 32 movements");
    }
    Ok(())
}

fn check_varied(c: &Case, o: &mut Obs) -> Result<(), String> {
    use LightState::*;
    let n = c.moves.len();
    let links = some_links();
    let (mut l, heads) = c.light(&links);
    let masks: Vec<u64> = c.phases.iter().map(|(w, _)| c.mask(*w)).collect();
    let ever: u64 = masks.iter().fold(0, |a, m| a | m);
    let conflicts: Vec<Vec<usize>> = (0..n)
        .map(|i| (0..n).filter(|j| c.conflict(i, *j)).collect())
        .collect();
    let mut state = vec![Red; n];
    let mut since = vec![0.0f64; n];
    let mut time = 0.0;
    let mut went = 0u64;
    const E: f64 = 1e-9;
    // The longest a cycle can take: every phase waits for amber and clearance, then lasts.
    let slow = c.dt.iter().copied().fold(0.0, f64::max);
    let worst = c.moves.iter().map(|m| m.amber + m.red).fold(0.0, f64::max);
    let cycle: f64 = c.phases.iter().map(|p| p.1 + worst + 6.0 * slow).sum();
    for step in 0..c.steps {
        let dt = c.dt[step as usize % c.dt.len()];
        l.step(dt);
        time += dt;
        let got: Vec<LightState> = l.state().map(|(_, s)| s).collect();
        for i in 0..n {
            match (state[i], got[i]) {
                (a, b) if a == b => {
                    since[i] += dt;
                    // Amber ends on the first step after its time is up
                    if b == Amber && since[i] > c.moves[i].amber + slow + E {
                        return Err(format!("movement {i} is amber for {} s", since[i]));
                    }
                    continue;
                }
                (Green, Amber) => {}
                (Amber, Red) => {
                    if since[i] < c.moves[i].amber - E {
                        return Err(format!(
                            "movement {i} was amber for {} s only (of {})",
                            since[i], c.moves[i].amber
                        ));
                    }
                }
                (Red, Green) => {
                    for j in &conflicts[i] {
                        if state[*j] != Red || since[*j] < c.moves[*j].red - E {
                            return Err(format!(
                                "movement {i} goes green while {j} is {:?} for {} s (clearance {} s)",
                                state[*j], since[*j], c.moves[*j].red
                            ));
                        }
                    }
                    if !conflicts[i].is_empty() && time > 1.0 {
                        o.nontrivial();
                    }
                }
                (Amber, Green) => o.label("green again from amber"),
                (a, b) => return Err(format!("movement {i} goes from {a:?} to {b:?}")),
            }
            state[i] = got[i];
            since[i] = dt;
        }
        for i in 0..n {
            if state[i] != Red && conflicts[i].iter().any(|j| state[*j] != Red) {
                return Err(format!("step {step}: movement {i} and a conflicting one may both go"));
            }
            if state[i] == Green {
                went |= 1 << i;
                if (ever >> i) & 1 == 0 {
                    return Err(format!("movement {i} goes green though it is in no phase"));
                }
            }
        }
        heads_agree(&l, &heads)?;
    }
    if time > cycle && went != ever {
        return Err(format!(
            "after {time} s (a cycle takes up to {cycle} s) only {went:b} of {ever:b} went green"
        ));
    }
    if time > cycle && !c.phases.is_empty() {
        o.label("full cycle");
    }
    Ok(())
}
