//! C10: junctions governed by yielding are safe, and everyone gets through.

use super::Prop;
use crate::cross::{self, CrossCase};
use crate::gens::f;
use crate::inter::{self, InterCase, InterNet};
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        title: "Traffic through junctions never collides, and everyone gets through",
        assumptions: &[
            "the conflicting links of the junction are declared as such",
            "stop lines are far enough from the conflict area for a vehicle to wait in front of it",
            "a vehicle may queue from at least 4 m before the line",
            "vehicles appear far enough from the junction to be seen by those who decide to cross",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "crossing",
                    rule: "traffic on two crossing roads under any combination of open and yielding controls; non-trivial if vehicles of both roads were in or near the junction at the same time",
                    quick: 40_000,
                    thorough: 800_000,
                    strategy: crossing,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "merge",
                    rule: "traffic on two merging roads; non-trivial as above",
                    quick: 30_000,
                    thorough: 600_000,
                    strategy: merge,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "open crossing",
                    rule: "traffic on two crossing roads without any control; non-trivial as above",
                    quick: 20_000,
                    thorough: 400_000,
                    strategy: open_crossing,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "open merge",
                    rule: "traffic on two merging roads without any control; non-trivial as above",
                    quick: 20_000,
                    thorough: 400_000,
                    strategy: open_merge,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "changing signs",
                    rule: "traffic on two crossing or merging roads that are closed, opened and given signs on the way; non-trivial as above",
                    quick: 30_000,
                    thorough: 600_000,
                    strategy: changing,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "four arms",
                    rule: "traffic straight through an intersection of up to four directions; non-trivial as above",
                    quick: 15_000,
                    thorough: 350_000,
                    strategy: four_arms,
                    check: check_inter,
                }),
                Box::new(Part {
                    name: "turns",
                    rule: "traffic through an intersection of up to four arms with turns; non-trivial as above",
                    quick: 20_000,
                    thorough: 400_000,
                    strategy: turns,
                    check: check_inter,
                }),
            ]
        },
    }
}

fn two(merge: bool) -> BoxedStrategy<CrossCase> {
    (cross::case(merge), f(0.5, 2.6), (f(5.0, 30.0), f(5.0, 30.0)), (any::<bool>(), cross::ctl()), f(8.0, 40.0), (cross::feed(), cross::feed(), f(25.0, 60.0)))
        .prop_map(move |(mut c, angle, lim, (both, y), inner, (f0, f1, short))| {
            if !merge {
                c.angle = angle;
                // Room to wait in front of the conflict area
                let need = 2.0 * 1.8 * (1.0 + angle.cos().abs()) / angle.sin() + 8.0;
                c.inner[0] = inner.max(need);
                c.inner[1] = c.inner[1].max(need);
            }
            c.limit = [lim.0, lim.1];
            if both {
                c.ctl[0] = y;
            }
            c.tail = 0;
            c.feed = [f0, f1];
            for r in 0..2 {
                if c.feed[r].is_some() {
                    c.approach[r] = c.approach[r].min(short);
                }
            }
            c
        })
        .boxed()
}

fn crossing() -> BoxedStrategy<CrossCase> {
    two(false)
}

fn merge() -> BoxedStrategy<CrossCase> {
    two(true)
}

fn open(mut c: CrossCase) -> CrossCase {
    for (feed, limit) in c.feed.iter_mut().zip(c.limit) {
        if let Some(feed) = feed {
            feed.limit = feed.limit.min(limit);
        }
    }
    c.ctl = [Ctl::Open, Ctl::Open];
    c
}

fn open_crossing() -> BoxedStrategy<CrossCase> {
    (two(false), f(0.9, 2.2), (f(5.0, 14.0), f(5.0, 14.0)))
        .prop_map(|(mut c, angle, limit)| {
            // At higher speeds and sharp angles two vehicles may meet too late to avoid each other
            c.angle = angle;
            c.limit = [limit.0, limit.1];
            open(c)
        })
        .boxed()
}

fn open_merge() -> BoxedStrategy<CrossCase> {
    (two(true), (f(5.0, 13.0), f(5.0, 13.0)))
        .prop_map(|(mut c, limit)| {
            c.limit = [limit.0, limit.1];
            open(c)
        })
        .boxed()
}

fn changing() -> BoxedStrategy<CrossCase> {
    let ctl = prop_oneof![Just(Ctl::Open), Just(Ctl::Closed), cross::ctl()];
    (open_crossing(), open_merge(), any::<bool>(), (cross::ctl(), cross::ctl()), prop::collection::vec((0u16..600, 0u8..2, ctl), 1..10))
        .prop_map(|(a, b, merge, (y0, y1), changes)| {
            let mut c = if merge { b } else { a };
            // In the end, nobody has to wait for ever
            c.ctl = [y0, y1];
            c.changes = changes;
            c
        })
        .boxed()
}

fn four_arms() -> BoxedStrategy<InterCase> {
    inter::case()
        .prop_map(|mut c| {
            // Nobody appears closer than those who give way had to look
            c.approach += 120.0;
            c
        })
        .boxed()
}

/// One movement of each arm, or all of them.
fn turns() -> BoxedStrategy<InterCase> {
    (four_arms(), prop::array::uniform4(0usize..4), 0u8..3)
        .prop_map(|(mut c, to, all)| {
            c.moves = 0;
            for (from, t) in to.into_iter().enumerate() {
                if all == 0 {
                    c.moves |= 0xF << (4 * from);
                } else {
                    c.moves |= 1 << (4 * from + t);
                }
            }
            for (_, _, _, p) in c.arrivals.iter_mut() {
                // The tail of a long vehicle swings out of its lane
                p.width = p.width.min(2.0);
                p.length = p.length.min(6.0);
                p.wheel_base = p.wheel_base.min(0.4 * p.length);
            }
            c
        })
        .boxed()
}

/// No two vehicles come closer than `least`.
fn apart(w: &World, next: &Snap, least: f64, part: &dyn Fn(&VSnap, &VSnap) -> bool, o: &mut Obs) -> Result<(), String> {
    for (i, a) in next.vehs.iter().enumerate() {
        let pa = &w.vehs[a.v].p;
        for b in &next.vehs[i + 1..] {
            let pb = &w.vehs[b.v].p;
            let d = crate::geom::dist(a.xy, b.xy);
            if d > 0.5 * (pa.length + pb.length) + 3.0 || part(a, b) {
                continue;
            }
            let g = rect_gap(
                &corners(a.xy, a.dir, pa.length, pa.width),
                &corners(b.xy, b.dir, pb.length, pb.width),
            );
            o.max("smallest gap (negated)", -g);
            if g < least {
                return Err(format!(
                    "at {:.2} s the gap between vehicles {} (link {}) and {} (link {}) is {g:.3} m",
                    w.time, a.v, a.link, b.v, b.link
                ));
            }
        }
    }
    Ok(())
}

fn check_cross(c: &CrossCase, o: &mut Obs) -> Result<(), String> {
    let free = c.ctl == [Ctl::Open, Ctl::Open] || !c.changes.is_empty();
    let least = if c.merge && free { 0.1 } else { 0.5 };
    let mut monitor = |w: &World, _: &Snap, next: &Snap, _: f64| -> Result<(), String> {
        let near = |r: usize| {
            next.vehs.iter().any(|s| {
                s.link == 3 * r + 1
                    || (s.link == 3 * r && w.len[s.link] - s.pos < 25.0)
            })
        };
        if near(0) && near(1) {
            o.nontrivial();
        }
        apart(w, next, least, &|_, _| false, o)
    };
    let mut w = cross::drive_world(c, &mut monitor)?;
    for r in 0..2 {
        w.control(3 * r + 1, c.ctl[r]);
    }
    let n = c.arrivals.len() as f64;
    let slow = c.limit[0].min(c.limit[1]);
    let budget = 60.0 + 700.0 / slow + 15.0 * n;
    let end = w.time + budget;
    let left = cross::finish(c, &mut w, end, &mut monitor)?;
    o.max("share of the time allowed", (w.time - end + budget) / budget);
    if left > 0 {
        return Err(format!("{left} vehicles have not got through in {budget:.0} s"));
    }
    Ok(())
}

fn check_inter(c: &InterCase, o: &mut Obs) -> Result<(), String> {
    let budget = 120.0 + 15.0 * c.arrivals.len() as f64;
    // Vehicles that turn reach out of their lanes
    let least = if c.moves & !inter::STRAIGHT == 0 { 0.3 } else { 0.1 };
    let mut monitor =
        |w: &World, n: &InterNet, movs: &[usize], _: &Snap, next: &Snap| -> Result<(), String> {
            let mut arms = [false; 4];
            for s in &next.vehs {
                match n.mov[s.link] {
                    Some(m) => arms[m / 4] = true,
                    None if s.link < 4 && w.len[s.link] - s.pos < 25.0 => arms[s.link] = true,
                    None => {}
                }
            }
            if arms.iter().filter(|a| **a).count() > 1 {
                o.nontrivial();
            }
            // Where two movements part is not a conflict
            let way = |s: &VSnap| (n.mov[s.link].map_or(s.link, |m| m / 4), movs[s.v]);
            let part = |a: &VSnap, b: &VSnap| {
                let (x, y) = (way(a), way(b));
                a.link != b.link && x.0 == y.0 && x.1 != y.1
            };
            apart(w, next, least, &part, o)
        };
    let (w, _) = inter::drive(c, budget, &mut monitor)?;
    let rest = w.snap().vehs;
    if !rest.is_empty() {
        return Err(format!("{} vehicles have not got through in {:.0} s", rest.len(), budget.min(w.time)));
    }
    Ok(())
}
