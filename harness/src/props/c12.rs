//! C12: changing lanes.

use super::c15::Table;
use super::Prop;
use crate::gens::*;
use crate::geom::*;
use crate::lanes::{self, *};
use crate::net::ref_costs;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        title: "Lane changes are smooth, end on the new lane and respect the mask",
        assumptions: &[
            "parallel lanes 3.5 m apart, straight or with radii of 60 m and more",
            "lane changes over 10 to 80 m, to a lane of the same section",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "manual",
                    rule: "one vehicle on parallel lanes of up to three sections, told to change lanes at any time (also during a change, and so late that the change ends on the next section); non-trivial if a lane change was completed",
                    quick: 120_000,
                    thorough: 3_000_000,
                    strategy: manual,
                    check: check_manual,
                }),
                Box::new(Part {
                    name: "automatic",
                    rule: "one vehicle finding its own way on a multi-lane road with restricted lane changes; non-trivial if it changed lanes",
                    quick: 120_000,
                    thorough: 3_000_000,
                    strategy: automatic,
                    check: check_automatic,
                }),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Manual {
    road: LanesSpec,
    veh: VehP,
    lane: u8,
    dt: f64,
    /// Steps to wait, lane to change to, over a distance
    changes: Vec<(u8, u8, f64)>,
}

fn manual() -> BoxedStrategy<Manual> {
    (
        lanes::lanes((30.0, 200.0), 3, 4),
        2u8..=4,
        veh(),
        any::<u8>(),
        dt(),
        prop::collection::vec((5u8..150, any::<u8>(), f(10.0, 80.0)), 1..5),
    )
        .prop_map(|(mut road, n, veh, lane, dt, changes)| {
            for s in &mut road.sections {
                s.lanes = n;
                s.shift = 0;
                s.cut = 0;
                // No changes of its own accord
                s.mask = 0;
            }
            Manual {
                road,
                veh,
                lane,
                dt,
                changes,
            }
        })
        .boxed()
}

/// A lane change under way: where it began (metres travelled), and its course
struct Course {
    began: f64,
    dist: f64,
    offset: f64,
    slope: f64,
}

impl Course {
    /// The offset after `s` metres: leaves in the direction of the vehicle, arrives tangentially.
    fn at(&self, s: f64) -> f64 {
        let u = s / self.dist;
        if u >= 1.0 {
            return 0.0;
        }
        self.offset * (2.0 * u * u * u - 3.0 * u * u + 1.0)
            + self.slope * self.dist * (u * u * u - 2.0 * u * u + u)
    }
}

fn check_manual(c: &Manual, o: &mut Obs) -> Result<(), String> {
    let ln = c.road.net();
    let lanes = c.road.sections[0].lanes as usize;
    let last = ln.at.len() - 1;
    let mut w = World::build(&ln.net);
    let lane = c.lane as usize % lanes;
    let v = w.add(&c.veh, ln.at[0][lane], Some(ln.at[last][lane]));
    let mut course: Option<Course> = None;
    let mut travelled = 0.0;
    let mut prev = *w.snap().get(v).unwrap();
    let mut changes = c.changes.clone();
    changes.push((150, 0, 0.0));
    for (wait, to, dist_) in changes {
        for _ in 0..wait {
            w.step(c.dt);
            let snap = w.snap();
            let Some(s) = snap.get(v) else {
                if ln.place[prev.link].0 != last {
                    return Err(format!("the vehicle vanished from link {}", prev.link));
                }
                return Ok(());
            };
            let s = *s;
            let d = 0.5 * (prev.vel + s.vel) * c.dt;
            travelled += d;
            if s.link != prev.link && !w.outs[prev.link].contains(&s.link) {
                return Err(format!("the vehicle changed from link {} to {} of its own accord", prev.link, s.link));
            }
            let curve = w.sim.get_link(w.ids[s.link]).curve();
            let centre = curve.sample_centre(s.pos);
            let want = course.as_ref().map_or(0.0, |k| k.at(travelled - k.began));
            let off = dot(sub(s.xy, fp(centre.pos)), perp(fv(centre.tan)));
            let along = dot(sub(s.xy, fp(centre.pos)), fv(centre.tan));
            // (the slope is known as well as the curvature of the lane)
            let bound = 0.03 + course.as_ref().map_or(0.0, |k| 0.01 * k.dist * k.slope.abs());
            o.max("offset from the course relative to the bound", (off - want).abs() / bound);
            if along.abs() > 1e-6 {
                return Err(format!("the vehicle is {along} m ahead of its position along the link"));
            }
            if want == 0.0 {
                if off.abs() > 1e-6 {
                    return Err(format!("the vehicle is {off} m off the centre line without changing lanes"));
                }
            } else if (off - want).abs() > bound {
                return Err(format!("{off:.4} m off the centre of the lane instead of {want:.4} m"));
            }
            // The line at its rear reaches from the vehicle to the middle of the lane
            let tan = fv(centre.tan);
            let swing = off - 0.5 * c.veh.length * dot(s.dir, perp(tan));
            let lat = [swing.min(0.0) - 0.5 * c.veh.width, swing.max(0.0) + 0.5 * c.veh.width];
            for (got, lat) in s.rear.iter().zip(lat) {
                let want = add(add(fp(centre.pos), mul(tan, -0.5 * c.veh.length)), mul(perp(tan), lat));
                if dist(*got, want) > 1e-4 {
                    return Err(format!("end of the rear line off by {} m", dist(*got, want)));
                }
            }
            // The world position moves no faster than the vehicle, sideways motion included
            let jump = dist(s.xy, prev.xy);
            let m = course.as_ref().map_or(0.0, |k| 1.5 * k.offset.abs() / k.dist + k.slope.abs());
            if jump > (1.1 + m) * d + 0.05 {
                return Err(format!("the vehicle jumps by {jump:.3} m when driving {d:.3} m"));
            }
            if let Some(k) = &course {
                if travelled - k.began >= k.dist {
                    o.nontrivial();
                    o.count("completed", 1);
                    course = None;
                }
            }
            prev = s;
        }
        if dist_ == 0.0 {
            break;
        }
        // Change to another lane of the section
        let (sec, lane) = ln.place[prev.link];
        let to = to as usize % lanes;
        if to == lane || to.abs_diff(lane) > 1 {
            continue;
        }
        let link = ln.at[sec][to];
        if course.is_some() {
            o.label("during another change");
        }
        w.lane_change(v, link, dist_);
        let snap = w.snap();
        let s = *snap.get(v).ok_or("the vehicle vanished when told to change lanes")?;
        if s.link != link {
            return Err(format!("told to change to link {link}, the vehicle is on {}", s.link));
        }
        if s.vel != prev.vel || dist(s.xy, prev.xy) > 1e-9 || dist(s.dir, prev.dir) > 1e-9 {
            return Err("changing lanes moves the vehicle at once".into());
        }
        // Where that is on the new lane
        let spec = &ln.net.links[link].curve;
        let t = Table::new(spec);
        let (at, _) = t.project(s.xy);
        let len = w.len[link];
        if at > 0.1 && at < t.length() - 0.1 {
            let e = (s.pos / len * t.length() - at).abs();
            o.max("error of the position (m)", e);
            if e > 0.0125 * at.min(t.length() - at) + 0.1 {
                return Err(format!("the vehicle next to {at:.3} m of the new lane is put at {:.3} m", s.pos));
            }
        }
        let centre = w.sim.get_link(w.ids[link]).curve().sample_centre(s.pos);
        let tan = fv(centre.tan);
        let offset = dot(sub(s.xy, fp(centre.pos)), perp(tan));
        let kappa = match spec {
            CurveSpec::Arc(_, r, _, sw) => sw.signum() / r,
            _ => 0.0,
        };
        course = Some(Course {
            began: travelled,
            dist: dist_,
            offset,
            slope: dot(s.dir, perp(tan)) / dot(s.dir, tan) * (1.0 - kappa * offset),
        });
        w.set_dest(v, ln.at[last][to]);
        if len - s.pos < dist_ {
            o.label("ends on the next section");
        }
        prev = s;
    }
    Ok(())
}

fn automatic() -> BoxedStrategy<LaneRoute> {
    lane_route()
}

fn check_automatic(c: &LaneRoute, o: &mut Obs) -> Result<(), String> {
    let ln = c.road.net();
    let mut w = World::build(&ln.net);
    let n = ln.net.links.len();
    let succ = c.road.successors(&ln);
    let src = c.src as usize % n;
    let d = ref_costs(&vec![1; n], &succ, src);
    let cands: Vec<usize> = (0..n).filter(|i| d[*i].is_some()).collect();
    let dst = cands[c.dst as usize % cands.len()];
    let v = w.add(&c.veh, src, Some(dst));
    let mut prev = *w.snap().get(v).unwrap();
    let mut since = f64::INFINITY;
    let budget = 60.0 + w.len.iter().sum::<f64>() / 3.0;
    let mut changed = 0;
    while w.time < budget {
        w.step(c.dt);
        let snap = w.snap();
        let Some(s) = snap.get(v) else { break };
        let s = *s;
        let d = 0.5 * (prev.vel + s.vel) * c.dt;
        since += d;
        if s.link != prev.link && !w.outs[prev.link].contains(&s.link) {
            let (a, b) = (ln.place[prev.link], ln.place[s.link]);
            // (in the same step it may change lanes and go on to the next section)
            let via = |x: usize| succ[prev.link].contains(&x) && (x == s.link || w.outs[x].contains(&s.link));
            if !(0..n).any(via) {
                return Err(format!("the vehicle changed from lane {a:?} to lane {b:?}, which is not permitted"));
            }
            if s.link == prev.link {
                return Err("a lane change to the same lane".into());
            }
            changed += 1;
            since = 0.0;
        }
        // No jumps, and within 30 m it is in the middle of its new lane
        let jump = dist(s.xy, prev.xy);
        o.max("jump relative to the distance driven", (jump - 0.05) / (d + 1e-9));
        if jump > 1.3 * d + 0.05 {
            return Err(format!("the vehicle jumps by {jump:.3} m when driving {d:.3} m"));
        }
        let curve = w.sim.get_link(w.ids[s.link]).curve();
        let centre = curve.sample_centre(s.pos);
        let off = dot(sub(s.xy, fp(centre.pos)), perp(fv(centre.tan)));
        if off.abs() > LANE_WIDTH + 0.3 {
            return Err(format!("the vehicle is {off:.3} m off its lane"));
        }
        if since > 30.5 && off.abs() > 1e-6 {
            return Err(format!("{off:.4} m off the centre of the lane {since:.1} m after changing lanes"));
        }
        if changed > 0 && since > 30.5 {
            o.nontrivial();
        }
        prev = s;
    }
    o.max("lane changes", changed as f64);
    // It changes lanes no more often than it has to (but for one detour where lanes end)
    let mut fewest = vec![usize::MAX; n];
    fewest[src] = 0;
    for _ in 0..n {
        for a in 0..n {
            if fewest[a] < usize::MAX {
                for b in &succ[a] {
                    let k = fewest[a] + (ln.place[a].0 == ln.place[*b].0) as usize;
                    fewest[*b] = fewest[*b].min(k);
                }
            }
        }
    }
    if changed > fewest[dst] {
        o.label("more changes than needed");
    }
    if changed > fewest[dst] + 2 {
        return Err(format!("{changed} lane changes instead of {}", fewest[dst]));
    }
    Ok(())
}
