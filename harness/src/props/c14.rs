//! C14: where vehicles are in the plane.

use super::c15::Table;
use super::Prop;
use crate::chain::{self, *};
use crate::gens;
use crate::geom::*;
use crate::runner::*;
use proptest::prelude::*;
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        title: "A vehicle is drawn where it is on the road, and steers along it",
        assumptions: &["chains of links with radii of at least 12 m and no kinks"],
        parts: || {
            vec![Box::new(Part {
                name: "pose",
                rule: "traffic with interventions on a chain of links; the pose of every vehicle after every step; non-trivial if some vehicle was seen moving on a bend",
                quick: 150_000,
                thorough: 600_000,
                strategy: traffic,
                check: check_pose,
            })]
        },
    }
}

fn traffic() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(5, (20.0, 120.0), (4.0, 25.0)),
        Weights {
            arrive: 8,
            freeze: 1,
            remove: 1,
            close: 1,
            dt: 1,
            randomise: 1,
        },
        12,
        150,
    )
}

fn check_pose(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    let net = c.chain.net();
    let tables: Vec<Table> = net.links.iter().map(|l| Table::new(&l.curve)).collect();
    let bend: Vec<f64> = net
        .links
        .iter()
        .map(|l| match l.curve {
            CurveSpec::Line(..) => 0.0,
            _ => 1.0 / 11.0,
        })
        .collect();
    // Pose before the step
    let mut pose: HashMap<usize, (P, P)> = HashMap::new();
    drive(c, |x| {
        for s in &x.prev.vehs {
            // Just put on the road: heads along it
            if let std::collections::hash_map::Entry::Vacant(e) = pose.entry(s.v) {
                let tan = fv(x.w.sim.get_link(x.w.ids[s.link]).curve().sample_centre(s.pos).tan);
                if dist(tan, s.dir) > 1e-6 {
                    return Err(format!("vehicle {} heads {:?} on a road in direction {tan:?}", s.v, s.dir));
                }
                e.insert((s.xy, s.dir));
            }
        }
        for s in &x.next.vehs {
            let veh = x.w.sim.get_vehicle(x.w.vehs[s.v].id);
            let p = &x.w.vehs[s.v].p;
            let who = format!("vehicle {} at {:.3} m of link {}", s.v, s.pos, s.link);
            // What it says about itself
            for (what, got, want) in [
                ("width", veh.width(), p.width),
                ("length", veh.length(), p.length),
                ("front", veh.pos_front(), s.pos + 0.5 * p.length),
                ("rear", veh.pos_rear(), s.pos - 0.5 * p.length),
            ] {
                if (got - want).abs() > 1e-9 * (1.0 + want.abs()) {
                    return Err(format!("{who}: {what} {got} instead of {want}"));
                }
            }
            if (s.vel == 0.0 && !veh.has_stopped()) || (s.vel > 0.5 && veh.has_stopped()) {
                return Err(format!("{who}: stopped: {} at {} m/s", veh.has_stopped(), s.vel));
            }
            if let Some(d) = x.w.vehs[s.v].dest {
                if veh.destination() != x.w.ids[d] {
                    return Err(format!("{who} has another destination than it was given"));
                }
            }
            // It is on the curve of its link
            let t = &tables[s.link];
            let len = x.w.len[s.link];
            let want = t.at(s.pos / len * t.length());
            let e = dist(want, s.xy);
            let bound = 0.0125 * s.pos.min(len - s.pos) + 0.08;
            o.max("distance from its place relative to the bound", e / bound);
            if e > bound {
                return Err(format!("{who} is {e:.3} m from its place"));
            }
            let centre = x.w.sim.get_link(x.w.ids[s.link]).curve().sample_centre(s.pos);
            let e = dist(fp(centre.pos), s.xy);
            if e > 1e-6 {
                return Err(format!("{who} is {e} m off the centre line"));
            }
            // The wheels behind its centre are dragged along
            if (norm(s.dir) - 1.0).abs() > 1e-9 {
                return Err(format!("{who}: heading of length {}", norm(s.dir)));
            }
            let (xy, dir) = pose[&s.v];
            let drag = sub(s.xy, sub(xy, mul(dir, p.wheel_base)));
            let e = dist(unit(drag), s.dir);
            if e > 1e-6 {
                return Err(format!("{who} heads {:?}, its wheels are dragged {:?}", s.dir, unit(drag)));
            }
            let tan = fv(centre.tan);
            let slip = cross(tan, s.dir).atan2(dot(tan, s.dir)).abs();
            // What it has driven along lately
            let lately = x.base.iter().take_while(|b| **b < x.s(s) - 40.0).count().saturating_sub(1);
            let first = s.link.saturating_sub(2).min(lately);
            let k = bend[first..=s.link].iter().cloned().fold(0.0, f64::max);
            let bound = 1.3 * (p.wheel_base + s.vel * x.dt) * k + 0.03;
            o.max("angle to the road relative to the bound", slip / bound);
            if slip > bound {
                return Err(format!("{who}: at an angle of {slip:.3} rad to the road"));
            }
            if k > 0.0 && s.vel > 1.0 {
                o.nontrivial();
            }
            // The line at its rear: across the road, half a length behind its centre, as wide as
            // the vehicle and its swing
            let swing = -0.5 * p.length * dot(s.dir, perp(tan));
            let lat = [
                swing.min(0.0) - 0.5 * p.width,
                swing.max(0.0) + 0.5 * p.width,
            ];
            for (got, lat) in s.rear.iter().zip(lat) {
                let want = add(add(s.xy, mul(tan, -0.5 * p.length)), mul(perp(tan), lat));
                let e = dist(*got, want);
                if e > 1e-6 {
                    return Err(format!("{who}: end of its rear line off by {e}"));
                }
            }
            pose.insert(s.v, (s.xy, s.dir));
        }
        Ok(())
    })?;
    Ok(())
}
