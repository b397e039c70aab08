//! C16: the algorithms on parametric curves.

use super::c15::{shape, Shape, Table};
use super::Prop;
use crate::gens::*;
use crate::geom::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use traffic_sim::math::{
    equidistant_points_along_curve, intersect_curves, project_point_onto_curve,
    subdivided_points_along_curve, subdivided_samples_along_curve, ParametricCurve2d,
};
use traffic_sim::{LinkAttributes, Simulation};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        title: "Projecting, intersecting and dividing curves agrees with brute force",
        assumptions: &[
            "curves of 5 to 200 m with radii of at least 12 m that turn by at most 1.6 rad (loops of up to 5.5 rad, or a full circle, where they are only divided)",
            "points to be projected are at most 5 m from the curve",
            "intersecting curves cross at an angle of at least 0.3 rad and away from their ends, or stay 0.1 m apart",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "projection",
                    rule: "points near curves of every kind (and near the centre lines of links) projected onto them, with and without a first guess, compared with a dense search; non-trivial if the curve bends and the point is off it",
                    quick: 120_000,
                    thorough: 2_500_000,
                    strategy: projection,
                    check: check_projection,
                }),
                Box::new(Part {
                    name: "intersection",
                    rule: "pairs of curves intersected, compared with a dense search; non-trivial if they intersect",
                    quick: 60_000,
                    thorough: 1_200_000,
                    strategy: intersection,
                    check: check_intersection,
                }),
                Box::new(Part {
                    name: "equidistant points",
                    rule: "curves divided into equal chords; non-trivial if the curve bends and has three or more points",
                    quick: 60_000,
                    thorough: 1_200_000,
                    strategy: || division(5.5),
                    check: check_equidistant,
                }),
                Box::new(Part {
                    name: "subdivision",
                    rule: "curves divided into chords of a largest length; non-trivial if the curve bends and has more than three points",
                    quick: 60_000,
                    thorough: 1_200_000,
                    strategy: || division(6.28),
                    check: check_subdivision,
                }),
            ]
        },
    }
}

/// Runs `f` with the curve `spec`, or with the centre line of a link along it.
fn with_curve<R>(spec: &CurveSpec, link: bool, f: impl FnOnce(&dyn ParametricCurve2d) -> R) -> R {
    let lib = spec.lib();
    if link {
        let mut sim = Simulation::new();
        let id = sim.add_link(&LinkAttributes {
            curve: &*lib,
            speed_limit: 10.0,
        });
        f(sim.get_link(id).curve())
    } else {
        f(&*lib)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Projection {
    shape: Shape,
    link: bool,
    /// Relative position of the point (may lie beyond the ends) and its offset
    at: f64,
    offset: f64,
    max_error: f64,
    guess: Option<f64>,
}

fn projection() -> BoxedStrategy<Projection> {
    (
        shape(5.0, 200.0),
        any::<bool>(),
        prop_oneof![5 => 0.0..=1.0f64, 1 => f(-0.3, 1.3)],
        f(-5.0, 5.0),
        prop_oneof![Just(0.1), Just(0.01), Just(0.001), f(0.01, 0.5)],
        prop::option::of(0.0..=1.0f64),
    )
        .prop_map(|(shape, link, at, offset, max_error, guess)| Projection {
            shape,
            link,
            at,
            offset,
            max_error,
            guess,
        })
        .boxed()
}

fn check_projection(c: &Projection, o: &mut Obs) -> Result<(), String> {
    let spec = c.shape.spec();
    let t = Table::new(&spec);
    let l = t.length();
    let s = c.at * l;
    let (base, tan) = (t.at(s), t.tan(s.clamp(0.0, l)));
    let point = add(
        add(base, mul(tan, s - s.clamp(0.0, l))),
        mul(perp(tan), c.offset),
    );
    with_curve(&spec, c.link, |curve| {
        let b = curve.bounds();
        let kind = if c.link { "link" } else { ["line", "arc", "quadratic", "cubic", "quadratic", "cubic"][c.shape.kind as usize] };
        o.label(kind);
        let guess = c.guess.map(|g| b.lerp(g));
        let counted = Budgeted::new(curve, 1000);
        let Some(t1) = project_point_onto_curve(&counted, pt(point), c.max_error, guess) else {
            return Err(format!("no projection of a point {} m beside the curve", c.offset));
        };
        let r = b.inv_lerp(t1);
        let slack = 2.0 * c.max_error / l + 0.01;
        if c.at > 0.0 && c.at < 1.0 {
            if c.offset.abs() > 0.1 && dist(t.at(0.0), t.at(l)) < 0.999 * l {
                o.nontrivial();
            }
            let d = dist(fp(curve.sample(t1)), base);
            // Ends: the result may lie a little beyond
            let bound = 2.0 * c.max_error + if c.link { 0.03 + 0.008 * s.min(l - s) + 0.025 * c.offset.abs() } else { 0.002 };
            let bound = bound.max(0.02);
            o.max("error relative to its bound", d / bound);
            if !(r >= -slack && r <= 1.0 + slack) || d > bound {
                return Err(format!(
                    "a point {} m beside {s:.3} of {l:.3} m is projected to {d:.3} m from there (relative parameter {r:.4}, {kind})",
                    c.offset
                ));
            }
        } else {
            o.label("beyond an end");
            let ok = if c.at >= 1.0 { r >= 1.0 - slack } else { r <= slack };
            if !ok {
                return Err(format!("a point beyond the curve, at {s:.3} of {l:.3} m, is projected to relative parameter {r:.4}"));
            }
        }
        Ok(())
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Intersection {
    a: Shape,
    b: Shape,
    links: (bool, bool),
    /// Where the curves would meet
    meet: (f64, f64),
    /// Moves the second curve along its own direction
    shift: f64,
}

fn intersection() -> BoxedStrategy<Intersection> {
    (
        shape(10.0, 120.0),
        shape(10.0, 120.0),
        any::<(bool, bool)>(),
        (0.0..=1.0f64, 0.0..=1.0f64),
        prop_oneof![2 => Just(0.0), 1 => f(-40.0, 40.0)],
    )
        .prop_map(|(a, b, links, meet, shift)| Intersection {
            a,
            b,
            links,
            meet,
            shift,
        })
        .boxed()
}

fn check_intersection(c: &Intersection, o: &mut Obs) -> Result<(), String> {
    let a = c.a.spec();
    let ta = Table::new(&a);
    let b = c.b.spec();
    let tb = Table::new(&b);
    // Lay the second curve across the first
    let sb = c.meet.1 * tb.length();
    let d = add(
        sub(ta.at(c.meet.0 * ta.length()), tb.at(sb)),
        mul(tb.tan(sb), c.shift),
    );
    let b = b.map(&|p| add(p, d), &|a0, sw| (a0, sw));
    let tb = Table::new(&b);
    // The crossings and the least distance, from fine polylines
    let n = 400;
    let pa: Vec<P> = (0..=n).map(|i| a.at(i as f64 / n as f64)).collect();
    let pb: Vec<P> = (0..=n).map(|i| b.at(i as f64 / n as f64)).collect();
    let step = (ta.length() + tb.length()) / n as f64;
    let mut crossings: Vec<P> = vec![];
    for i in 0..n {
        let mut j = 0;
        while j < n {
            let d = dist(pa[i], pb[j]);
            if d > 4.0 * step {
                // Neither segment is near: skip as far as the curve can have come
                j += ((d / step / 3.0) as usize).max(1);
                continue;
            }
            let (u, v) = (sub(pa[i + 1], pa[i]), sub(pb[j + 1], pb[j]));
            let w = sub(pb[j], pa[i]);
            let det = cross(u, v);
            if det.abs() > 1e-12 {
                let (s, t) = (cross(w, v) / det, cross(w, u) / det);
                if (0.0..1.0).contains(&s) && (0.0..1.0).contains(&t) {
                    let x = add(pa[i], mul(u, s));
                    if (det / norm(u) / norm(v)).abs() < 0.3 {
                        o.label("too flat");
                        return Ok(());
                    }
                    crossings.push(x);
                }
            }
            j += 1;
        }
    }
    if [pa[0], pa[n]].iter().any(|p| tb.project(*p).1 < 0.5)
        || [pb[0], pb[n]].iter().any(|p| ta.project(*p).1 < 0.5)
    {
        o.label("at an end");
        return Ok(());
    }
    if crossings.is_empty() {
        // How close do they come?
        let gap = (0..=n)
            .map(|i| tb.project(pa[i]).1)
            .chain((0..=n).map(|i| ta.project(pb[i]).1))
            .fold(f64::INFINITY, f64::min);
        if gap < 0.5 {
            o.label("too close");
            return Ok(());
        }
        o.label("apart");
    } else {
        o.nontrivial();
        o.label(if crossings.len() > 1 { "several crossings" } else { "one crossing" });
    }
    with_curve(&a, c.links.0, |ca| {
        with_curve(&b, c.links.1, |cb| {
            let (ka, kb) = (Budgeted::new(ca, 200_000), Budgeted::new(cb, 200_000));
            let r = intersect_curves(&ka, &kb);
            match r {
                None if crossings.is_empty() => Ok(()),
                None => Err(format!("curves crossing at {:?} do not intersect", crossings[0])),
                Some((s, t)) => {
                    let (p, q) = (fp(ca.sample(s)), fp(cb.sample(t)));
                    if crossings.is_empty() {
                        return Err(format!("curves that do not meet intersect at {p:?}, parameters {s} and {t}"));
                    }
                    let slack = |b: traffic_sim::Interval<f64>| 1e-3 * b.length();
                    let (ba, bb) = (ca.bounds(), cb.bounds());
                    if s < ba.min - slack(ba) || s > ba.max + slack(ba) || t < bb.min - slack(bb) || t > bb.max + slack(bb) {
                        return Err(format!("the intersection is beyond the ends: parameters {s} and {t}"));
                    }
                    let e = crossings.iter().map(|x| dist(*x, p).max(dist(*x, q))).fold(f64::INFINITY, f64::min);
                    o.max("error of the intersection (m)", e);
                    if e > 0.15 {
                        return Err(format!("the intersection at {p:?} / {q:?} is {e:.3} m from the nearest crossing"));
                    }
                    Ok(())
                }
            }
        })
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Division {
    shape: Shape,
    /// Turn of a loop instead of the shape
    turn: Option<f64>,
    step: f64,
}

fn division(max_turn: f64) -> BoxedStrategy<Division> {
    (
        shape(2.0, 200.0),
        prop::option::weighted(0.3, f(1.6, max_turn)),
        prop_oneof![Just(0.5), f(0.1, 12.0)],
    )
        .prop_map(|(shape, turn, step)| Division { shape, turn, step })
        .boxed()
}

impl Division {
    fn spec(&self) -> CurveSpec {
        match self.turn {
            Some(w) => {
                let w = w.copysign(self.shape.bend[0]);
                let r = (self.shape.len / w.abs()).max(2.0 * self.step).max(8.0);
                self.shape.with_parameter(CurveSpec::Arc(self.shape.start, r, self.shape.th, w))
            }
            None => self.shape.spec(),
        }
    }
}

fn check_equidistant(c: &Division, o: &mut Obs) -> Result<(), String> {
    let spec = c.spec();
    let lib = spec.lib();
    let l = spec.length();
    let (points, length) =
        equidistant_points_along_curve(&Budgeted::new(&*lib, 200 + (400.0 * l / c.step) as u64), c.step);
    let points: Vec<P> = points.into_iter().map(fp).collect();
    if points.len() > 3 && c.shape.kind != 0 {
        o.nontrivial();
    }
    let n = points.len();
    if dist(points[0], spec.at(0.0)) > 1e-6 {
        return Err("the first point is not the start of the curve".into());
    }
    for i in 1..n {
        let d = dist(points[i - 1], points[i]) / c.step;
        o.max("error of a chord", (d - 1.0).abs());
        if (d - 1.0).abs() > 0.0101 {
            return Err(format!("chord {i} of {} is {d:.5} times the distance asked for", n - 1));
        }
    }
    // All but the last lie on the curve, in order
    let m = 400usize;
    let mut from = 0usize;
    let piece = l / m as f64;
    for (i, p) in points[..n - 1].iter().enumerate() {
        // The next place along the curve that is this close to the point
        let near = (from..=m).find(|k| dist(*p, spec.at(*k as f64 / m as f64)) < 1.6 * piece);
        let Some(k) = near else {
            return Err(format!("point {i} of {n} is off the curve or out of order"));
        };
        from = k.saturating_sub(3);
        let off = spec.distance_to(*p, 400);
        o.max("distance from the curve (m)", off);
        if off > 0.01 {
            return Err(format!("point {i} of {n} is {off:.4} m off the curve"));
        }
    }
    // The end of the curve lies on the last chord
    let end = spec.at(1.0);
    if n == 1 {
        if l > 0.01 * c.step {
            return Err(format!("one point for a curve of {l} m"));
        }
    } else {
        let u = unit(sub(points[n - 1], points[n - 2]));
        let w = sub(end, points[n - 2]);
        if cross(u, w).abs() > 0.01 || dot(u, w) < -0.01 || dot(u, w) > 1.02 * c.step {
            return Err(format!("the last chord misses the end of the curve by {:.4} m", cross(u, w).abs()));
        }
        let want = (n as f64 - 2.0) * c.step + norm(w);
        // (a last point at the end may count as a full step)
        if (length - want).abs() > 0.011 * c.step {
            return Err(format!("length {length:.4}, but the chords add up to {want:.4} m"));
        }
    }
    let err = (length - l).abs() / l;
    // Chords are shorter than the curve by a share of (step * curvature)^2 / 24
    let course = match &spec {
        CurveSpec::Over(course, ..) => course,
        _ => &spec,
    };
    let sharp = match (course, c.turn) {
        (CurveSpec::Line(..), _) => 0.0,
        (CurveSpec::Arc(_, r, ..), Some(_)) => c.step / r,
        _ => c.step / 8.0,
    };
    let bound = 0.0105 + sharp * sharp / 20.0;
    o.max("error of the length relative to its bound", err / bound);
    if (length - l).abs() > bound * l + 0.002 * c.step {
        return Err(format!("length {length:.4} for a curve of {l:.4} m"));
    }
    Ok(())
}

fn check_subdivision(c: &Division, o: &mut Obs) -> Result<(), String> {
    let spec = c.spec();
    let lib = spec.lib();
    let l = spec.length();
    let most = (4.0 * l / c.step) as usize + 5;
    let curve = Budgeted::new(&*lib, 2 * most as u64 + 10);
    let samples: Vec<(f64, P)> =
        subdivided_samples_along_curve(&curve, c.step).map(|(t, p)| (t, fp(p))).collect();
    let n = samples.len();
    if n > 3 && c.shape.kind != 0 {
        o.nontrivial();
    }
    let b = lib.bounds();
    if n < 2 || samples[0].0 != b.min || samples[n - 1].0 != b.max {
        return Err("the samples do not start and end with the curve".into());
    }
    for (i, (t, p)) in samples.iter().enumerate() {
        let d = dist(spec.at(b.inv_lerp(*t)), *p);
        if d > 1e-6 {
            return Err(format!("sample {i} is {d} m from the point of its parameter"));
        }
        if i > 0 {
            let (t0, p0) = samples[i - 1];
            if *t <= t0 {
                return Err(format!("sample {i} is not after the one before it"));
            }
            let mid = spec.at(b.inv_lerp(0.5 * (t0 + t)));
            if dist(p0, mid) + dist(mid, *p) > 1.2 * c.step {
                return Err(format!("nothing between samples {} and {i} of {n}, though the curve goes elsewhere", i - 1));
            }
            if dist(p0, *p) > c.step * (1.0 + 1e-9) {
                return Err(format!("samples {} and {i} are {} m apart, {} at most were asked for", i - 1, dist(p0, *p), c.step));
            }
        }
    }
    o.max("samples relative to the most", n as f64 / most as f64);
    if n > most {
        return Err(format!("{n} samples for {l:.1} m in steps of {}", c.step));
    }
    let points = subdivided_points_along_curve(&Budgeted::new(&*lib, 2 * most as u64 + 10), c.step);
    if points.len() != n || points.iter().zip(&samples).any(|(p, s)| dist(fp(*p), s.1) > 1e-9) {
        return Err("points and samples differ".into());
    }
    Ok(())
}
