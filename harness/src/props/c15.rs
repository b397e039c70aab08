//! C15: the centre line of a link.

use super::Prop;
use crate::gens::*;
use crate::geom::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use traffic_sim::{LinkAttributes, Simulation};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        title: "The centre line of a link follows its curve, measured in metres",
        assumptions: &[
            "curves of 2 to 400 m with radii of at least 12 m that turn by at most 1.6 rad",
            "positions are accurate to 1 % (the library spaces its points that closely)",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "centre line",
                    rule: "length, positions, tangents and offsets along the centre line of a link compared with a dense evaluation of its curve; non-trivial if the curve bends",
                    quick: 240_000,
                    thorough: 2_000_000,
                    strategy: centre,
                    check: check_centre,
                }),
                Box::new(Part {
                    name: "inverse",
                    rule: "points beside a link mapped back to position, offset and slope; non-trivial if the curve bends and the point is off the centre line",
                    quick: 400_000,
                    thorough: 3_000_000,
                    strategy: inverse,
                    check: check_inverse,
                }),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub start: P,
    pub th: f64,
    pub kind: u8,
    pub len: f64,
    pub bend: [f64; 2],
    /// A parameter of its own: where it starts, and how much it grows
    #[serde(default)]
    pub over: Option<(f64, f64)>,
}

pub fn shape(lo: f64, hi: f64) -> BoxedStrategy<Shape> {
    (
        (f(-500.0, 500.0), f(-500.0, 500.0)),
        f(-3.14, 3.14),
        0u8..6,
        f(lo, hi),
        (f(-1.0, 1.0), f(-1.0, 1.0)),
        prop::option::weighted(0.25, (f(-50.0, 50.0), f(0.2, 200.0))),
    )
        .prop_map(|(s, th, kind, len, bend, over)| Shape {
            start: [s.0, s.1],
            th,
            kind,
            len,
            bend: [bend.0, bend.1],
            over,
        })
        .boxed()
}

impl Shape {
    pub fn spec(&self) -> CurveSpec {
        self.with_parameter(self.course())
    }

    pub fn with_parameter(&self, course: CurveSpec) -> CurveSpec {
        match self.over {
            Some((lo, size)) => CurveSpec::Over(Box::new(course), lo, lo + size),
            None => course,
        }
    }

    fn course(&self) -> CurveSpec {
        let pose = Pose {
            p: self.start,
            th: self.th,
        };
        let d = |a: f64| [(self.th + a).cos(), (self.th + a).sin()];
        match self.kind {
            0..=3 => {
                Seg {
                    kind: self.kind,
                    len: self.len,
                    bend: self.bend[0],
                }
                .lay(pose, 12.0)
                .0
            }
            4 => {
                // A quadratic curve with legs of unequal length
                let a = 0.4 * self.bend[0] * (self.len / 40.0).min(1.0);
                let k = 0.5 + 0.12 * self.bend[1];
                let m = add(self.start, mul(d(0.0), k * self.len));
                CurveSpec::Quad([self.start, m, add(m, mul(d(a), (1.0 - k) * self.len))])
            }
            _ => {
                // An S-shaped or one-sided cubic curve
                let m = (self.len / 60.0).min(1.0) * 0.5;
                let (a, b) = (m * self.bend[0], m * self.bend[1]);
                let e = add(self.start, mul(d(0.0), self.len));
                let h = self.len / 3.0;
                CurveSpec::Cubic([
                    self.start,
                    add(self.start, mul(d(a), h)),
                    sub(e, mul(d(b), h)),
                    e,
                ])
            }
        }
    }
}

/// A reference arc-length table of a curve.
pub struct Table {
    spec: CurveSpec,
    s: Vec<f64>,
}

impl Table {
    pub fn new(spec: &CurveSpec) -> Self {
        let n = 2000;
        let mut s = vec![0.0];
        let mut p = spec.at(0.0);
        for i in 1..=n {
            let q = spec.at(i as f64 / n as f64);
            s.push(s[i - 1] + dist(p, q));
            p = q;
        }
        Self {
            spec: spec.clone(),
            s,
        }
    }
    pub fn length(&self) -> f64 {
        *self.s.last().unwrap()
    }
    fn u(&self, s: f64) -> f64 {
        let n = self.s.len() - 1;
        let i = self.s.partition_point(|x| *x <= s).clamp(1, n);
        let f = (s - self.s[i - 1]) / (self.s[i] - self.s[i - 1]);
        (i as f64 - 1.0 + f) / n as f64
    }
    /// The point at arc length `s` (clamped to the curve)
    pub fn at(&self, s: f64) -> P {
        self.spec.at(self.u(s.clamp(0.0, self.length())))
    }
    /// The unit tangent at arc length `s`.
    pub fn tan(&self, s: f64) -> P {
        let l = self.length();
        let h = 1e-3 * l.min(1.0);
        let (a, b) = ((s - h).max(0.0), (s + h).min(l));
        unit(sub(self.spec.at(self.u(b)), self.spec.at(self.u(a))))
    }
    /// Signed curvature at arc length `s` (from tangents 1 m apart).
    pub fn curvature(&self, s: f64) -> f64 {
        let l = self.length();
        let (a, b) = ((s - 0.5).max(0.0), (s + 0.5).min(l));
        cross(self.tan(a), self.tan(b)).asin() / (b - a)
    }
    /// Arc length of the point of the curve closest to `p`, and the distance.
    pub fn project(&self, p: P) -> (f64, f64) {
        let n = self.s.len() - 1;
        let d = |i: usize| dist(p, self.spec.at(i as f64 / n as f64));
        let i = (0..=n).step_by(20).min_by(|a, b| d(*a).partial_cmp(&d(*b)).unwrap()).unwrap();
        let (mut lo, mut hi) = (self.s[i.saturating_sub(20)], self.s[(i + 20).min(n)]);
        for _ in 0..50 {
            let (a, b) = (lo + (hi - lo) / 3.0, hi - (hi - lo) / 3.0);
            if dist(p, self.at(a)) < dist(p, self.at(b)) {
                hi = b;
            } else {
                lo = a;
            }
        }
        let s = 0.5 * (lo + hi);
        (s, dist(p, self.at(s)))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Centre {
    shape: Shape,
    limit: f64,
    /// Relative positions, lateral offsets
    at: Vec<(f64, f64)>,
}

fn centre() -> BoxedStrategy<Centre> {
    (
        prop_oneof![30 => shape(2.0, 120.0), 10 => shape(100.0, 400.0), 1 => shape(400.0, 4000.0)],
        f(3.0, 40.0),
        prop::collection::vec((0.0..=1.0f64, f(-6.0, 6.0)), 1..16),
    )
        .prop_map(|(shape, limit, at)| Centre { shape, limit, at })
        .boxed()
}

fn check_centre(c: &Centre, o: &mut Obs) -> Result<(), String> {
    let spec = c.shape.spec();
    let t = Table::new(&spec);
    let mut sim = Simulation::new();
    let id = sim.add_link(&LinkAttributes {
        curve: &*spec.lib(),
        speed_limit: c.limit,
    });
    let link = sim.get_link(id);
    let curve = link.curve();
    let len = link.length();
    let bent = dist(t.at(0.0), t.at(t.length())) < t.length() * 0.9999;
    if bent {
        o.nontrivial();
    }
    if link.id() != id || link.speed_limit() != c.limit || curve.length() != len {
        return Err("the link reports another id, limit or length than it was given".into());
    }
    let rel = (len - t.length()).abs() / (t.length() + 1.0);
    o.max("relative error of the length", rel);
    if rel > 0.011 {
        return Err(format!("the link is {len} m long, its curve {} m", t.length()));
    }
    if (link.cost() as f64 - (10.0 * len / c.limit)).abs() > 1.001 {
        return Err(format!("cost {} for {len} m at {} m/s", link.cost(), c.limit));
    }
    for (p, want) in [(0.0, spec.at(0.0)), (len, spec.at(1.0))] {
        let e = dist(fp(curve.sample_centre(p).pos), want);
        o.max("error at the ends (m)", e);
        if e > 0.05 {
            return Err(format!("at {p:.3} of {len:.3} m the link is {e:.4} m off the end of its curve"));
        }
    }
    let scale = t.length() / len;
    for (r, offset) in &c.at {
        let pos = r * len;
        let s = curve.sample_centre(pos);
        let xy = fp(s.pos);
        let (want, want_tan) = (t.at(pos * scale), t.tan(pos * scale));
        let e = dist(xy, want);
        let bound = 0.0125 * pos.min(len - pos) + 0.08;
        o.max("error of a position, relative to its bound", e / bound);
        if e > bound {
            return Err(format!("the point at {pos:.3} of {len:.3} m is {e:.4} m from where it should be"));
        }
        let (_, off) = t.project(xy);
        let off = if r * len > len - 0.01 || pos < 0.01 { 0.0 } else { off };
        o.max("distance from the curve (m)", off);
        if off > 0.02 {
            return Err(format!("the point at {pos:.3} m is {off:.4} m off the curve"));
        }
        let tan = fv(s.tan);
        if (norm(tan) - 1.0).abs() > 1e-9 {
            return Err(format!("tangent of length {}", norm(tan)));
        }
        let turn = cross(want_tan, tan).atan2(dot(want_tan, tan)).abs();
        // (the curve may have moved on by the error of the position)
        let bound = 0.03 + e / 11.0;
        o.max("error of the direction (rad)", turn);
        if turn > bound {
            return Err(format!("the tangent at {pos:.3} m is {turn:.4} rad off"));
        }
        // Offsets are measured to the left
        let q = curve.sample(pos, *offset);
        let want = add(xy, mul(perp(tan), *offset));
        let e = dist(fp(q.pos), want);
        if e > 1e-6 || dist(fv(q.tan), tan) > 1e-9 {
            return Err(format!("the point {offset} m beside {pos:.3} m is {e} m from where it should be"));
        }
        // Metres along the link are metres on the ground
        let step = 1.0f64.min(len - pos);
        if step > 0.5 {
            let d = dist(xy, fp(curve.sample_centre(pos + step).pos)) / step;
            o.max("error of a metre", (d - 1.0).abs());
            if (d - 1.0).abs() > 0.025 {
                return Err(format!("{step:.3} m along the link from {pos:.3} m are {:.4} m", d * step));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Inverse {
    shape: Shape,
    at: f64,
    offset: f64,
    slope: f64,
}

fn inverse() -> BoxedStrategy<Inverse> {
    (shape(10.0, 200.0), 0.0..=1.0f64, f(-4.0, 4.0), f(-0.8, 0.8))
        .prop_map(|(shape, at, offset, slope)| Inverse {
            shape,
            at,
            offset,
            slope,
        })
        .boxed()
}

fn check_inverse(c: &Inverse, o: &mut Obs) -> Result<(), String> {
    let spec = c.shape.spec();
    let t = Table::new(&spec);
    let mut sim = Simulation::new();
    let id = sim.add_link(&LinkAttributes {
        curve: &*spec.lib(),
        speed_limit: 10.0,
    });
    let curve = sim.get_link(id).curve();
    // (the curvature is only known away from the ends)
    let pos = 2.0 + c.at * (curve.length() - 4.0);
    let s = curve.sample(pos, c.offset);
    let tan = fv(s.tan);
    let k = t.curvature(pos / curve.length() * t.length());
    // The direction of a path whose offset changes by `slope` per metre of the centre line
    let dir = unit(add(mul(tan, 1.0 - k * c.offset), mul(perp(tan), c.slope)));
    let Some((p, off, slope)) = curve.inverse_sample(s.pos, vc(dir)) else {
        return Err(format!("the point {} m beside {pos:.3} m cannot be mapped back", c.offset));
    };
    if k.abs() > 1e-3 && c.offset.abs() > 0.1 {
        o.nontrivial();
    }
    o.max("error of the position (m)", (p - pos).abs());
    o.max("error of the offset (m)", (off - c.offset).abs());
    o.max("error of the slope", (slope - c.slope).abs());
    if (p - pos).abs() > 0.05 {
        return Err(format!("the point {} m beside {pos:.3} m is mapped back to {p:.3} m", c.offset));
    }
    if (off - c.offset).abs() > 0.01 {
        return Err(format!("the point {} m beside {pos:.3} m is mapped back to an offset of {off:.4} m", c.offset));
    }
    if (slope - c.slope).abs() > 0.05 {
        return Err(format!("slope {} at {pos:.3} m, offset {}, is mapped back to {slope:.4}", c.slope, c.offset));
    }
    Ok(())
}
