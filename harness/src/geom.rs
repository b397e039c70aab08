//! Curve specifications and an independent reference evaluation of them.

use serde::{Deserialize, Serialize};
use traffic_sim::math::{
    CubicBezier2d, LineSegment2d, ParametricCurve2d, Point2d, QuadraticBezier2d, Vector2d,
};
use traffic_sim::Interval;

pub type P = [f64; 2];

pub fn sub(a: P, b: P) -> P {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn add(a: P, b: P) -> P {
    [a[0] + b[0], a[1] + b[1]]
}
pub fn mul(a: P, k: f64) -> P {
    [a[0] * k, a[1] * k]
}
pub fn dot(a: P, b: P) -> f64 {
    a[0] * b[0] + a[1] * b[1]
}
pub fn cross(a: P, b: P) -> f64 {
    a[0] * b[1] - a[1] * b[0]
}
pub fn norm(a: P) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: P) -> P {
    mul(a, 1.0 / norm(a))
}
pub fn perp(a: P) -> P {
    [-a[1], a[0]]
}
pub fn dist(a: P, b: P) -> f64 {
    norm(sub(a, b))
}
pub fn lerp(a: P, b: P, t: f64) -> P {
    [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t]
}
pub fn pt(p: P) -> Point2d {
    Point2d::new(p[0], p[1])
}
pub fn vc(p: P) -> Vector2d {
    Vector2d::new(p[0], p[1])
}
pub fn fp(p: Point2d) -> P {
    [p.x, p.y]
}
pub fn fv(p: Vector2d) -> P {
    [p.x, p.y]
}

/// A curve the harness hands to the library.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CurveSpec {
    Line(P, P),
    Quad([P; 3]),
    Cubic([P; 4]),
    /// A user-defined curve: circular arc (centre, radius, start angle, sweep), t in [0, 1].
    Arc(P, f64, f64, f64),
    /// A user-defined curve: the course of another one, with its parameter in the interval given.
    Over(Box<CurveSpec>, f64, f64),
}

impl CurveSpec {
    /// Reference evaluation at the relative parameter `u` in [0, 1].
    pub fn at(&self, u: f64) -> P {
        match self {
            CurveSpec::Line(a, b) => lerp(*a, *b, u),
            CurveSpec::Quad(p) => {
                let a = lerp(p[0], p[1], u);
                let b = lerp(p[1], p[2], u);
                lerp(a, b, u)
            }
            CurveSpec::Cubic(p) => {
                let a = lerp(p[0], p[1], u);
                let b = lerp(p[1], p[2], u);
                let c = lerp(p[2], p[3], u);
                lerp(lerp(a, b, u), lerp(b, c, u), u)
            }
            CurveSpec::Arc(c, r, a0, sw) => {
                let a = a0 + sw * u;
                [c[0] + r * a.cos(), c[1] + r * a.sin()]
            }
            CurveSpec::Over(inner, ..) => inner.at(u),
        }
    }

    /// Arc length by dense sampling.
    pub fn length(&self) -> f64 {
        match self {
            CurveSpec::Line(a, b) => dist(*a, *b),
            CurveSpec::Arc(_, r, _, sw) => (r * sw).abs(),
            CurveSpec::Over(inner, ..) => inner.length(),
            _ => {
                let n = 4000;
                let mut l = 0.0;
                let mut p = self.at(0.0);
                for i in 1..=n {
                    let q = self.at(i as f64 / n as f64);
                    l += dist(p, q);
                    p = q;
                }
                l
            }
        }
    }

    pub fn map(&self, f: &dyn Fn(P) -> P, fa: &dyn Fn(f64, f64) -> (f64, f64)) -> CurveSpec {
        match self {
            CurveSpec::Line(a, b) => CurveSpec::Line(f(*a), f(*b)),
            CurveSpec::Quad(p) => CurveSpec::Quad(p.map(f)),
            CurveSpec::Cubic(p) => CurveSpec::Cubic(p.map(f)),
            CurveSpec::Arc(c, r, a0, sw) => {
                let (a0, sw) = fa(*a0, *sw);
                CurveSpec::Arc(f(*c), *r, a0, sw)
            }
            CurveSpec::Over(inner, lo, hi) => CurveSpec::Over(Box::new(inner.map(f, fa)), *lo, *hi),
        }
    }

    /// Distance from a point to the reference curve, by dense sampling and local refinement.
    pub fn distance_to(&self, p: P, n: usize) -> f64 {
        let mut best = (f64::INFINITY, 0);
        for i in 0..=n {
            let d = dist(p, self.at(i as f64 / n as f64));
            if d < best.0 {
                best = (d, i);
            }
        }
        let (mut lo, mut hi) = (
            (best.1 as f64 - 1.0).max(0.0) / n as f64,
            ((best.1 + 1) as f64).min(n as f64) / n as f64,
        );
        for _ in 0..60 {
            let m1 = lo + (hi - lo) / 3.0;
            let m2 = hi - (hi - lo) / 3.0;
            if dist(p, self.at(m1)) < dist(p, self.at(m2)) {
                hi = m2;
            } else {
                lo = m1;
            }
        }
        dist(p, self.at(0.5 * (lo + hi))).min(best.0)
    }

    /// The library object for this spec.
    pub fn lib(&self) -> Box<dyn ParametricCurve2d> {
        match self {
            CurveSpec::Line(a, b) => Box::new(LineSegment2d::from_ends(pt(*a), pt(*b))),
            CurveSpec::Quad(p) => Box::new(QuadraticBezier2d::new(&p.map(pt))),
            CurveSpec::Cubic(p) => Box::new(CubicBezier2d::new(&p.map(pt))),
            CurveSpec::Arc(..) | CurveSpec::Over(..) => Box::new(UserCurve(self.clone())),
        }
    }
}

/// A curve type the library knows nothing about (uses the trait's default derivatives).
pub struct UserCurve(pub CurveSpec);

impl ParametricCurve2d for UserCurve {
    fn sample(&self, t: f64) -> Point2d {
        let b = self.bounds();
        pt(self.0.at((t - b.min) / (b.max - b.min)))
    }
    fn bounds(&self) -> Interval<f64> {
        match self.0 {
            CurveSpec::Over(_, lo, hi) => Interval::new(lo, hi),
            _ => Interval::new(0.0, 1.0),
        }
    }
}

/// Wraps a curve and fails once it has been sampled too often: a deterministic stand-in for
/// "this loop does not terminate".
pub struct Budgeted<'a> {
    pub inner: &'a dyn ParametricCurve2d,
    pub left: std::cell::Cell<u64>,
}

impl<'a> Budgeted<'a> {
    pub fn new(inner: &'a dyn ParametricCurve2d, budget: u64) -> Self {
        Self {
            inner,
            left: std::cell::Cell::new(budget),
        }
    }
    fn tick(&self) {
        let n = self.left.get();
        if n == 0 {
            panic!("curve sampled more often than any terminating run needs");
        }
        self.left.set(n - 1);
    }
}

impl<'a> ParametricCurve2d for Budgeted<'a> {
    fn sample(&self, t: f64) -> Point2d {
        self.tick();
        self.inner.sample(t)
    }
    fn bounds(&self) -> Interval<f64> {
        self.inner.bounds()
    }
    fn sample_dt(&self, t: f64) -> Vector2d {
        self.tick();
        self.inner.sample_dt(t)
    }
    fn sample_dt2(&self, t: f64) -> Vector2d {
        self.tick();
        self.inner.sample_dt2(t)
    }
}

/// A piece of road in "turtle" form.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seg {
    /// 0 straight line, 1 arc, 2 quadratic bezier, 3 cubic bezier
    pub kind: u8,
    pub len: f64,
    /// Signed curvature parameter in [-1, 1]; the actual turn is limited by the minimum radius.
    pub bend: f64,
}

/// The turtle: a position and a heading.
#[derive(Clone, Copy, Debug)]
pub struct Pose {
    pub p: P,
    pub th: f64,
}

impl Seg {
    /// Lays the segment down from `pose`, returning the curve and the end pose.
    pub fn lay(&self, pose: Pose, min_radius: f64) -> (CurveSpec, Pose) {
        let d0 = [pose.th.cos(), pose.th.sin()];
        let max_turn = (self.len / min_radius).min(1.6);
        let turn = self.bend * max_turn;
        if self.kind == 0 || turn.abs() < 0.02 {
            let e = add(pose.p, mul(d0, self.len));
            return (CurveSpec::Line(pose.p, e), Pose { p: e, th: pose.th });
        }
        let r = self.len / turn;
        let c = add(pose.p, mul(perp(d0), r));
        let th1 = pose.th + turn;
        let d1 = [th1.cos(), th1.sin()];
        let e = add(c, mul(perp(d1), -r));
        match self.kind {
            1 => {
                let a0 = if r > 0.0 {
                    pose.th - std::f64::consts::FRAC_PI_2
                } else {
                    pose.th + std::f64::consts::FRAC_PI_2
                };
                (
                    CurveSpec::Arc(c, r.abs(), a0, turn),
                    Pose { p: e, th: th1 },
                )
            }
            2 => {
                let h = r.abs() * (0.5 * turn.abs()).tan();
                let m = add(pose.p, mul(d0, h));
                (CurveSpec::Quad([pose.p, m, e]), Pose { p: e, th: th1 })
            }
            _ => {
                let h = r.abs() * 4.0 / 3.0 * (0.25 * turn.abs()).tan();
                (
                    CurveSpec::Cubic([
                        pose.p,
                        add(pose.p, mul(d0, h)),
                        sub(e, mul(d1, h)),
                        e,
                    ]),
                    Pose { p: e, th: th1 },
                )
            }
        }
    }
}
