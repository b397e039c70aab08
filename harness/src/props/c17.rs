//! C17: polynomials, Bézier curves, lookup tables, intervals and vectors.

use super::Prop;
use crate::gens::*;
use crate::geom::*;
use crate::runner::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use traffic_sim::math::{
    normalize_with_derivative, project_local, rot90, CubicBezier2d, CubicFn, LineSegment2d,
    LookupTable, ParametricCurve2d, QuadraticBezier2d,
};
use traffic_sim::Interval;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        title: "Polynomials, Bezier curves, tables and intervals obey their definitions",
        assumptions: &["coordinates, values and slopes of ordinary size (up to 1000)"],
        parts: || {
            vec![
                Box::new(Part {
                    name: "cubic function",
                    rule: "cubics fitted to two points and slopes, shifted, and evaluated anywhere, compared with the Hermite form; non-trivial if the slopes differ",
                    quick: 400_000,
                    thorough: 8_000_000,
                    strategy: cubic,
                    check: check_cubic,
                }),
                Box::new(Part {
                    name: "bezier curves",
                    rule: "lines, quadratic and cubic curves evaluated, differentiated, divided and reversed, compared with repeated interpolation; non-trivial if the control points are distinct",
                    quick: 400_000,
                    thorough: 8_000_000,
                    strategy: bezier,
                    check: check_bezier,
                }),
                Box::new(Part {
                    name: "tables and intervals",
                    rule: "lookup tables, intervals and vectors compared with their definitions; non-trivial if the intervals overlap or the table has three or more cells",
                    quick: 400_000,
                    thorough: 8_000_000,
                    strategy: table,
                    check: check_table,
                }),
            ]
        },
    }
}

fn close(what: &str, got: f64, want: f64, size: f64) -> Result<(), String> {
    if (got - want).abs() <= 1e-9 * size.max(1.0) {
        Ok(())
    } else {
        Err(format!("{what}: {got} instead of {want}"))
    }
}

fn close2(what: &str, got: P, want: P, size: f64) -> Result<(), String> {
    if dist(got, want) <= 1e-9 * size.max(1.0) {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {want:?}"))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cubic {
    x: f64,
    w: f64,
    y: (f64, f64),
    dy: (f64, f64),
    at: f64,
    shift: f64,
}

fn cubic() -> BoxedStrategy<Cubic> {
    (
        f(-1000.0, 1000.0),
        prop_oneof![f(0.1, 200.0), f(-200.0, -0.1)],
        (f(-100.0, 100.0), f(-100.0, 100.0)),
        (f(-10.0, 10.0), f(-10.0, 10.0)),
        f(-1.5, 2.5),
        f(-500.0, 500.0),
    )
        .prop_map(|(x, w, y, dy, at, shift)| Cubic {
            x,
            w,
            y,
            dy,
            at,
            shift,
        })
        .boxed()
}

fn check_cubic(c: &Cubic, o: &mut Obs) -> Result<(), String> {
    if c.dy.0 != c.dy.1 {
        o.nontrivial();
    }
    let fun = CubicFn::fit(c.x, c.y.0, c.dy.0, c.x + c.w, c.y.1, c.dy.1);
    // The Hermite form
    let u = c.at;
    let (u2, u3) = (u * u, u * u * u);
    let want = c.y.0 * (2.0 * u3 - 3.0 * u2 + 1.0)
        + c.w * c.dy.0 * (u3 - 2.0 * u2 + u)
        + c.y.1 * (3.0 * u2 - 2.0 * u3)
        + c.w * c.dy.1 * (u3 - u2);
    let slope = (c.y.0 - c.y.1) / c.w * (6.0 * u2 - 6.0 * u)
        + c.dy.0 * (3.0 * u2 - 4.0 * u + 1.0)
        + c.dy.1 * (3.0 * u2 - 2.0 * u);
    let x = c.x + u * c.w;
    let shifted = fun.translate_x(c.shift);
    for (name, fun, x) in [
        ("fitted", fun, x),
        // (amount is the offset added to the argument)
        ("shifted", shifted, x - c.shift),
        ("shifted back", shifted.translate_x(-c.shift), x),
    ] {
        // Rounding of `x` is amplified by the steepness
        let (sy, sd) = (
            100.0 * (c.y.0.abs() + c.y.1.abs() + 10.0 + c.w.abs() * 20.0) / c.w.abs().min(1.0),
            100.0 * (20.0 + 200.0 / c.w.abs()) / c.w.abs().min(1.0),
        );
        close(&format!("value of the {name} cubic at {x}"), fun.y(x), want, sy)?;
        close(&format!("slope of the {name} cubic at {x}"), fun.dy(x), slope, sd)?;
        let both = fun.y_and_dy(x);
        if both != (fun.y(x), fun.dy(x)) {
            return Err("value and slope together differ from value and slope".into());
        }
    }
    let k = CubicFn::constant(c.y.0);
    if k.y(c.at) != c.y.0 || k.dy(c.at) != 0.0 {
        return Err("the constant is not".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bezier {
    p: [P; 4],
    t: f64,
    cut: f64,
}

fn bezier() -> BoxedStrategy<Bezier> {
    let p = || (f(-500.0, 500.0), f(-500.0, 500.0)).prop_map(|(x, y)| [x, y]);
    ([p(), p(), p(), p()], -0.3..1.3f64, 0.0..=1.0f64)
        .prop_map(|(p, t, cut)| Bezier { p, t, cut })
        .boxed()
}

/// De Casteljau.
fn casteljau(p: &[P], t: f64) -> P {
    let mut p = p.to_vec();
    while p.len() > 1 {
        p = p.windows(2).map(|w| lerp(w[0], w[1], t)).collect();
    }
    p[0]
}

/// The control points of the derivative.
fn derive(p: &[P]) -> Vec<P> {
    let n = p.len() as f64 - 1.0;
    p.windows(2).map(|w| mul(sub(w[1], w[0]), n)).collect()
}

fn check_bezier(c: &Bezier, o: &mut Obs) -> Result<(), String> {
    let p = &c.p;
    if p[0] != p[1] && p[1] != p[2] && p[2] != p[3] {
        o.nontrivial();
    }
    let size = 1e4;
    let t = c.t;
    let d = [derive(&p[..2]), derive(&p[..3]), derive(&p[..4])];
    // Line segments are parametrised by length
    let line = LineSegment2d::from_ends(pt(p[0]), pt(p[1]));
    let l = dist(p[0], p[1]);
    close2("start of a line", fp(line.start()), p[0], size)?;
    close2("end of a line", fp(line.end()), p[1], size)?;
    close("start of the bounds of a line", line.bounds().min, 0.0, size)?;
    close("length of a line", line.bounds().max, l, size)?;
    if l > 1.0 {
        close2("line", fp(line.sample(t * l)), lerp(p[0], p[1], t), size)?;
        close2("tangent of a line", fv(line.sample_dt(t * l)), unit(sub(p[1], p[0])), 1.0)?;
        close2("second derivative of a line", fv(line.sample_dt2(t * l)), [0.0; 2], size)?;
    }

    let q3 = [p[0], p[1], p[2]];
    let quad = QuadraticBezier2d::new(&q3.map(pt));
    close("bounds of a quadratic", quad.bounds().min, 0.0, 1.0)?;
    close("bounds of a quadratic", quad.bounds().max, 1.0, 1.0)?;
    close2("quadratic", fp(quad.sample(t)), casteljau(&q3, t), size)?;
    close2("derivative of a quadratic", fv(quad.sample_dt(t)), casteljau(&d[1], t), size)?;
    close2("second derivative of a quadratic", fv(quad.sample_dt2(t)), derive(&d[1])[0], size)?;

    let cubic = CubicBezier2d::new(&p.map(pt));
    close("bounds of a cubic", cubic.bounds().min, 0.0, 1.0)?;
    close("bounds of a cubic", cubic.bounds().max, 1.0, 1.0)?;
    close2("cubic", fp(cubic.sample(t)), casteljau(p, t), size)?;
    close2("derivative of a cubic", fv(cubic.sample_dt(t)), casteljau(&d[2], t), size)?;
    let want = casteljau(&derive(&d[2]), t);
    let e = dist(fv(cubic.sample_dt2(t)), want);
    // (may be approximated)
    if e > 0.01 * norm(want) + 10.0 {
        return Err(format!("second derivative of a cubic off by {e}"));
    }

    close2("line as a cubic", fp(CubicBezier2d::line(pt(p[0]), pt(p[1])).sample(t)), lerp(p[0], p[1], t), size)?;
    close2("quadratic as a cubic", fp(CubicBezier2d::quadratic(&q3.map(pt)).sample(t)), casteljau(&q3, t), size)?;
    let [a, b] = cubic.subdivide(c.cut);
    let want = |s: f64| casteljau(p, s);
    close2("first piece of a cubic", fp(a.sample(t)), want(c.cut * t), size)?;
    close2("second piece of a cubic", fp(b.sample(t)), want(c.cut + (1.0 - c.cut) * t), size)?;
    let mut rev = cubic;
    rev.reverse();
    close2("reversed cubic", fp(rev.sample(t)), want(1.0 - t), size)?;

    // Curves of the user's own are differentiated numerically
    let user = UserCurve(CurveSpec::Cubic(*p));
    let want = casteljau(&d[2], t);
    let e = dist(fv(user.sample_dt(t)), want);
    if e > 2.0 {
        return Err(format!("numerical derivative off by {e}"));
    }
    // References to curves are curves
    let by_ref = &&quad;
    if fp(ParametricCurve2d::sample(by_ref, t)) != fp(quad.sample(t))
        || fv(ParametricCurve2d::sample_dt(by_ref, t)) != fv(quad.sample_dt(t))
        || fv(ParametricCurve2d::sample_dt2(by_ref, t)) != fv(quad.sample_dt2(t))
        || ParametricCurve2d::bounds(by_ref) != quad.bounds()
    {
        return Err("a reference to a curve differs from the curve".into());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Table {
    a: (f64, f64),
    b: (f64, f64),
    step: f64,
    x: f64,
    v: P,
    w: P,
    r: f64,
}

fn table() -> BoxedStrategy<Table> {
    let p = || (f(-100.0, 100.0), f(-100.0, 100.0)).prop_map(|(x, y)| [x, y]);
    (
        (f(-100.0, 100.0), f(0.0, 50.0)),
        (f(-100.0, 100.0), f(0.0, 50.0)),
        f(0.05, 20.0),
        f(-0.5, 1.5),
        p(),
        p(),
        f(0.0, 30.0),
    )
        .prop_map(|(a, b, step, x, v, w, r)| Table {
            a,
            b,
            step,
            x,
            v,
            w,
            r,
        })
        .boxed()
}

fn check_table(c: &Table, o: &mut Obs) -> Result<(), String> {
    let (a0, a1) = (c.a.0, c.a.0 + c.a.1);
    let (b0, b1) = (c.b.0, c.b.0 + c.b.1);
    let a = Interval::new(a0, a1);
    let b = Interval::new(b0, b1);
    let x = a0 + c.x * c.a.1;

    // Intervals
    let common = a1.min(b1) - a0.max(b0);
    if common.abs() > 1e-6 {
        if a.overlaps(&b) != (common > 0.0) || b.overlaps(&a) != (common > 0.0) {
            return Err(format!("overlap of {a:?} and {b:?}"));
        }
    }
    // Intervals that only touch don't overlap
    let touching = Interval::new(a1, a1 + c.b.1);
    if a.overlaps(&touching) || touching.overlaps(&a) {
        return Err(format!("{a:?} and {touching:?} only touch"));
    }
    if common > 0.0 {
        o.label("overlap");
        o.nontrivial();
    }
    close("gap between intervals", a.clearance_with(&b), (b0 - a1).max(a0 - b1), 1e3)?;
    close("length of an interval", a.length(), c.a.1, 1e3)?;
    if a.as_array() != [a0, a1] {
        return Err("the ends of an interval as an array".into());
    }
    close("middle of an interval", a.midpoint(), 0.5 * (a0 + a1), 1e3)?;
    let disc = Interval::disc(x, c.r);
    close("start of a disc", disc.min, x - c.r, 1e3)?;
    close("end of a disc", disc.max, x + c.r, 1e3)?;
    let inside = x >= a0 && x <= a1;
    if a.contains(x) != inside || !a.contains(a0) || !a.contains(a1) {
        return Err(format!("{a:?} contains {x}: {}", a.contains(x)));
    }
    close("distance from an interval", a.distance(x), (x - a1).max(a0 - x), 1e3)?;
    close("interpolation", a.lerp(c.x), x, 1e3)?;
    if c.a.1 > 0.1 {
        close("inverse interpolation", a.inv_lerp(x), c.x, 1e5)?;
    }
    for (s, name, sum) in [(c.r, "sum", a + c.r), (-c.r, "difference", a - c.r)] {
        close(name, sum.min, a0 + s, 1e3)?;
        close(name, sum.max, a1 + s, 1e3)?;
    }

    // Tables hold the value at the middle of each cell
    if c.a.1 > 0.1 {
        let t = LookupTable::from_samples(a, c.step, |x| 3.0 * x - 7.0);
        let cells = (c.a.1 / c.step).ceil();
        let i = ((x - a0) / c.step).floor().clamp(0.0, cells - 1.0);
        let near = |v: f64| (v - v.round()).abs() < 1e-6;
        if cells >= 3.0 {
            o.label("table");
            o.nontrivial();
        }
        if !near((x - a0) / c.step) && !near(c.a.1 / c.step) {
            let mid = a0 + (i + 0.5) * c.step;
            close(&format!("table over {a:?} in steps of {} at {x}", c.step), *t.sample(x), 3.0 * mid - 7.0, 1e3)?;
        }
    }

    // Vectors
    close2("vector turned left", fv(rot90(vc(c.v))), [-c.v[1], c.v[0]], 1.0)?;
    let (u, v) = ([c.x.cos(), c.x.sin()], [-c.x.sin(), c.x.cos()]);
    let want = [dot(sub(c.v, c.w), u), dot(sub(c.v, c.w), v)];
    close2("local coordinates", fp(project_local(pt(c.v), pt(c.w), vc(u), vc(v))), want, 1e3)?;
    if norm(c.v) > 1.0 {
        let (s, ds) = normalize_with_derivative(vc(c.v), vc(c.w));
        close2("unit vector", fv(s), unit(c.v), 1.0)?;
        let h = 1e-5;
        let num = mul(
            sub(unit(add(c.v, mul(c.w, h))), unit(sub(c.v, mul(c.w, h)))),
            0.5 / h,
        );
        let e = dist(fv(ds), num);
        if e > 1e-3 * (1.0 + norm(num)) {
            return Err(format!("derivative of a unit vector off by {e}"));
        }
    }
    Ok(())
}
