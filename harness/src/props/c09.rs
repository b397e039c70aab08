//! C09: stop and give-way signs.

use super::Prop;
use crate::cross::{self, CrossCase};
use crate::gens::*;
use crate::geom::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        title: "Vehicles stop at stop signs and give way to whoever has right of way",
        assumptions: &[
            "a vehicle arrives at a sign when its front is within the sign's distance of the line, and it has stopped there if it must",
            "arrivals within a second of each other are not ordered",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "crossing",
                    rule: "traffic on two crossing roads with any signs; non-trivial if some vehicle that had to give way to another was checked on entering",
                    quick: 60_000,
                    thorough: 1_400_000,
                    strategy: crossing,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "all-way stop",
                    rule: "a few vehicles arriving at stop signs on both of two crossing roads; non-trivial as above",
                    quick: 40_000,
                    thorough: 1_000_000,
                    strategy: all_way,
                    check: check_cross,
                }),
                Box::new(Part {
                    name: "fork",
                    rule: "vehicles coming to a fork with a sign on each branch change their destination on the way; non-trivial if one crossed a stop line after a change",
                    quick: 40_000,
                    thorough: 1_000_000,
                    strategy: fork,
                    check: check_fork,
                }),
                Box::new(Part {
                    name: "wide road",
                    rule: "vehicles one at a time across up to six roads that all have right of way, declared in any order, from some of which others turn off before; non-trivial if there was somebody to give way to",
                    quick: 60_000,
                    thorough: 1_500_000,
                    strategy: wide,
                    check: check_wide,
                }),
            ]
        },
    }
}

/// The shortest time to cover `d` from speed `v`.
fn reach(v: f64, d: f64, acc: f64, limit: f64) -> f64 {
    let d = d.max(0.0);
    let top = limit.max(v);
    let t = (top - v) / acc;
    let dd = 0.5 * (v + top) * t;
    if dd >= d {
        ((v * v + 2.0 * acc * d).sqrt() - v) / acc
    } else {
        t + (d - dd) / top
    }
}

fn crossing() -> BoxedStrategy<CrossCase> {
    (cross::case(false), (f(30.0, 150.0), f(30.0, 150.0)), (any::<bool>(), cross::ctl()), any::<bool>(), 0u8..8, (cross::feed(), cross::feed(), f(25.0, 60.0)))
        .prop_map(|(mut c, ap, (both, mut y), same, close, (f0, f1, short))| {
            // Vehicles start outside the distance of the sign
            c.approach = [ap.0, ap.1].map(|a: f64| a.max(50.0));
            c.feed = [f0, f1];
            for r in 0..2 {
                if c.feed[r].is_some() {
                    c.approach[r] = c.approach[r].min(short);
                }
            }
            let need = 2.0 * 1.8 * (1.0 + c.angle.cos().abs()) / c.angle.sin() + 8.0;
            c.inner = c.inner.map(|i| i.max(need));
            if close == 0 {
                c.ctl[0] = Ctl::Closed;
            } else if both {
                if same {
                    if let (Ctl::Yield { priority, .. }, Ctl::Yield { priority: p, .. }) = (&mut y, c.ctl[1]) {
                        *priority = p;
                    }
                }
                c.ctl[0] = y;
            }
            c
        })
        .boxed()
}

fn all_way() -> BoxedStrategy<CrossCase> {
    (crossing(), 1u8..30, prop::collection::vec((0u8..80, 0u8..2), 2..6), any::<bool>(), any::<bool>())
        .prop_map(|(mut c, first, arrivals, s0, s1)| {
            c.ctl[0] = c.ctl[1];
            for (ctl, stop) in c.ctl.iter_mut().zip([s0, s1]) {
                if let Ctl::Yield { must_stop, distance, .. } = ctl {
                    *must_stop = stop;
                    *distance = distance.min(12.0);
                }
            }
            c.inner[1] = c.inner[0];
            let p = c.arrivals[0].2;
            c.arrivals = arrivals.into_iter().map(|(t, r)| (t, r, p)).collect();
            c.arrivals[0].0 = first;
            c
        })
        .boxed()
}

/// What is known about a vehicle's way to its line.
#[derive(Clone, Default)]
struct Know {
    /// First moment it was close enough to the line (and had stopped there if it must)
    ready: Option<f64>,
    /// First moment it was ready with nobody before it in front of the line
    head: Option<f64>,
    stopped: bool,
    crossed: Option<f64>,
    /// Since when nobody has been close ahead of it on its road
    clear: f64,
    /// Since when it has been standing
    still: f64,
    /// Where it was standing last, relative to the crossing point
    stood_at: f64,
    /// When it was standing last
    stood: f64,
    born: f64,
    /// Since when it could have gone
    could_go: Option<f64>,
    /// The accelerations a vehicle that has to stop at its line would have had, and when
    stopping: Vec<(f64, f64)>,
    /// For the others on the other road when it was first seen not to stop at its line:
    /// how much sooner they could have been there than it could have cleared the junction
    decided: Option<HashMap<usize, f64>>,
}

/// The acceleration of a vehicle that has to stop at a line ahead.
fn stop_acc(d: f64, v: f64, p: &VehP) -> f64 {
    if d <= 2.0 {
        return -6.0;
    }
    let want = 2.0 + v * p.headway + v * v / (2.0 * (p.max_acc * p.comf_dec).sqrt());
    (p.max_acc * (1.0 - (want / d).powi(2))).max(-6.0)
}

fn check_cross(c: &CrossCase, o: &mut Obs) -> Result<(), String> {
    let half_zone = 1.8 * (1.0 + c.angle.cos().abs()) / c.angle.sin();
    let sign = |r: usize| match c.ctl[r] {
        Ctl::Yield { distance, must_stop, priority } => Some((distance, must_stop, priority)),
        _ => None,
    };
    let mut know: HashMap<usize, Know> = HashMap::new();
    let mut monitor = |w: &World, prev: &Snap, next: &Snap, dt: f64| -> Result<(), String> {
        // Position of a vehicle's centre relative to the crossing point
        let rel = |s: &VSnap| {
            let r = s.link / 3;
            let inner = 0.5 * w.len[3 * r + 1];
            s.pos + [-inner - w.len[3 * r], -inner, inner][s.link % 3]
        };
        let line = |r: usize| -0.5 * w.len[3 * r + 1];
        let half = |s: &VSnap| 0.5 * w.vehs[s.v].p.length;
        for s in &next.vehs {
            let r = s.link / 3;
            let d = line(r) - rel(s) - half(s);
            let ahead = |within: f64| {
                next.vehs.iter().any(|x| x.link / 3 == r && x.v != s.v && rel(x) > rel(s) && rel(x) < rel(s) + within)
            };
            let first = !next.vehs.iter().any(|x| {
                x.link / 3 == r && x.v != s.v && rel(x) > rel(s) && rel(x) + half(x) < line(r)
            });
            let k = know.entry(s.v).or_insert_with(|| Know { clear: w.time, still: w.time, born: w.time, ..Default::default() });
            if s.vel >= 0.1 {
                k.still = w.time;
            } else {
                k.stood_at = rel(s);
                k.stood = w.time;
            }
            if ahead(60.0) {
                k.clear = w.time;
            }
            let Some((distance, must_stop, _)) = sign(r) else {
                if d <= 0.0 {
                    k.crossed.get_or_insert(w.time);
                }
                continue;
            };
            if d > 0.0 {
                let close = d < distance + 0.5;
                k.stopped |= close && s.vel < 0.1;
                if close && (k.stopped || !must_stop) {
                    k.ready.get_or_insert(w.time);
                }
                if d < distance && (s.vel < 0.1 || !must_stop) && first {
                    k.head.get_or_insert(w.time);
                }
            } else if k.crossed.is_none() {
                k.crossed = Some(w.time);
                if prev.get(s.v).is_none() {
                    continue;
                }
                if must_stop && !k.stopped {
                    return Err(format!(
                        "at {:.2} s vehicle {} passed a stop sign at {:.2} m/s without having stopped",
                        w.time, s.v, s.vel
                    ));
                }
            }
        }
        // Vehicles that are seen to have decided to go
        for b in &next.vehs {
            let r = b.link / 3;
            let Some(was) = prev.get(b.v).filter(|_| sign(r).is_some()) else { continue };
            let k = know.get_mut(&b.v).unwrap();
            let p = w.vehs[b.v].p;
            k.stopping.retain(|x| x.1 > w.time - 0.4);
            k.stopping.push((stop_acc(line(r) - rel(was) - half(was), was.vel, &p), w.time));
            let most = k.stopping.iter().fold(-6.0, |m: f64, x| m.max(x.0));
            if k.ready.is_some() && k.decided.is_none() && (b.vel - was.vel) / dt > most + 0.1 {
                let leave = reach(was.vel, half_zone - rel(was), p.max_acc, w.limit[3 * r + 1]);
                k.decided = Some(
                    prev.vehs
                        .iter()
                        .filter(|a| a.link / 3 != r)
                        .map(|a| {
                            let ra = a.link / 3;
                            let arrive = reach(a.vel, -half_zone - rel(a), w.vehs[a.v].p.max_acc, c.top(ra));
                            (a.v, leave - arrive)
                        })
                        .collect(),
                );
            }
        }
        // Vehicles that have right of way and a clear junction before them go
        for a in &next.vehs {
            let r = a.link / 3;
            let Some((distance, _, pr)) = sign(r) else { continue };
            let d = line(r) - rel(a) - half(a);
            let ka = know[&a.v].clone();
            let free = d > 0.0
                && d < distance.min(6.0)
                && a.vel < 0.1
                && ka.head.is_some()
                && !next.vehs.iter().any(|x| x.link / 3 == r && rel(x) > rel(a) && rel(x) < rel(a) + 40.0)
                && next.vehs.iter().filter(|x| x.link / 3 != r).all(|x| {
                    let other = line(1 - r) - rel(x) - half(x);
                    let first = sign(1 - r).map_or(c.ctl[1 - r] == Ctl::Closed, |s| {
                        s.2 < pr || (s.2 == pr && know[&x.v].ready.map_or(true, |t| t > ka.head.unwrap() + 1.0))
                    });
                    rel(x) - half(x) > half_zone + 0.3 || (first && other > 0.0 && (other > 35.0 || x.vel < 0.1))
                });
            let k = know.get_mut(&a.v).unwrap();
            if !free {
                k.could_go = None;
                continue;
            }
            let since = *k.could_go.get_or_insert(w.time);
            o.max("waited though it could go (s)", w.time - since);
            if next.vehs.len() > 1 {
                o.label("went with others waiting");
            }
            if w.time - since > 1.5 {
                return Err(format!(
                    "at {:.2} s vehicle {} (road {r}) has been waiting at its line for {:.1} s though it has right of way and the junction is clear",
                    w.time, a.v, w.time - since
                ));
            }
        }
        // Vehicles crossing their line in this step
        for b in &next.vehs {
            let r = b.link / 3;
            let (Some((_, stop, pr)), k) = (sign(r), &know[&b.v]) else { continue };
            // Nobody ahead has slowed it down since it decided to go
            let free = w.time - k.clear >= 3.0;
            if k.crossed != Some(w.time) {
                continue;
            }
            let Some(ready) = k.ready else {
                return Err(format!("at {:.2} s vehicle {} crossed its line without having arrived at it", w.time, b.v));
            };
            let acc = w.vehs[b.v].p.max_acc;
            let leave = reach(b.vel, half_zone - rel(b), acc, w.limit[3 * r + 1]);
            // (for the record only: cases in which the order of arrival mattered)
            if next.vehs.iter().any(|a| {
                let ka = &know[&a.v];
                a.link / 3 != r
                    && sign(a.link / 3).map_or(false, |s| s.2 == pr)
                    && ka.head.map_or(false, |t| t < ready - 1.0)
                    && ka.crossed.map_or(false, |t| t > ready)
            }) {
                o.nontrivial();
                o.label("let an earlier arrival go first");
            }
            for a in &next.vehs {
                let ra = a.link / 3;
                if ra == r || rel(a) - half(a) > half_zone + 0.3 {
                    continue;
                }
                let ka = &know[&a.v];
                let before = match sign(ra) {
                    None => c.ctl[ra] == Ctl::Open,
                    Some((_, _, pa)) => {
                        pa > pr
                            || ka.crossed.map_or(false, |t| t < ready - 0.5)
                            || (pa == pr && ka.head.map_or(false, |t| t < ready - 1.0))
                    }
                };
                // One that has been standing at its line all the while
                let standing = stop && a.vel < 0.1 && ka.still < ready - 1.0;
                // It was on the road when this one decided to go
                let seen = ka.born < ready.max(k.stood) - 0.5;
                if !before || !seen || !(free || standing) {
                    continue;
                }
                let arrive = reach(a.vel, -half_zone - rel(a), w.vehs[a.v].p.max_acc, c.top(ra));
                o.nontrivial();
                o.label(match sign(ra) {
                    None => "gave way to an open road",
                    Some((_, _, pa)) if pa > pr => "gave way to a higher priority",
                    _ => "gave way to an earlier arrival",
                });
                // Against one that stands, all can be judged as it was when this one moved off
                let (leave, slack) = if standing {
                    (reach(0.0, half_zone - k.stood_at, acc, w.limit[3 * r + 1]), -0.2)
                } else {
                    (leave, 0.0)
                };
                o.max("overlap in time (s)", leave - arrive);
                // It may have been slowed down by the others after it rightly decided to go
                let rightly = k.decided.as_ref().and_then(|d| d.get(&a.v)).map_or(false, |x| *x <= 0.0);
                if leave - arrive > slack && rightly && !standing {
                    o.label("slowed down after it decided to go");
                    continue;
                }
                if leave - arrive > slack {
                    return Err(format!(
                        "at {:.2} s vehicle {} (road {r}) drove in front of vehicle {} which has right of way: it needs {leave:.2} s to clear the junction, the other may be there in {arrive:.2} s (step {dt})",
                        w.time, b.v, a.v
                    ));
                }
            }
        }
        Ok(())
    };
    cross::drive_world(c, &mut monitor)?;
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ForkCase {
    cross: CrossCase,
    /// The sign on the branch that turns off before the junction
    turn: Ctl,
    /// (steps to wait, vehicle pick, branch)
    switches: Vec<(u8, u8, bool)>,
}

fn fork() -> BoxedStrategy<ForkCase> {
    (crossing(), cross::ctl(), prop::collection::vec((0u8..40, any::<u8>(), any::<bool>()), 0..30))
        .prop_map(|(mut cross, turn, switches)| {
            cross.angle = 1.57;
            cross.ctl[0] = Ctl::Open;
            cross.approach = cross.approach.map(|a| a.max(50.0));
            cross.feed = [None, None];
            ForkCase { cross, turn, switches }
        })
        .boxed()
}

fn check_fork(c: &ForkCase, o: &mut Obs) -> Result<(), String> {
    // Links 0-5 as in the crossing; 6 turns off from the end of 3, 7 leads away.
    let mut net = c.cross.net();
    let d = [c.cross.angle.cos(), c.cross.angle.sin()];
    let p = mul(d, -0.5 * c.cross.inner[1]);
    let n = perp(d);
    let m = add(p, mul(d, 3.0));
    let e = add(m, mul(n, 12.0));
    net.links.push(LinkSpec { curve: CurveSpec::Quad([p, m, e]), limit: c.cross.limit[1] });
    net.links.push(LinkSpec { curve: CurveSpec::Line(e, add(e, mul(n, 60.0))), limit: c.cross.limit[1] });
    net.conns.push((3, 6));
    net.conns.push((6, 7));
    net.controls.push((6, c.turn));
    let mut w = World::build(&net);
    let mut pend: [Vec<VehP>; 2] = [vec![], vec![]];
    let mut arrivals = c.cross.arrivals.iter();
    let mut next_arrival = arrivals.next().copied();
    let mut wait = next_arrival.map_or(0, |a| a.0);
    let mut switches = c.switches.iter();
    let mut next_switch = switches.next().copied();
    let mut swait = next_switch.map_or(0, |a| a.0);
    // Whether the vehicle has stopped close enough to the line of each branch
    let mut stopped: HashMap<(usize, usize), bool> = HashMap::new();
    let mut switched: HashMap<usize, bool> = HashMap::new(); // true: switched in time
    for _ in 0..900 {
        while let (0, Some((_, r, p))) = (wait, next_arrival) {
            pend[(r & 1) as usize].push(p);
            next_arrival = arrivals.next().copied();
            wait = next_arrival.map_or(0, |a| a.0);
        }
        wait = wait.saturating_sub(1);
        for r in 0..2 {
            if let Some(p) = pend[r].first().copied() {
                if w.room(3 * r, &p, 3.0) {
                    pend[r].remove(0);
                    let n = w.vehs.len();
                    w.add(&p, 3 * r, Some(if r == 0 { 2 } else if n % 2 == 0 { 5 } else { 7 }));
                }
            }
        }
        while let (0, Some((_, pick, turn))) = (swait, next_switch) {
            let snap = w.snap();
            let on: Vec<&VSnap> = snap.vehs.iter().filter(|s| s.link == 3).collect();
            if !on.is_empty() {
                let s = on[pick as usize % on.len()];
                let p = w.vehs[s.v].p;
                let room = w.len[3] - s.pos - 0.5 * p.length;
                let dest = if turn { 7 } else { 5 };
                if room > s.vel * s.vel / (2.0 * p.comf_dec) + 8.0 && w.vehs[s.v].dest != Some(dest) {
                    switched.insert(s.v, true);
                    w.set_dest(s.v, dest);
                }
            }
            next_switch = switches.next().copied();
            swait = next_switch.map_or(0, |a| a.0);
        }
        swait = swait.saturating_sub(1);
        let prev = w.snap();
        w.step(c.cross.dt);
        let next = w.snap();
        for s in &next.vehs {
            let Some(a) = prev.get(s.v) else { continue };
            let half = 0.5 * w.vehs[s.v].p.length;
            if s.link == 3 {
                let d = w.len[3] - s.pos - half;
                for (branch, ctl) in [(4, c.cross.ctl[1]), (6, c.turn)] {
                    if let Ctl::Yield { distance, .. } = ctl {
                        if d < distance + 0.5 && s.vel < 0.1 {
                            stopped.insert((s.v, branch), true);
                        }
                    }
                }
            }
            if a.link == 3 && (s.link == 4 || s.link == 6) {
                let want = if w.vehs[s.v].dest == Some(7) { 6 } else { 4 };
                if s.link != want {
                    return Err(format!("at {:.2} s vehicle {} took the wrong branch", w.time, s.v));
                }
                let ctl = if s.link == 4 { c.cross.ctl[1] } else { c.turn };
                if let Ctl::Yield { must_stop: true, .. } = ctl {
                    if !stopped.contains_key(&(s.v, s.link)) {
                        return Err(format!(
                            "at {:.2} s vehicle {} passed the stop sign of link {} at {:.2} m/s without having stopped",
                            w.time, s.v, s.link, s.vel
                        ));
                    }
                    if switched.contains_key(&s.v) {
                        o.nontrivial();
                    }
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Major {
    /// Distance from the previous one
    gap: f64,
    up: bool,
    approach: f64,
    inner: f64,
    limit: f64,
    /// Priority above that of the minor road, or open
    above: Option<i8>,
    /// There is a branch turning off before the minor road
    branch: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wide {
    majors: Vec<Major>,
    /// In which order the crossings are declared
    order: Vec<u8>,
    approach: f64,
    limit: f64,
    distance: f64,
    must_stop: bool,
    minor: VehP,
    dt: f64,
    /// (steps to wait, road, whether to turn off if possible, vehicle)
    arrivals: Vec<(u8, u8, bool, VehP)>,
}

fn wide() -> BoxedStrategy<Wide> {
    let major = (f(7.0, 14.0), any::<bool>(), f(40.0, 150.0), f(24.0, 40.0), f(6.0, 20.0), prop::option::of(1i8..4), any::<bool>())
        .prop_map(|(gap, up, approach, inner, limit, above, branch)| Major { gap, up, approach, inner, limit, above, branch });
    (
        prop::collection::vec(major, 1..7),
        prop::collection::vec(any::<u8>(), 7),
        (f(20.0, 50.0), f(6.0, 20.0), f(4.0, 25.0), any::<bool>()),
        veh(),
        dt(),
        prop::collection::vec((0u8..40, 0u8..7, any::<bool>(), veh()), 1..25),
    )
        .prop_map(|(majors, order, (approach, limit, distance, must_stop), minor, dt, arrivals)| Wide {
            majors,
            order,
            approach,
            limit,
            // Vehicles start outside the distance of the sign
            distance: distance.min(approach - 10.0),
            must_stop,
            minor,
            dt,
            arrivals,
        })
        .boxed()
}

/// Links: 0 to 2 the minor road, then three for each major road.
fn check_wide(c: &Wide, o: &mut Obs) -> Result<(), String> {
    const ZONE: f64 = 1.8;
    let k = c.majors.len();
    let mut net = NetSpec::default();
    let mut road = |ps: [P; 4], limit: f64| {
        for p in ps.windows(2) {
            net.links.push(LinkSpec { curve: CurveSpec::Line(p[0], p[1]), limit });
        }
        let n = net.links.len();
        net.conns.push((n - 3, n - 2));
        net.conns.push((n - 2, n - 1));
    };
    let mut xs = vec![];
    let mut x = 12.0;
    for m in &c.majors {
        xs.push(x);
        x += m.gap;
    }
    let last = xs[k - 1] + 10.0;
    road([[-c.approach, 0.0], [0.0, 0.0], [last, 0.0], [last + 60.0, 0.0]], c.limit);
    for (m, x) in c.majors.iter().zip(&xs) {
        let s = if m.up { 1.0 } else { -1.0 };
        let h = 0.5 * m.inner;
        road([[*x, -s * (h + m.approach)], [*x, -s * h], [*x, s * h], [*x, s * (h + 60.0)]], m.limit);
    }
    // Where those who turn off go
    let mut off = vec![None; k];
    for (j, m) in c.majors.iter().enumerate().filter(|(_, m)| m.branch) {
        let s = if m.up { 1.0 } else { -1.0 };
        let p = [xs[j], -s * 0.5 * m.inner];
        let q = [xs[j], p[1] + 3.0 * s];
        let e = [xs[j] + 12.0, q[1]];
        let n = net.links.len();
        net.links.push(LinkSpec { curve: CurveSpec::Quad([p, q, e]), limit: m.limit });
        net.links.push(LinkSpec { curve: CurveSpec::Line(e, add(e, [60.0, 0.0])), limit: m.limit });
        net.conns.push((3 * j + 3, n));
        net.conns.push((n, n + 1));
        off[j] = Some(n + 1);
    }
    let mut order: Vec<usize> = (0..k).collect();
    order.sort_by_key(|i| c.order[*i]);
    for j in order {
        net.convs.push(if c.order[j] % 2 == 0 { (1, 3 * j + 4) } else { (3 * j + 4, 1) });
    }
    net.controls.push((1, Ctl::Yield { distance: c.distance, must_stop: c.must_stop, priority: 0 }));
    for (j, m) in c.majors.iter().enumerate() {
        if let Some(priority) = m.above {
            net.controls.push((3 * j + 4, Ctl::Yield { distance: 30.0, must_stop: false, priority }));
        }
    }
    let mut w = World::build(&net);
    let mut pend: Vec<Vec<(bool, VehP)>> = vec![vec![]; k];
    let mut born: Vec<f64> = vec![];
    // The vehicle on the minor road, since when it has been close to the line, and when it stood last
    let mut me: Option<usize> = None;
    let mut ready: Option<f64> = None;
    let mut stood = 0.0;
    let mut crossed = false;
    let mut alone = 0.0;
    let mut i = 0;
    let mut wait = c.arrivals[0].0;
    for _ in 0..900 {
        while i < c.arrivals.len() && wait == 0 {
            pend[c.arrivals[i].1 as usize % k].push((c.arrivals[i].2, c.arrivals[i].3));
            i += 1;
            wait = c.arrivals.get(i).map_or(0, |a| a.0);
        }
        wait = wait.saturating_sub(1);
        for j in 0..k {
            if let Some((turn, p)) = pend[j].first().copied() {
                if w.room(3 * j + 3, &p, 3.0) {
                    pend[j].remove(0);
                    // Straight on, or off the road before the junction
                    let dest = if turn { off[j].unwrap_or(3 * j + 3) } else { 3 * j + 5 };
                    w.add(&p, 3 * j + 3, Some(dest));
                    born.push(w.time);
                }
            }
        }
        if me.is_none() {
            me = Some(w.add(&c.minor, 0, Some(2)));
            born.push(w.time);
            (ready, crossed, alone) = (None, false, 0.0);
        }
        w.step(c.dt);
        let next = w.snap();
        let Some(b) = next.get(me.unwrap()).copied() else {
            me = None;
            continue;
        };
        let front = b.pos + 0.5 * c.minor.length + [-w.len[0], 0.0, w.len[1]][b.link];
        if b.vel < 0.1 {
            stood = w.time;
        }
        if front < 0.0 {
            if front > -c.distance - 0.5 && (b.vel < 0.1 || !c.must_stop) {
                ready.get_or_insert(w.time);
            }
            // Nobody else is there at all
            alone = if next.vehs.len() == 1 && front > -4.0 && b.vel < 0.1 { alone + c.dt } else { 0.0 };
            o.max("waited though it was alone (s)", alone);
            if alone > 1.5 {
                return Err(format!("at {:.2} s vehicle {} waits at its line though it is alone", w.time, b.v));
            }
            continue;
        }
        if crossed {
            continue;
        }
        crossed = true;
        let Some(ready) = ready else {
            return Err(format!("at {:.2} s vehicle {} crossed its line without having arrived at it", w.time, b.v));
        };
        let mut busy = [false; 8];
        for a in &next.vehs {
            if a.link < 3 || a.link >= 3 * k + 3 || born[a.v] > ready.max(stood) - 0.5 {
                continue;
            }
            let j = a.link / 3 - 1;
            if w.vehs[a.v].dest != Some(3 * j + 5) {
                continue;
            }
            let (m, p) = (&c.majors[j], &w.vehs[a.v].p);
            let rel = a.pos + [-0.5 * m.inner - m.approach, -0.5 * m.inner, 0.5 * m.inner][a.link % 3];
            if rel - 0.5 * p.length > ZONE + 0.3 {
                continue;
            }
            let arrive = reach(a.vel, -ZONE - rel, p.max_acc, m.limit);
            let at = front - 0.5 * c.minor.length;
            let leave = reach(b.vel, xs[j] + ZONE - at, c.minor.max_acc, c.limit);
            busy[j] = true;
            o.max("overlap in time (s)", leave - arrive);
            if leave > arrive {
                return Err(format!(
                    "at {:.2} s vehicle {} drove in front of vehicle {} on road {j} which has right of way: it needs {leave:.2} s to clear that road, the other may be there in {arrive:.2} s",
                    w.time, b.v, a.v
                ));
            }
        }
        if busy.iter().any(|b| *b) {
            o.nontrivial();
        }
        if busy.iter().filter(|b| **b).count() >= 2 {
            o.label("gave way on two roads at a time");
        }
    }
    Ok(())
}
