//! Histories of traffic on a two-road junction (crossing or merge): the shared driver.

use crate::gens::*;
use crate::geom::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CrossCase {
    pub merge: bool,
    /// Crossing angle in radians.
    pub angle: f64,
    pub approach: [f64; 2],
    pub inner: [f64; 2],
    pub exit: f64,
    pub limit: [f64; 2],
    pub ctl: [Ctl; 2],
    pub light: Option<LightSpec>,
    pub dt: f64,
    /// (steps to wait, road, vehicle)
    pub arrivals: Vec<(u8, u8, VehP)>,
    pub tail: u16,
    /// A link of its own before each approach
    #[serde(default)]
    pub feed: [Option<Feed>; 2],
    /// How many more junctions like this one there are
    #[serde(default)]
    pub more: u8,
    /// Changes of control: (step, road, control)
    #[serde(default)]
    pub changes: Vec<(u16, u8, Ctl)>,
}

/// The road before the approach to a junction.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Feed {
    pub len: f64,
    pub limit: f64,
    /// Another road joins there, before or after this one in the order of declaration
    /// (without traffic).
    pub side: Option<bool>,
    /// Further roads that join there, before all others (without traffic)
    #[serde(default)]
    pub more: u8,
}

/// Links: road r has approach 3r, inner 3r+1, exit 3r+2 (merge: both use exit 2).
impl CrossCase {
    pub fn net(&self) -> NetSpec {
        let mut net = NetSpec::default();
        let mut roads = vec![];
        for r in 0..2 {
            let th = if r == 0 { 0.0 } else { self.angle };
            let d = [th.cos(), th.sin()];
            if !self.merge {
                let i = self.inner[r];
                let p0 = mul(d, -0.5 * i - self.approach[r]);
                let p1 = mul(d, -0.5 * i);
                let p2 = mul(d, 0.5 * i);
                let p3 = mul(d, 0.5 * i + self.exit);
                roads.push(vec![
                    CurveSpec::Line(p0, p1),
                    CurveSpec::Line(p1, p2),
                    CurveSpec::Line(p2, p3),
                ]);
            } else {
                // Both roads end at the origin heading along +x.
                let i = self.inner[r];
                let p1;
                let inner;
                if r == 0 {
                    p1 = [-i, 0.0];
                    inner = CurveSpec::Line(p1, [0.0, 0.0]);
                } else {
                    let h = 0.5 * i;
                    let m = [-h, 0.0];
                    p1 = sub(m, mul(d, h));
                    inner = CurveSpec::Quad([p1, m, [0.0, 0.0]]);
                }
                let p0 = sub(p1, mul(d, self.approach[r]));
                roads.push(vec![
                    CurveSpec::Line(p0, p1),
                    inner,
                    CurveSpec::Line([0.0, 0.0], [self.exit, 0.0]),
                ]);
            }
        }
        for r in 0..2 {
            for (k, c) in roads[r].iter().enumerate() {
                net.links.push(LinkSpec {
                    curve: c.clone(),
                    limit: if self.merge && k == 2 {
                        self.limit[0]
                    } else {
                        self.limit[r]
                    },
                });
            }
        }
        net.conns = if self.merge {
            vec![(0, 1), (1, 2), (3, 4), (4, 2)]
        } else {
            vec![(0, 1), (1, 2), (3, 4), (4, 5)]
        };
        net.convs = vec![(1, 4)];
        match &self.light {
            Some(l) => net.lights = vec![l.clone()],
            None => net.controls = vec![(1, self.ctl[0]), (4, self.ctl[1])],
        }
        // The other junctions, far away, share the light
        let one = net.clone();
        for k in 1..=self.more as usize {
            let by = [0.0, 2000.0 * k as f64];
            let moved = |l: &LinkSpec| match &l.curve {
                CurveSpec::Line(a, b) => LinkSpec {
                    curve: CurveSpec::Line(add(*a, by), add(*b, by)),
                    limit: l.limit,
                },
                _ => l.clone(),
            };
            net.links.extend(one.links.iter().map(moved));
            net.conns.extend(one.conns.iter().map(|(a, b)| (a + 6 * k, b + 6 * k)));
            net.convs.push((1 + 6 * k, 4 + 6 * k));
        }
        for r in 0..2 {
            if let Some(feed) = &self.feed[r] {
                let th: f64 = if r == 0 { 0.0 } else { self.angle };
                let CurveSpec::Line(p, _) = one.links[3 * r].curve else { unreachable!() };
                let from = |th: f64| sub(p, mul([th.cos(), th.sin()], feed.len));
                let mut ways = vec![th];
                match feed.side {
                    Some(true) => ways.insert(0, th + 0.5),
                    Some(false) => ways.push(th - 0.5),
                    None => {}
                }
                for k in 0..feed.more {
                    ways.insert(0, th + 0.2 * (k as f64 + 1.0));
                }
                for th in ways {
                    net.conns.push((net.links.len(), 3 * r));
                    net.links.push(LinkSpec {
                        curve: CurveSpec::Line(from(th), p),
                        limit: feed.limit,
                    });
                }
            }
        }
        net
    }

    /// The link on which vehicles of each road start
    fn starts(&self) -> Vec<usize> {
        let roads = 2 * (1 + self.more as usize);
        let mut starts: Vec<usize> = (0..roads).map(|r| 3 * r).collect();
        let mut n = 3 * roads;
        for r in 0..2 {
            if let Some(feed) = &self.feed[r] {
                starts[r] = n + (feed.side == Some(true)) as usize + feed.more as usize;
                n += 1 + feed.side.is_some() as usize + feed.more as usize;
            }
        }
        starts
    }

    /// The highest speed limit on the way to the junction
    pub fn top(&self, r: usize) -> f64 {
        self.feed[r].map_or(self.limit[r], |f| f.limit.max(self.limit[r]))
    }
}

/// Vehicles on the road before an approach count as being on the approach, before its start.
fn on_approach(w: &World, starts: &[usize], mut snap: Snap) -> Snap {
    for s in &mut snap.vehs {
        if s.link >= 3 * starts.len() {
            let r = starts.iter().position(|l| *l == s.link).unwrap();
            s.pos -= w.len[s.link];
            s.link = 3 * r;
        }
    }
    snap
}

pub fn drive(
    c: &CrossCase,
    mut monitor: impl FnMut(&World, &Snap, &Snap, f64) -> Result<(), String>,
) -> Result<(), String> {
    drive_world(c, &mut monitor).map(|_| ())
}

pub fn drive_world(
    c: &CrossCase,
    monitor: &mut dyn FnMut(&World, &Snap, &Snap, f64) -> Result<(), String>,
) -> Result<World, String> {
    let mut w = World::build(&c.net());
    let starts = c.starts();
    let roads = starts.len();
    let mut prev = on_approach(&w, &starts, w.snap());
    let mut pend: Vec<Vec<VehP>> = vec![vec![]; roads];
    let n = c.arrivals.len();
    let mut step = 0;
    for i in 0..=n {
        let steps = if i == n { c.tail } else { c.arrivals[i].0 as u16 };
        for _ in 0..steps {
            for r in 0..roads {
                if let Some(p) = pend[r].first().copied() {
                    if w.room(starts[r], &p, 3.0) {
                        pend[r].remove(0);
                        w.add(&p, starts[r], Some(if c.merge { 2 } else { 3 * r + 2 }));
                        prev = on_approach(&w, &starts, w.snap());
                    }
                }
            }
            for (_, r, ctl) in c.changes.iter().filter(|x| x.0 == step) {
                w.control(3 * *r as usize + 1, *ctl);
            }
            step += 1;
            w.step(c.dt);
            let next = on_approach(&w, &starts, w.snap());
            monitor(&w, &prev, &next, c.dt)?;
            prev = next;
        }
        if i < n && (c.arrivals[i].1 as usize) < roads {
            pend[c.arrivals[i].1 as usize].push(c.arrivals[i].2);
        }
    }
    Ok(w)
}

/// Drives on until everyone has left, or until `end`; returns how many have not.
pub fn finish(
    c: &CrossCase,
    w: &mut World,
    end: f64,
    monitor: &mut dyn FnMut(&World, &Snap, &Snap, f64) -> Result<(), String>,
) -> Result<usize, String> {
    let starts = c.starts();
    let mut prev = on_approach(w, &starts, w.snap());
    while !prev.vehs.is_empty() && w.time < end {
        w.step(c.dt);
        let next = on_approach(w, &starts, w.snap());
        monitor(w, &prev, &next, c.dt)?;
        prev = next;
    }
    Ok(prev.vehs.len())
}

pub fn feed() -> BoxedStrategy<Option<Feed>> {
    prop_oneof![
        2 => Just(None),
        3 => (f(40.0, 200.0), f(6.0, 25.0), prop::option::of(any::<bool>()), prop_oneof![3 => Just(0u8), 1 => 1u8..4])
            .prop_map(|(len, limit, side, more)| Some(Feed { len, limit, side, more })),
    ]
    .boxed()
}

pub fn ctl() -> BoxedStrategy<Ctl> {
    (f(4.0, 30.0), any::<bool>(), -2i8..3)
        .prop_map(|(distance, must_stop, priority)| Ctl::Yield {
            distance,
            must_stop,
            priority,
        })
        .boxed()
}

pub fn case(merge: bool) -> BoxedStrategy<CrossCase> {
    (
        f(0.9, 2.2),
        (f(40.0, 150.0), f(40.0, 150.0)),
        (f(14.0, 40.0), f(14.0, 40.0)),
        (f(6.0, 20.0), f(6.0, 20.0)),
        ctl(),
        dt(),
        prop::collection::vec((0u8..60, 0u8..2, veh()), 1..16),
    )
        .prop_map(move |(angle, ap, inn, lim, y, dt, arrivals)| CrossCase {
            merge,
            angle: if merge { 0.4 + angle * 0.4 } else { angle },
            approach: [ap.0, ap.1],
            inner: if merge { let i = inn.0.max(20.0); [i, i] } else { [inn.0, inn.1] },
            exit: 60.0,
            limit: [lim.0, lim.1],
            ctl: [Ctl::Open, y],
            light: None,
            dt,
            arrivals,
            tail: 600,
            feed: [None, None],
            more: 0,
            changes: vec![],
        })
        .boxed()
}
