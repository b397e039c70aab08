//! C20: the network reports what it was built from.

use super::Prop;
use crate::gens::*;
use crate::geom::*;
use crate::runner::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use traffic_sim::{LinkId, TrafficLight};

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        title: "Connections, lane changes and routes are those of the network built",
        assumptions: &[
            "up to 48 links, each in at most one group of up to 16 lanes; no connection is made twice",
        ],
        parts: || {
            vec![
                Box::new(Part {
                    name: "network",
                    rule: "a random network, its parts declared in random order, and what it says about connections, lane changes, reachable lanes and routes; non-trivial if some route takes two or more links",
                    quick: 600_000,
                    thorough: 4_000_000,
                    strategy: network,
                    check: check_network,
                }),
                Box::new(Part {
                    name: "large",
                    rule: "as above, with more links, wider groups and more steps; non-trivial as above",
                    quick: 15_000,
                    thorough: 200_000,
                    strategy: large,
                    check: check_network,
                }),
            ]
        },
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Network {
    links: Vec<(f64, f64)>,
    /// Sizes of groups of successive links (1: no group) and their masks
    groups: Vec<(u8, u32)>,
    conns: Vec<(u8, u8)>,
    lights: u8,
    steps: u16,
    groups_first: bool,
    /// Whether links in a group are declared in descending order
    reverse: bool,
}

fn network() -> BoxedStrategy<Network> {
    (
        prop::collection::vec((f(16.0, 60.0), f(3.0, 30.0)), 1..=16),
        prop::collection::vec((prop_oneof![2 => Just(1u8), 1 => 2u8..=6], any::<u32>()), 16),
        prop_oneof![
            prop::collection::vec((0u8..16, 0u8..16), 0..24),
            // Without loops
            prop::collection::vec((0u8..15, 1u8..8).prop_map(|(a, d)| (a, a + d)), 0..24),
        ],
        0u8..3,
        0u16..4,
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(links, groups, conns, lights, steps, groups_first, reverse)| Network {
            links,
            groups,
            conns,
            lights,
            steps,
            groups_first,
            reverse,
        })
        .boxed()
}

fn large() -> BoxedStrategy<Network> {
    (
        network(),
        prop::collection::vec((f(16.0, 60.0), f(3.0, 30.0)), 17..=48),
        prop::collection::vec((prop_oneof![Just(1u8), 2u8..=16], any::<u32>(), any::<u32>()), 48),
        prop_oneof![
            prop::collection::vec((0u8..48, 0u8..48), 0..80),
            prop::collection::vec((0u8..47, 1u8..20).prop_map(|(a, d)| (a, a + d)), 0..80),
        ],
        (0u8..12, 0u16..600),
    )
        .prop_map(|(mut c, links, groups, conns, (lights, steps))| {
            c.links = links;
            // Most changes are allowed, so that one gets far
            c.groups = groups.into_iter().map(|(n, a, b)| (n, a | b)).collect();
            c.conns = conns;
            c.lights = lights;
            c.steps = steps;
            c
        })
        .boxed()
}

fn check_network(c: &Network, o: &mut Obs) -> Result<(), String> {
    let n = c.links.len();
    let mut net = NetSpec::default();
    for (i, (len, limit)) in c.links.iter().enumerate() {
        let y = -3.5 * i as f64;
        net.links.push(LinkSpec {
            curve: CurveSpec::Line([0.0, y], [*len, y]),
            limit: *limit,
        });
    }
    // The lanes of each group, in order, and the mask
    let mut groups: Vec<(Vec<usize>, u32)> = vec![];
    let mut k = 0;
    for (size, mask) in &c.groups {
        let mut g: Vec<usize> = (k..(k + *size as usize).min(n)).collect();
        k += *size as usize;
        if g.len() >= 2 {
            if c.reverse {
                g.reverse();
            }
            groups.push((g, *mask));
        }
    }
    let mut conns: BTreeSet<(usize, usize)> = BTreeSet::new();
    let mut order = vec![];
    for (a, b) in &c.conns {
        let (a, b) = (*a as usize, *b as usize);
        if a < n && b < n && conns.insert((a, b)) {
            order.push((a, b));
        }
    }
    let mut w = World::build(&net);
    let add_groups = |w: &mut World| {
        for (g, mask) in &groups {
            let ids: Vec<LinkId> = g.iter().map(|i| w.ids[*i]).collect();
            w.sim.add_link_group(&ids, *mask);
        }
    };
    if c.groups_first {
        add_groups(&mut w);
    }
    for (a, b) in &order {
        w.sim.add_link_connection(w.ids[*a], w.ids[*b]);
    }
    if !c.groups_first {
        add_groups(&mut w);
    }
    let mut lights = vec![];
    for _ in 0..c.lights {
        lights.push(w.sim.add_traffic_light(TrafficLight::new()));
    }
    if w.sim.frame() != 0 {
        return Err(format!("frame {} before the first step", w.sim.frame()));
    }
    for _ in 0..c.steps {
        w.sim.step(0.1);
    }
    if w.sim.frame() != c.steps as usize {
        return Err(format!("frame {} after {} steps", w.sim.frame(), c.steps));
    }

    let set = |ids: &[LinkId]| -> Vec<usize> {
        let mut v: Vec<usize> = ids.iter().map(|i| w.index[i]).collect();
        v.sort();
        v
    };
    // (lane, neighbour) the mask allows to change to
    let mut change = vec![vec![]; n];
    for (g, mask) in &groups {
        for (k, l) in g.iter().enumerate() {
            if k > 0 && (mask >> (2 * k)) & 1 == 1 {
                change[*l].push(g[k - 1]);
            }
            if k + 1 < g.len() && (mask >> (2 * k + 1)) & 1 == 1 {
                change[*l].push(g[k + 1]);
            }
        }
    }
    let reach = |from: usize, next: &dyn Fn(usize) -> Vec<usize>| -> BTreeSet<usize> {
        let mut seen = BTreeSet::from([from]);
        let mut todo = vec![from];
        while let Some(a) = todo.pop() {
            for b in next(a) {
                if seen.insert(b) {
                    todo.push(b);
                }
            }
        }
        seen
    };
    let mut listed = vec![];
    for link in w.sim.iter_links() {
        listed.push(link.id());
    }
    if set(&listed) != (0..n).collect::<Vec<_>>() {
        return Err(format!("{} links listed instead of {n}", listed.len()));
    }
    let mut all: Vec<_> = w.sim.iter_lights().map(|(id, _)| id).collect();
    all.sort();
    lights.sort();
    if all != lights {
        return Err("the traffic lights listed are not those added".into());
    }
    for i in 0..n {
        let link = w.sim.get_link(w.ids[i]);
        if link.id() != w.ids[i] || link.speed_limit() != c.links[i].1 {
            return Err(format!("link {i} reports another id or limit than its own"));
        }
        let outs: Vec<usize> = conns.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
        let ins: Vec<usize> = conns.iter().filter(|x| x.1 == i).map(|x| x.0).collect();
        if set(link.links_out()) != outs {
            return Err(format!("link {i} leads to {:?} instead of {outs:?}", set(link.links_out())));
        }
        if set(link.links_in()) != ins {
            return Err(format!("link {i} is entered from {:?} instead of {ins:?}", set(link.links_in())));
        }
        let mut want = change[i].clone();
        want.sort();
        if set(link.lane_changes()) != want {
            return Err(format!("lane changes from link {i} to {:?} instead of {want:?}", set(link.lane_changes())));
        }
        let want: Vec<usize> = reach(i, &|a| change[a].clone()).into_iter().collect();
        if want.len() > 2 {
            o.label("three lanes within reach");
        }
        if set(link.reachable_lanes()) != want {
            return Err(format!("lanes {:?} within reach of {i} instead of {want:?}", set(link.reachable_lanes())));
        }
        let want: Vec<usize> = reach(i, &|a| (0..n).filter(|b| change[*b].contains(&a)).collect())
            .into_iter()
            .collect();
        if set(link.reachable_from_lanes()) != want {
            return Err(format!("link {i} within reach of {:?} instead of {want:?}", set(link.reachable_from_lanes())));
        }
    }
    // Routes, from links nothing leads to, to links that lead nowhere
    let next = |a: usize| -> Vec<usize> {
        let mut v = change[a].clone();
        v.extend(conns.iter().filter(|x| x.0 == a).map(|x| x.1));
        v
    };
    let mut want = vec![];
    for a in 0..n {
        if conns.iter().any(|x| x.1 == a) {
            continue;
        }
        for b in reach(a, &next) {
            if !conns.iter().any(|x| x.0 == b) {
                want.push((a, b));
                if a != b {
                    o.nontrivial();
                }
            }
        }
    }
    let mut got: Vec<(usize, usize)> = w
        .sim
        .all_routes()
        .map(|(a, b)| (w.index[&a], w.index[&b]))
        .collect();
    got.sort();
    o.max("routes", want.len() as f64);
    if got != want {
        return Err(format!("routes {got:?} instead of {want:?}"));
    }
    Ok(())
}
