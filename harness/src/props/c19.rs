//! C19: what has nothing to do with each other has no effect on each other.

use super::Prop;
use crate::gens::*;
use crate::runner::*;
use crate::scenario::*;
use crate::world::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        title: "Unrelated networks, cancelled operations and declaration order have no effect",
        assumptions: &["only destinations with a single cheapest way are used where the order of declaration is changed"],
        parts: || {
            vec![
                Box::new(Part {
                    name: "together",
                    rule: "two networks with their own histories in one simulation, possibly at the same place in the plane but not connected, compared with each one alone; non-trivial if both had vehicles at the same time",
                    quick: 40_000,
                    thorough: 400_000,
                    strategy: together,
                    check: check_together,
                }),
                Box::new(Part {
                    name: "copies",
                    rule: "a network with its history several times in one simulation, compared with a single one; non-trivial if there were four vehicles or more at the same time",
                    quick: 5_000,
                    thorough: 100_000,
                    strategy: copies,
                    check: check_copies,
                }),
                Box::new(Part {
                    name: "cancelled",
                    rule: "a history with and without operations that cancel out at once; non-trivial if some were made while a vehicle was on the road",
                    quick: 60_000,
                    thorough: 600_000,
                    strategy: cancelled,
                    check: check_cancelled,
                }),
                Box::new(Part {
                    name: "order",
                    rule: "a history on two simulations whose links, connections and conflicts were declared in different orders; non-trivial if two vehicles were on the road",
                    quick: 60_000,
                    thorough: 600_000,
                    strategy: order,
                    check: check_order,
                }),
            ]
        },
    }
}

const STAY: Motion = Motion {
    mirror: false,
    angle: 0.0,
    shift: [0.0, 0.0],
};

const TOL: f64 = 1e-6;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Together {
    a: Scenario,
    b: Scenario,
    dt: f64,
    /// The links of the two networks are declared in turn
    mix: bool,
}

fn together() -> BoxedStrategy<Together> {
    (scenario(), scenario(), dt(), any::<bool>())
        .prop_map(|(a, b, dt, mix)| Together { a, b, dt, mix })
        .boxed()
}

/// Where the links of two networks come in a common list.
fn places(na: usize, nb: usize, mix: bool) -> (Vec<usize>, Vec<usize>) {
    if !mix {
        return ((0..na).collect(), (na..na + nb).collect());
    }
    let (mut a, mut b) = (vec![], vec![]);
    let mut k = 0;
    for i in 0..na.max(nb) {
        if i < nb {
            b.push(k);
            k += 1;
        }
        if i < na {
            a.push(k);
            k += 1;
        }
    }
    (a, b)
}

/// The network with its links renumbered.
fn renumbered(net: &NetSpec, at: &[usize]) -> NetSpec {
    let m = |l: &usize| at[*l];
    let mut out = net.clone();
    for (i, l) in net.links.iter().enumerate() {
        if at[i] < out.links.len() {
            out.links[at[i]] = l.clone();
        }
    }
    out.conns = net.conns.iter().map(|(a, b)| (m(a), m(b))).collect();
    out.groups = net.groups.iter().map(|(g, k)| (g.iter().map(m).collect(), *k)).collect();
    out.convs = net.convs.iter().map(|(a, b)| (m(a), m(b))).collect();
    out.controls = net.controls.iter().map(|(a, c)| (m(a), *c)).collect();
    for l in &mut out.lights {
        for mv in &mut l.moves {
            mv.links = mv.links.iter().map(m).collect();
        }
    }
    out
}

fn check_together(c: &Together, o: &mut Obs) -> Result<(), String> {
    let (na, nb) = (c.a.place.net(), c.b.place.net());
    let (pa, pb) = places(na.links.len(), nb.links.len(), c.mix);
    let (ra, rb) = (renumbered(&na, &pa), renumbered(&nb, &pb));
    let mut all = NetSpec::default();
    let mut links: Vec<Option<LinkSpec>> = vec![None; na.links.len() + nb.links.len()];
    for (n, p) in [(&na, &pa), (&nb, &pb)] {
        for (i, l) in n.links.iter().enumerate() {
            links[p[i]] = Some(l.clone());
        }
    }
    all.links = links.into_iter().map(|l| l.unwrap()).collect();
    for r in [rb, ra] {
        all.conns.extend(r.conns);
        all.groups.extend(r.groups);
        all.convs.extend(r.convs);
        all.controls.extend(r.controls);
        all.lights.extend(r.lights);
    }
    let lights = [
        (nb.lights.len()..all.lights.len()).collect::<Vec<_>>(),
        (0..nb.lights.len()).collect::<Vec<_>>(),
    ];
    let tail = 120;
    let alone = [(&na, &c.a), (&nb, &c.b)]
        .map(|(n, s)| record(n, n, &s.ops, c.dt, tail, &|l| l, &|_, _| true, &mut |_, _| ()));
    let mut w = World::build(&all);
    let mut players = [Player::new(&na, &c.a.ops), Player::new(&nb, &c.b.ops)];
    let mut vehs = [vec![], vec![]];
    let steps = alone[0].len().max(alone[1].len());
    let mut seen = [vec![], vec![]];
    for _ in 0..steps {
        for k in [1, 0] {
            let p = if k == 0 { &pa } else { &pb };
            players[k].act(&mut w, &|l| p[l], &mut vehs[k]);
        }
        w.step(c.dt);
        for k in 0..2 {
            seen[k].push(frame(&w, &vehs[k], &lights[k]));
        }
        if vehs.iter().all(|v| !v.is_empty()) {
            o.nontrivial();
        }
    }
    for k in 0..2 {
        let n = alone[k].len();
        let p = if k == 0 { &pa } else { &pb };
        if let Some((i, what)) = differ(&alone[k], &seen[k][..n], &STAY, &|l| p[l], TOL) {
            let (net, sc) = if k == 0 { (&na, &c.a) } else { (&nb, &c.b) };
            if tied(net, &sc.ops, &alone[k][..=i.min(n - 1)], &seen[k]) {
                o.label("arrived at the same time");
                continue;
            }
            return Err(format!(
                "with another network in the simulation, network {k} differs in step {i}: {what}"
            ));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Copies {
    sc: Scenario,
    dt: f64,
    count: u8,
}

fn copies() -> BoxedStrategy<Copies> {
    (scenario(), dt(), 2u8..20)
        .prop_map(|(sc, dt, count)| Copies { sc, dt, count })
        .boxed()
}

fn check_copies(c: &Copies, o: &mut Obs) -> Result<(), String> {
    let net = c.sc.place.net();
    let (n, m, count) = (net.links.len(), net.lights.len(), c.count as usize);
    let mut all = NetSpec::default();
    for k in 0..count {
        let r = renumbered(&net, &(n * k..n * (k + 1)).collect::<Vec<_>>());
        all.links.extend(net.links.iter().cloned());
        all.conns.extend(r.conns);
        all.groups.extend(r.groups);
        all.convs.extend(r.convs);
        all.controls.extend(r.controls);
        all.lights.extend(r.lights);
    }
    let one = record(&net, &net, &c.sc.ops, c.dt, 120, &|l| l, &|_, _| true, &mut |_, _| ());
    let mut w = World::build(&all);
    let mut players: Vec<Player> = (0..count).map(|_| Player::new(&net, &c.sc.ops)).collect();
    let mut vehs = vec![vec![]; count];
    let mut seen = vec![vec![]; count];
    for _ in 0..one.len() {
        for (k, player) in players.iter_mut().enumerate() {
            player.act(&mut w, &|l| n * k + l, &mut vehs[k]);
        }
        w.step(c.dt);
        let listed = w.sim.iter_vehicles().count();
        o.max("vehicles at a time", listed as f64);
        if listed > 3 {
            o.nontrivial();
        }
        for k in 0..count {
            seen[k].push(frame(&w, &vehs[k], &(m * k..m * (k + 1)).collect::<Vec<_>>()));
        }
    }
    for (k, seen) in seen.iter().enumerate() {
        if let Some((i, what)) = differ(&one, seen, &STAY, &|l| n * k + l, TOL) {
            if tied(&net, &c.sc.ops, &one[..=i.min(one.len() - 1)], seen) {
                o.label("arrived at the same time");
                continue;
            }
            return Err(format!("copy {k} of {count} differs from a single one in step {i}: {what}"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Nothing {
    /// Adds a vehicle, sends it somewhere, freezes it, and removes it.
    Ghost(VehP, u8, u8, bool),
    /// Freezes and releases a vehicle, or releases one that is not frozen.
    Freeze(u8),
    /// Releases a vehicle that has not been frozen.
    Release(u8),
    /// Sets another control on a link and then the one it had.
    Control(u8, Ctl),
    /// Freezes a frozen vehicle, or asks whether it is.
    Refreeze(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cancelled {
    sc: Scenario,
    dt: f64,
    nothing: Vec<(u8, Nothing)>,
}

fn cancelled() -> BoxedStrategy<Cancelled> {
    let nothing = prop_oneof![
        4 => (veh(), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(p, a, b, f)| Nothing::Ghost(p, a, b, f)),
        1 => any::<u8>().prop_map(Nothing::Freeze),
        1 => any::<u8>().prop_map(Nothing::Release),
        1 => (any::<u8>(), crate::cross::ctl()).prop_map(|(l, c)| Nothing::Control(l, c)),
        1 => any::<u8>().prop_map(Nothing::Refreeze),
    ];
    (scenario(), dt(), prop::collection::vec((any::<u8>(), nothing), 1..12))
        .prop_map(|(mut sc, dt, nothing)| {
            // (the controls stay those of the network)
            for (_, op) in &mut sc.ops {
                if let Op::Control(..) = op {
                    *op = Op::Remove(0);
                }
            }
            Cancelled { sc, dt, nothing }
        })
        .boxed()
}

fn check_cancelled(c: &Cancelled, o: &mut Obs) -> Result<(), String> {
    let net = c.sc.place.net();
    let known = Known::new(&net);
    let n = net.links.len();
    if n == 0 {
        return Ok(());
    }
    let go = |before: &mut dyn FnMut(&mut World, u32)| {
        record(&net, &net, &c.sc.ops, c.dt, 120, &|l| l, &|_, _| true, before)
    };
    let a = go(&mut |_, _| ());
    let mut busy = false;
    let b = go(&mut |w, step| {
        for (at, what) in &c.nothing {
            if *at as u32 != step {
                continue;
            }
            let snap = w.snap();
            busy |= !snap.vehs.is_empty();
            let pick = |k: u8| snap.vehs.get(k as usize % snap.vehs.len().max(1)).map(|s| s.v);
            match what {
                Nothing::Ghost(p, a, b, freeze) => {
                    let src = *a as usize % n;
                    let cands: Vec<usize> = (0..n).filter(|d| known.reach[src][*d]).collect();
                    let id = w.sim.add_vehicle(&p.attrs(), w.ids[src]);
                    w.sim.set_vehicle_destination(id, w.ids[cands[*b as usize % cands.len()]]);
                    w.sim.set_vehicle_frozen(id, *freeze);
                    w.sim.remove_vehicle(id);
                }
                Nothing::Freeze(k) => {
                    if let Some(v) = pick(*k) {
                        if !w.sim.get_vehicle_frozen(w.vehs[v].id) {
                            w.freeze(v, true);
                            w.freeze(v, false);
                        }
                    }
                }
                Nothing::Release(k) => {
                    if let Some(v) = pick(*k) {
                        if !w.sim.get_vehicle_frozen(w.vehs[v].id) {
                            w.freeze(v, false);
                        }
                    }
                }
                Nothing::Refreeze(k) => {
                    if let Some(v) = pick(*k) {
                        if w.sim.get_vehicle_frozen(w.vehs[v].id) {
                            w.freeze(v, true);
                        }
                    }
                }
                Nothing::Control(l, other) => {
                    let l = *l as usize % n;
                    if !known.lit[l] {
                        let own = net.controls.iter().find(|(x, _)| *x == l).map_or(Ctl::Open, |x| x.1);
                        w.control(l, *other);
                        w.control(l, own);
                    }
                }
            }
        }
    });
    if busy {
        o.nontrivial();
    }
    match differ(&a, &b, &STAY, &|l| l, TOL) {
        Some((i, _)) if tied(&net, &c.sc.ops, &a[..=i.min(a.len() - 1)], &b) => {
            o.label("arrived at the same time");
            Ok(())
        }
        Some((i, what)) => Err(format!("operations that cancel out change step {i}: {what}")),
        None => Ok(()),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Order {
    sc: Scenario,
    dt: f64,
    keys: Vec<u16>,
}

fn order() -> BoxedStrategy<Order> {
    (scenario(), dt(), prop::collection::vec(any::<u16>(), 32))
        .prop_map(|(sc, dt, keys)| Order { sc, dt, keys })
        .boxed()
}

/// The number of cheapest ways from each link to each link.
fn ways(cost: &[usize], succ: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let n = cost.len();
    (0..n)
        .map(|src| {
            let d = crate::net::ref_costs(cost, succ, src);
            let mut by: Vec<usize> = (0..n).filter(|i| d[*i].is_some()).collect();
            by.sort_by_key(|i| d[*i]);
            let mut k = vec![0; n];
            k[src] = 1;
            for x in by {
                for y in &succ[x] {
                    if *y != src && d[*y] == Some(d[x].unwrap() + cost[x]) {
                        k[*y] += k[x];
                    }
                }
            }
            k
        })
        .collect()
}

fn check_order(c: &Order, o: &mut Obs) -> Result<(), String> {
    let net = c.sc.place.net();
    let n = net.links.len();
    if n == 0 {
        return Ok(());
    }
    let mut by: Vec<usize> = (0..n).collect();
    by.sort_by_key(|i| (c.keys[*i % c.keys.len()], *i));
    let mut at = vec![0; n];
    for (k, i) in by.iter().enumerate() {
        at[*i] = k;
    }
    let mut other = renumbered(&net, &at);
    let shuffle = |i: usize| c.keys[(i * 7 + 3) % c.keys.len()];
    let mut conns: Vec<_> = other.conns.drain(..).enumerate().collect();
    conns.sort_by_key(|(i, _)| (shuffle(*i), *i));
    other.conns = conns.into_iter().map(|x| x.1).collect();
    let mut convs: Vec<_> = other.convs.drain(..).enumerate().collect();
    convs.sort_by_key(|(i, _)| (shuffle(*i), *i));
    other.convs = convs
        .into_iter()
        .map(|(i, (a, b))| if shuffle(i) & 1 == 0 { (a, b) } else { (b, a) })
        .collect();
    other.controls.reverse();
    let w = World::build(&net);
    let cost: Vec<usize> = w.ids.iter().map(|l| w.sim.get_link(*l).cost().max(1)).collect();
    let ways = ways(&cost, &w.outs);
    // (each lane leads on to one lane at most)
    let lanes = matches!(c.sc.place, Place::Lanes(_));
    let allow = |a: usize, b: usize| lanes || ways[a][b] == 1;
    let a = record(&net, &net, &c.sc.ops, c.dt, 120, &|l| l, &allow, &mut |_, _| ());
    let b = record(&net, &other, &c.sc.ops, c.dt, 120, &|l| at[l], &allow, &mut |_, _| ());
    if a.iter().any(|f| f.vehs.len() >= 2) {
        o.nontrivial();
    }
    match differ(&a, &b, &STAY, &|l| at[l], TOL) {
        Some((i, what)) => Err(format!("declared in another order, it differs in step {i}: {what}")),
        None => Ok(()),
    }
}
