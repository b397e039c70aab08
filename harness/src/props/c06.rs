//! C06: closed links.

use super::Prop;
use crate::chain::{self, *};
use crate::gens;
use crate::runner::*;
use proptest::prelude::*;
use std::collections::HashSet;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        title: "Vehicles able to stop comfortably never enter a closed link",
        assumptions: &[
            "links of at least 1 m (the first and last of a road at least 15 m), vehicles up to 14 m",
            "a vehicle may be committed to a link once it could no longer stop comfortably 5 m before it",
        ],
        parts: || {
            vec![Box::new(Part {
                name: "road",
                rule: "traffic on a chain of links that are closed and opened at any time; non-trivial if a vehicle had to stop for a closed link",
                quick: 150_000,
                thorough: 4_000_000,
                strategy: road,
                check,
            })]
        },
    }
}

fn road() -> BoxedStrategy<ChainCase> {
    chain::case(
        gens::short_chain(5, (15.0, 150.0), (5.0, 30.0)),
        Weights {
            arrive: 6,
            freeze: 1,
            remove: 0,
            close: 5,
            dt: 1,
            randomise: 1,
        },
        20,
        300,
    )
}

fn check(c: &ChainCase, o: &mut Obs) -> Result<(), String> {
    // Vehicle/link pairs where the vehicle may have committed itself to entering the link
    let mut may: HashSet<(usize, usize)> = HashSet::new();
    let mut closed_since: Vec<Option<f64>> = vec![None; c.chain.segs.len()];
    let mut open_since: Vec<f64> = vec![0.0; c.chain.segs.len()];
    // When the vehicle last had something else than the line to stop for
    let mut idle: std::collections::HashMap<usize, f64> = Default::default();
    drive(c, |x| {
        let n = x.w.len.len();
        let start = x.w.time - x.dt;
        for l in 1..n {
            match (x.closed[l], closed_since[l]) {
                (true, None) => closed_since[l] = Some(start),
                (false, Some(_)) => {
                    closed_since[l] = None;
                    open_since[l] = start;
                }
                _ => {}
            }
        }
        for a in &x.prev.vehs {
            let p = &x.w.vehs[a.v].p;
            let front = x.s(a) + 0.5 * p.length;
            for l in a.link + 1..n {
                let d = x.base[l] - front;
                let stop = a.vel * a.vel / (2.0 * p.comf_dec) + 7.5;
                if !x.closed[l] && d < stop + 1e-6 {
                    may.insert((a.v, l));
                }
            }
        }
        let order = x.order();
        for b in &x.next.vehs {
            let p = &x.w.vehs[b.v].p;
            let front = x.s(b) + 0.5 * p.length;
            for l in b.link.max(1)..n {
                if !x.closed[l] || may.contains(&(b.v, l)) {
                    continue;
                }
                // Vehicles put on the link itself, or over its start, have passed the line already
                let put = x.prev.get(b.v).map_or(true, |a| a.link >= l);
                let d = x.base[l] - front;
                if !put && d < 1.0 {
                    return Err(format!(
                        "at {:.2} s vehicle {} is {d:.3} m before the start of closed link {l}, at {:.2} m/s",
                        x.w.time, b.v, b.vel
                    ));
                }
                if !put && d < 30.0 {
                    o.max("closest to the line (negated)", -d);
                    if b.vel < 0.1 {
                        o.nontrivial();
                    }
                }
            }

            // The first vehicle in the queue stops close to the line, and goes when it opens.
            let first = order.iter().position(|v| *v == b.v).unwrap();
            let clear = first == 0
                || x.s(x.next.get(order[first - 1]).unwrap()) - x.s(b) > 60.0;
            if !clear || x.frozen.contains(&b.v) || !c.with_dest {
                idle.insert(b.v, x.w.time);
                continue;
            }
            let waiting = *idle.entry(b.v).or_insert(x.w.time);
            let line = (b.link + 1..n)
                .find(|l| x.closed[*l])
                .filter(|l| !may.contains(&(b.v, *l)));
            if let Some(l) = line {
                let d = x.base[l] - front;
                let opened = (1..l).map(|k| open_since[k]).fold(waiting, f64::max);
                let t = x.w.time - opened.max(closed_since[l].unwrap());
                if t > 120.0 && d > 6.0 {
                    return Err(format!(
                        "vehicle {} waits {d:.1} m before the line of closed link {l}",
                        b.v
                    ));
                }
            }
            // Nothing closed nearby: it must be moving
            let shut = (b.link + 1..n)
                .filter(|l| x.closed[*l])
                .map(|l| x.base[l] - front)
                .fold(f64::INFINITY, f64::min);
            let recently = (b.link + 1..n)
                .map(|l| open_since[l])
                .fold(waiting, f64::max);
            if shut > 40.0 && x.w.time - recently > 3.0 {
                o.label("drives on when opened");
                if b.vel < 0.3 {
                    return Err(format!(
                        "vehicle {} does not move though nothing is closed or in the way",
                        b.v
                    ));
                }
            }
        }
        Ok(())
    })?;
    Ok(())
}
