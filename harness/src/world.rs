//! Building networks from specifications, driving them with operations, and taking snapshots.
//!
//! Only the public API of the crate is used.

use crate::geom::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use traffic_sim::{
    LightState, LinkAttributes, LinkId, Simulation, TrafficControl, TrafficLight, TrafficLightId,
    VehicleAttributes, VehicleId,
};

/// The hardest any vehicle ever brakes (m/s^2), as documented in the acceleration model.
pub const MAX_BRAKE: f64 = 6.0;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct VehP {
    pub width: f64,
    pub length: f64,
    pub wheel_base: f64,
    pub headway: f64,
    pub max_acc: f64,
    pub comf_dec: f64,
}

impl VehP {
    pub fn attrs(&self) -> VehicleAttributes {
        VehicleAttributes {
            width: self.width,
            length: self.length,
            wheel_base: self.wheel_base,
            headway: self.headway,
            max_acc: self.max_acc,
            comf_dec: self.comf_dec,
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ctl {
    Open,
    Yield {
        distance: f64,
        must_stop: bool,
        priority: i8,
    },
    Closed,
}

impl Ctl {
    pub fn lib(self) -> TrafficControl {
        match self {
            Ctl::Open => TrafficControl::Open,
            Ctl::Closed => TrafficControl::Closed,
            Ctl::Yield {
                distance,
                must_stop,
                priority,
            } => TrafficControl::Yield {
                distance,
                must_stop,
                priority,
            },
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MoveSpec {
    pub conflict: u64,
    pub amber: f64,
    pub red: f64,
    pub links: Vec<usize>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LightSpec {
    pub moves: Vec<MoveSpec>,
    pub phases: Vec<(u64, f64)>,
}

impl LightSpec {
    pub fn lib(&self, links: &[LinkId]) -> TrafficLight {
        let mut l = TrafficLight::new();
        for m in &self.moves {
            l.add_movement(m.conflict, m.amber, m.red, m.links.iter().map(|i| links[*i]));
        }
        for (mask, dur) in &self.phases {
            l.add_phase(*mask, *dur);
        }
        l
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LinkSpec {
    pub curve: CurveSpec,
    pub limit: f64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct NetSpec {
    pub links: Vec<LinkSpec>,
    pub conns: Vec<(usize, usize)>,
    /// Groups, links left-to-right, with the lane change mask.
    pub groups: Vec<(Vec<usize>, u32)>,
    /// Pairs declared as converging/crossing.
    pub convs: Vec<(usize, usize)>,
    pub lights: Vec<LightSpec>,
    pub controls: Vec<(usize, Ctl)>,
}

pub struct Rec {
    pub id: VehicleId,
    pub p: VehP,
    pub dest: Option<usize>,
    pub removed: bool,
}

pub struct World {
    pub sim: Simulation,
    pub ids: Vec<LinkId>,
    pub index: HashMap<LinkId, usize>,
    pub len: Vec<f64>,
    pub limit: Vec<f64>,
    pub outs: Vec<Vec<usize>>,
    pub vehs: Vec<Rec>,
    pub vindex: HashMap<VehicleId, usize>,
    pub light_ids: Vec<TrafficLightId>,
    pub time: f64,
}

/// The observable state of one vehicle.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct VSnap {
    pub v: usize,
    pub link: usize,
    pub pos: f64,
    pub vel: f64,
    pub xy: P,
    pub dir: P,
    pub rear: [P; 2],
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub vehs: Vec<VSnap>,
}

impl Snap {
    pub fn get(&self, v: usize) -> Option<&VSnap> {
        self.vehs.iter().find(|s| s.v == v)
    }
}

impl World {
    pub fn build(net: &NetSpec) -> World {
        Self::build_into(net, Simulation::new())
    }

    pub fn build_into(net: &NetSpec, mut sim: Simulation) -> World {
        let ids: Vec<LinkId> = net
            .links
            .iter()
            .map(|l| {
                sim.add_link(&LinkAttributes {
                    curve: &*l.curve.lib(),
                    speed_limit: l.limit,
                })
            })
            .collect();
        let mut outs = vec![vec![]; ids.len()];
        for (a, b) in &net.conns {
            sim.add_link_connection(ids[*a], ids[*b]);
            outs[*a].push(*b);
        }
        for (g, mask) in &net.groups {
            let g: Vec<LinkId> = g.iter().map(|i| ids[*i]).collect();
            sim.add_link_group(&g, *mask);
        }
        for (a, b) in &net.convs {
            sim.add_link_convergance(ids[*a], ids[*b]);
        }
        for (l, c) in &net.controls {
            sim.set_link_control(ids[*l], c.lib());
        }
        let light_ids = net
            .lights
            .iter()
            .map(|l| sim.add_traffic_light(l.lib(&ids)))
            .collect();
        let len = ids.iter().map(|i| sim.get_link(*i).length()).collect();
        World {
            index: ids.iter().enumerate().map(|(i, l)| (*l, i)).collect(),
            len,
            limit: net.links.iter().map(|l| l.limit).collect(),
            outs,
            ids,
            sim,
            vehs: vec![],
            vindex: HashMap::new(),
            light_ids,
            time: 0.0,
        }
    }

    pub fn add(&mut self, p: &VehP, link: usize, dest: Option<usize>) -> usize {
        let id = self.sim.add_vehicle(&p.attrs(), self.ids[link]);
        self.vehs.push(Rec {
            id,
            p: *p,
            dest: None,
            removed: false,
        });
        let v = self.vehs.len() - 1;
        self.vindex.insert(id, v);
        if let Some(d) = dest {
            self.set_dest(v, d);
        }
        v
    }

    pub fn set_dest(&mut self, v: usize, dest: usize) {
        self.sim
            .set_vehicle_destination(self.vehs[v].id, self.ids[dest]);
        self.vehs[v].dest = Some(dest);
    }

    pub fn remove(&mut self, v: usize) {
        self.sim.remove_vehicle(self.vehs[v].id);
        self.vehs[v].removed = true;
    }

    pub fn freeze(&mut self, v: usize, on: bool) {
        self.sim.set_vehicle_frozen(self.vehs[v].id, on);
    }

    pub fn control(&mut self, link: usize, c: Ctl) {
        self.sim.set_link_control(self.ids[link], c.lib());
    }

    pub fn lane_change(&mut self, v: usize, link: usize, dist: f64) {
        self.sim
            .do_lane_change(self.vehs[v].id, self.ids[link], dist);
    }

    pub fn step(&mut self, dt: f64) {
        self.sim.step(dt);
        self.time += dt;
    }

    /// A snapshot of all vehicles the simulation reports, in order of the harness's own numbering.
    pub fn snap(&self) -> Snap {
        let mut vehs: Vec<VSnap> = self
            .sim
            .iter_vehicles()
            .map(|veh| VSnap {
                v: *self.vindex.get(&veh.id()).expect("unknown vehicle reported"),
                link: *self
                    .index
                    .get(&veh.link_id().expect("vehicle without a link"))
                    .expect("unknown link"),
                pos: veh.pos_mid(),
                vel: veh.vel(),
                xy: fp(veh.position()),
                dir: fv(veh.direction()),
                rear: veh.rear_coords().map(fp),
            })
            .collect();
        vehs.sort_by_key(|s| s.v);
        Snap { vehs }
    }

    pub fn light_state(&self, light: usize) -> Vec<LightState> {
        let (_, l) = self
            .sim
            .iter_lights()
            .find(|(id, _)| *id == self.light_ids[light])
            .expect("light vanished");
        l.state().map(|(_, s)| s).collect()
    }

    /// Whether a vehicle of this size can be placed at the start of the link with `gap` metres to
    /// every other vehicle along the link and links touching its start.
    pub fn room(&self, link: usize, p: &VehP, gap: f64) -> bool {
        self.snap().vehs.iter().all(|s| {
            let half = 0.5 * self.vehs[s.v].p.length;
            if s.link == link {
                s.pos - half - 0.5 * p.length >= gap
            } else {
                // The rear of a vehicle that has just moved on may still hang over this link.
                !self.outs[link].contains(&s.link)
                    || self.len[link] + s.pos - half - 0.5 * p.length >= gap
            }
        })
    }
}

/// The rotated rectangle of a vehicle.
pub fn corners(xy: P, dir: P, len: f64, wid: f64) -> [P; 4] {
    let d = mul(dir, 0.5 * len);
    let n = mul(perp(dir), 0.5 * wid);
    [
        add(add(xy, d), n),
        sub(add(xy, d), n),
        sub(sub(xy, d), n),
        add(sub(xy, d), n),
    ]
}

/// Separation of two rectangles along the best separating axis (negative: penetration depth).
pub fn rect_gap(a: &[P; 4], b: &[P; 4]) -> f64 {
    let mut best = f64::NEG_INFINITY;
    for r in [a, b] {
        for i in 0..2 {
            let e = unit(sub(r[i + 1], r[i]));
            let ax = perp(e);
            let pa: Vec<f64> = a.iter().map(|p| dot(*p, ax)).collect();
            let pb: Vec<f64> = b.iter().map(|p| dot(*p, ax)).collect();
            let (amin, amax) = minmax(&pa);
            let (bmin, bmax) = minmax(&pb);
            best = best.max((bmin - amax).max(amin - bmax));
        }
    }
    best
}

fn minmax(x: &[f64]) -> (f64, f64) {
    x.iter()
        .fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), v| {
            (a.min(*v), b.max(*v))
        })
}
