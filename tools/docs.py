#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))


ONE_TEST = ("The repository's integration tests drive one or two vehicles on one straight link, the unit tests "
            "sample a handful of fixed numbers; ")

prop("C01", "Vehicles move forward, continuously and within their physical limits",
     "In every step a vehicle's speed never becomes negative, rises by at most its maximum acceleration times the time "
     "step and falls by at most 6 m/s^2 times the time step. The distance it covers along its route is the mean of its old and new "
     "speed times the time step, also where it passes from one link to the next, and its world position never jumps. "
     "Every reported number is finite, whatever the vehicle attributes, time step and interactions.",
     ["inputs", "histories", "configurations"],
     "All vehicle attributes in a realistic range, all time steps up to 1 s (also changing ones), all road shapes, and all histories of arrivals, closures, freezes and yielding.",
     ONE_TEST + "they never look at consecutive states of a vehicle that interacts with others or crosses link boundaries.",
     ["src/vehicle.rs", "src/vehicle/acceleration.rs", "src/simulation.rs"],
     [("trapezoidal integration of velocity and position", "src/vehicle.rs integrate"),
      ("braking is capped", "src/vehicle/acceleration.rs acc"),
      ("carrying the position over to the next link", "src/vehicle.rs advance")],
     ["position, speed and link of every vehicle after every step"],
     "stateful property-based testing, invariant over consecutive snapshots",
     "Random search of histories; all steps of every history are checked. Assumes links of at least 1 m.")

prop("C02", "Vehicles in a lane never run into each other or overtake in place",
     "Vehicles that follow each other along a road, across any number of links, keep at least 1.5 m between "
     "the rear of the one ahead and the front of the one behind, provided each was put on the road with room to stop. This holds when the vehicle ahead brakes "
     "as hard as it can, is frozen, waits for a closed link or drives slower than the one behind. Their order never changes.",
     ["inputs", "histories", "configurations"],
     "All mixes of vehicle sizes, headways and accelerations, all link lengths and speed limits, all histories of arrivals, removals, freezes and closures.",
     ONE_TEST + "no test has a vehicle follow another across a link boundary or brake for a queue.",
     ["src/link.rs", "src/vehicle/acceleration.rs", "src/vehicle.rs"],
     [("car following on the link and looking back over preceding links", "src/link.rs apply_accelerations, process_vehicles"),
      ("intelligent driver model", "src/vehicle/acceleration.rs idm"),
      ("vehicles of a link kept in order", "src/link.rs insert_vehicle")],
     ["position, length and link of every vehicle after every step"],
     "stateful property-based testing, gap invariant over histories",
     "Random search of histories on chains of up to 8 links; smallest gap seen on the unchanged tree 1.8 m.")

prop("C03", "Vehicles keep to the speed limit, and do drive at it when they can",
     "A vehicle never accelerates beyond the speed limit of the link it is on (times its own speed factor, which lies between 0.75 and 1.25), slows down in time for "
     "a lower limit ahead, and never brakes harder than twice its comfortable deceleration for a limit. With nothing in its way it "
     "speeds up and settles at that speed, and never slows down well below it. Speed factors drawn at random apply to every vehicle on the road from then on, with the spread asked for.",
     ["inputs", "histories", "configurations"],
     "All vehicle attributes, sequences of links with any limits and lengths, time steps, and traffic histories.",
     ONE_TEST + "one test checks the speed of a single vehicle on a single link.",
     ["src/vehicle/acceleration.rs", "src/link.rs", "src/simulation.rs"],
     [("free acceleration law", "src/vehicle/acceleration.rs apply_current_speed_limit"),
      ("braking for the limit of the next link", "src/vehicle/acceleration.rs apply_speed_limit; src/link.rs apply_accelerations"),
      ("speed factors", "src/simulation.rs randomise_velocity_adjusts")],
     ["speed, position and link of every vehicle after every step"],
     "property-based testing, invariants over histories and statistics of drawn speed factors",
     "Random search; every step of every history is checked.")

prop("C04", "Vehicles leave only when removed or past the end of their destination",
     "After every operation the simulation reports exactly the vehicles that were added and have neither been removed nor driven past the end of their "
     "destination link, each exactly once and at a valid place on the road. A vehicle without a destination never leaves. Changing destinations or lanes on the way loses or "
     "duplicates no vehicle.",
     ["inputs", "histories", "configurations"],
     "All histories of adding, removing, freezing and redirecting vehicles, changing their lanes, closing links and stepping, on single- and multi-lane roads.",
     ONE_TEST + "no test has a vehicle leave, be removed, redirected or change lanes.",
     ["src/simulation.rs", "src/vehicle.rs", "src/vehicle/pathfinding.rs"],
     [("moving vehicles to their next link or out of the simulation", "src/simulation.rs advance_vehicles"),
      ("permission to exit", "src/vehicle.rs set_path; src/link.rs apply_stoplines"),
      ("removal", "src/simulation.rs remove_vehicle")],
     ["the set of vehicles reported after every operation and step"],
     "model-based stateful property-based testing (reference set of vehicles)",
     "Random search of histories against a reference model.")

prop("C05", "Vehicles reach their destination by connected links on the cheapest route",
     "A vehicle with a reachable destination gets there and leaves at its end, moving only along connections between links and through permitted lane changes. "
     "On single-lane networks the links it uses have the least total cost among all routes. On multi-lane roads it finds a sequence of lanes that leads to the destination "
     "whenever there is one.",
     ["inputs", "configurations"],
     "All network graphs with loops, dead ends and alternatives, all multi-lane roads with any lane change mask and lanes that end, all origin/destination pairs.",
     ONE_TEST + "routing is not tested at all.",
     ["src/vehicle/pathfinding.rs", "src/vehicle.rs", "src/group.rs", "src/simulation.rs"],
     [("shortest path search", "src/vehicle/pathfinding.rs reroute"),
      ("lane matrix and candidate paths", "src/vehicle/pathfinding.rs calc_lane_matrix, make_paths"),
      ("choice of a path or lane", "src/vehicle.rs choose_path, evaluate_path")],
     ["sequence of links of a vehicle until it leaves"],
     "property-based testing against a reference shortest-path search",
     "Random search of networks. Sections are long enough to make the necessary lane changes (40 m per lane).")

prop("C06", "Vehicles able to stop comfortably never enter a closed link",
     "While a link is closed, no vehicle crosses its start unless it could no longer stop comfortably 5 m before it at some moment while the link was open. "
     "The first vehicle in the queue waits within a few metres of the line, at least 1 m before it. When the link is opened, the vehicles drive on.",
     ["inputs", "histories", "configurations"],
     "All vehicle mixes, link lengths, speed limits and histories of closing and opening links.",
     ONE_TEST + "no test uses traffic controls.",
     ["src/link.rs", "src/vehicle.rs", "src/vehicle/acceleration.rs"],
     [("stop lines", "src/link.rs apply_stoplines"),
      ("commitment to a link", "src/vehicle.rs can_stop, integrate"),
      ("stopping distance", "src/vehicle/acceleration.rs stopping_distance")],
     ["position and speed of the vehicles relative to the closed line"],
     "stateful property-based testing, invariant over histories",
     "Random search of histories; the smallest distance to the line seen on the unchanged tree is 1.8 m.")

prop("C11", "Frozen vehicles stop at once and stay put until released",
     "A vehicle that is frozen brakes at 6 m/s^2 until it stands and does not move as long as it is frozen. It is reported as frozen exactly from the call that freezes it to the call that "
     "releases it, and drives on normally after that. Freezing one vehicle affects only the traffic behind it.",
     ["inputs", "histories"],
     "All histories of freezing and releasing any vehicles (repeatedly, in any order) among traffic.",
     ONE_TEST + "freezing is not tested.",
     ["src/simulation.rs", "src/vehicle/acceleration.rs"],
     [("set of frozen vehicles", "src/simulation.rs set_vehicle_frozen, apply_frozen_vehicles"),
      ("emergency stop", "src/vehicle/acceleration.rs emergency_stop")],
     ["speed, position and frozen flag of every vehicle"],
     "model-based stateful property-based testing",
     "Random search of histories against a reference set of frozen vehicles.")

prop("C07", "Traffic lights show a safe, complete and timely sequence of states",
     "After every step each movement shows green, amber for its amber time on losing green (or until called again), or red, and a movement never turns green while a conflicting one is green, amber, or in the all-red time after its amber. "
     "The phases come up in the order given and again from the start, each keeping its movements green for at least its duration, and the switch is made without delay. "
     "A movement that stays green from one phase to the next shows green throughout.",
     ["inputs", "histories", "configurations"],
     "All sets of up to 64 movements with any conflicts, amber and red times, all cycles of phases, and all sequences of time steps.",
     "There is no test of traffic lights.",
     ["src/light.rs"],
     [("state machine of the movements", "src/light.rs step"),
      ("conflicts and clearance times", "src/light.rs add_movement, add_phase")],
     ["reported state of every movement after every step"],
     "model-based property-based testing (reference state machine) and safety invariants",
     "Random search of programs; the reference works in continuous time, switches closer than one step to a step boundary are not compared.")

prop("C08", "Vehicles obey the traffic lights of the simulation, and get through",
     "A light that is part of the simulation shows the same states as the same light on its own, for the links of each of its movements. No vehicle passes a light that is amber or red unless it could "
     "no longer stop comfortably while the light was green, vehicles waiting at a light stay at least 1 m behind the line, move off when it turns green and the junction is clear, and all of them get through the junction in the end.",
     ["inputs", "histories", "configurations"],
     "All junction geometries, light programs, vehicle mixes and arrival patterns.",
     "There is no test of traffic lights or junctions.",
     ["src/simulation.rs", "src/light.rs", "src/link.rs"],
     [("lights set the control of the links", "src/simulation.rs update_lights"),
      ("stop lines", "src/link.rs apply_stoplines")],
     ["light states, and position and speed of the vehicles relative to the lines"],
     "stateful property-based testing, differential (light alone / in the simulation) and invariants over histories",
     "Random search of histories on crossings of two roads and copies of them.")

prop("C09", "Vehicles stop at stop signs and give way to whoever has right of way",
     "No vehicle passes a stop sign without having come to a stop within the sign's distance of the line, also after changing its mind about where to go. A vehicle that has to give way enters the junction only if it can clear the conflict area "
     "before any vehicle on an open road, of higher priority, of equal priority but there earlier, or already in the junction could get there. A vehicle that has right of way over all others goes at once when the junction is clear.",
     ["inputs", "histories", "configurations"],
     "All crossing geometries, wide roads of up to seven lanes or roads to give way to with turn-offs before them, combinations of stop, give-way, open and closed controls with any distances and priorities, vehicle mixes, arrival patterns and changes of destination.",
     "There is no test of traffic controls or junctions.",
     ["src/link.rs", "src/vehicle.rs", "src/conflict.rs"],
     [("queueing at and entering past a stop line", "src/link.rs apply_stoplines; src/vehicle.rs integrate"),
      ("gap acceptance and order of entry", "src/link.rs can_enter, check_gap"),
      ("place in the queue", "src/vehicle.rs set_path")],
     ["position and speed of the vehicles relative to their lines and the conflict area after every step"],
     "stateful property-based testing, gap and order oracle computed from snapshots",
     "Random search of histories. Arrivals within a second of each other are not ordered; the gap is judged only for vehicles nobody ahead slowed down.")

prop("C10", "Traffic through junctions never collides, and everyone gets through",
     "On roads that cross or merge, straight on or in turns, under open roads and stop or give-way signs in any combination, no two vehicles ever touch. "
     "All vehicles get through the junction in bounded time; there is no deadlock.",
     ["inputs", "histories", "configurations"],
     "All crossing and merging geometries (two roads, and the movements of intersections of up to four arms), controls, also changing ones, priorities, vehicle mixes and arrival patterns.",
     "There is no test of junctions.",
     ["src/conflict.rs", "src/link.rs", "src/math/util.rs"],
     [("conflict area of two links", "src/conflict.rs ConflictPointLink::new"),
      ("order of vehicles through the conflict area", "src/conflict.rs apply_accelerations"),
      ("gap acceptance", "src/link.rs can_enter, check_gap")],
     ["rectangles of all vehicles in the plane after every step, vehicles left at the end"],
     "stateful property-based testing, collision invariant and bounded liveness",
     "Random search of histories. Without any control, speed limits are at most 14 m/s (above that two vehicles may meet too late to avoid each other). Vehicles on movements of the same arm that part are not judged against each other.")

prop("C15", "The centre line of a link follows its curve, measured in metres",
     "The length of a link is the length of the curve it was made from, within 1 %, and its travel cost is that length divided by its speed limit in tenths of a second. A position along the link is the "
     "point of the curve at that distance from its start, with a unit tangent in the direction of the curve, and a lateral offset is measured at right angles to the left. "
     "A point beside the link is mapped back to the position, offset and slope it came from.",
     ["inputs", "configurations"],
     "All straight, circular, quadratic and cubic curves of 2 to 4000 m, whatever their parameter, with a radius of at least 12 m; all positions, offsets and slopes along them.",
     "One unit test samples one quadratic curve; offsets and the inverse mapping are not tested at all.",
     ["src/link/curve.rs", "src/math/curve/algorithms.rs", "src/link.rs"],
     [("piecewise quadratic approximation by equidistant points", "src/link/curve.rs with_step"),
      ("sampling with an offset, and its inverse", "src/link/curve.rs sample, inverse_sample")],
     ["length, cost and sampled points of links"],
     "property-based testing against a dense arc-length table, and round trips",
     "Random search. Positions are accepted within 1.25 % of the distance to the nearer end plus 8 cm.")

prop("C16", "Projecting, intersecting and dividing curves agrees with brute force",
     "Projecting a point near a curve finds the nearest point of the curve, for every kind of curve and whatever its parameter; points beyond an end are projected to that end or beyond. Two curves intersect exactly if they "
     "cross, and the intersection found lies on both of them. Dividing a curve yields points on it, in order, from its start to its end, with chords of the length "
     "asked for (within 1 %) or of at most that length; none of these computations runs on for ever.",
     ["inputs", "configurations"],
     "All straight, circular, quadratic and cubic curves and centre lines of links of up to 200 m, user-defined curves with any parameter included, with all points within 5 m, accuracies and first guesses; all step sizes from 0.1 to 12 m; loops of up to 5.5 rad (6.28 rad for the subdivision) where curves are only divided.",
     "One unit test divides straight horizontal lines of 100 lengths; projection, intersection and subdivision are not tested.",
     ["src/math/curve/algorithms.rs", "src/math/curve.rs"],
     [("projection by damped Newton steps", "src/math/curve/algorithms.rs project_point_onto_curve"),
      ("intersection by marching", "src/math/curve/algorithms.rs intersect_curves"),
      ("equal chords by regula falsi", "src/math/curve/algorithms.rs equidistant_points_along_curve"),
      ("bisection", "src/math/curve/algorithms.rs SubdividedSamples")],
     ["results of the public functions on curves"],
     "differential property-based testing against dense search, with a budget of curve samples for termination",
     "Random search. Curves that meet at less than 0.3 rad, near their ends or only just are left out.")

prop("C17", "Polynomials, Bezier curves, tables and intervals obey their definitions",
     "A cubic fitted to two points and slopes passes through them with these slopes and equals the Hermite form everywhere, also after being shifted. Lines, quadratic and cubic Bezier "
     "curves, their derivatives, conversions, pieces and reversals agree with repeated linear interpolation. Lookup tables return the value at the middle of the cell of the argument (the first or last one outside), "
     "and intervals, local coordinates, rotated and normalised vectors follow their definitions.",
     ["inputs"],
     "All control points, parameters (also somewhat outside the bounds), slopes, intervals, table ranges and steps of ordinary size.",
     "The unit tests look at fixed points of one quadratic curve, one table and 100 cubics at their end points only; derivatives of curves, subdivision, reversal, shifts, intervals and vector helpers are not tested.",
     ["src/math/cubic.rs", "src/math/curve/bezier.rs", "src/math/curve.rs", "src/math/lut.rs", "src/math/util.rs", "src/util.rs"],
     [("Hermite fit", "src/math/cubic.rs fit"), ("Bernstein polynomials", "src/math/curve/bezier.rs"),
      ("cells of the table", "src/math/lut.rs sample"), ("interval arithmetic", "src/util.rs Interval")],
     ["results of the public functions"],
     "differential property-based testing against definitions",
     "Random search; arguments within rounding distance of a cell or interval boundary are left out.")

prop("C20", "Connections, lane changes and routes are those of the network built",
     "A link reports exactly the links it was connected from and to, the neighbouring lanes the lane change mask of its group allows to change into, and the lanes reachable from it, and from which it is reachable, by such changes. "
     "The routes listed are exactly the pairs of a link nothing leads to and a link that leads nowhere between which there is a way along connections and lane changes, each once. "
     "The links and lights listed are those added, and the frame number counts the steps.",
     ["inputs", "configurations"],
     "All directed graphs of up to 48 links, with loops, groups of up to 16 lanes with any mask, declared in any order.",
     "No test connects two links or makes a lane group.",
     ["src/simulation.rs", "src/link.rs", "src/group.rs"],
     [("search for routes", "src/simulation.rs all_routes"),
      ("lane change mask", "src/group.rs lane_changes, reachable_lanes, reachable_from_lanes")],
     ["topology queries of links and the simulation"],
     "differential property-based testing against a reference graph search",
     "Random search of graphs.")

prop("C22", "The shortest time to reach a place is that of accelerating at full power",
     "The shortest time in which a vehicle can reach a position ahead on its link, given a highest speed, is the time it takes when it accelerates at its maximum acceleration to that speed and keeps it. If it already "
     "is faster, it is the time at its present speed; for positions it has passed it is zero. No vehicle ever reaches a place sooner than that.",
     ["inputs", "histories"],
     "All vehicles at all times of a drive along up to three links, distances from -30 to 300 m, and highest speeds of 1 to 50 m/s.",
     "No test asks for this time, on which giving way depends.",
     ["src/vehicle.rs", "src/vehicle/acceleration.rs"],
     [("constant acceleration, then constant speed", "src/vehicle/acceleration.rs min_reach_time")],
     ["the time reported, and when the vehicle gets there"],
     "differential property-based testing against the motion equations",
     "Random search of drives.")

prop("C12", "Lane changes are smooth, end on the new lane and respect the mask",
     "A vehicle told to change lanes belongs to the new lane at once without moving in the plane, leaves the old lane in the direction it heads for, and moves over to the centre of the new lane on a smooth cubic course of exactly the distance asked for, also "
     "across the end of the link; from then on it keeps to the centre line. A vehicle that finds its own way changes only to neighbouring lanes the lane change mask allows, is on the centre of the new lane within 30 m, and changes "
     "hardly more often than needed. It never jumps sideways.",
     ["inputs", "schedules", "configurations"],
     "All roads of up to 4 parallel lanes and 3 sections, straight or bent, all masks; all vehicles, time steps and sequences of up to 4 lane changes over 10 to 80 m, also during another change and close to the end of a section.",
     ONE_TEST + "no test has two lanes, so no vehicle ever changes between them.",
     ["src/vehicle.rs", "src/group.rs", "src/simulation.rs", "src/link/curve.rs"],
     [("course of a lane change", "src/vehicle.rs do_lane_change, offset_at"),
      ("planning lane changes", "src/vehicle.rs update_path"),
      ("projections between lanes", "src/group.rs")],
     ["world position, heading and link of the vehicle after every step"],
     "model-based property testing against the Hermite course, and a reference search for the fewest lane changes",
     "Random search. Lanes are parallel, 3.5 m apart and with radii of 60 m and more.")

prop("C13", "Traffic on neighbouring lanes passes freely and never collides",
     "Vehicles that keep to their lanes drive exactly as if the other lanes were empty, stopped traffic on them included. Vehicles that change lanes into sufficient gaps, one at a time, never touch another vehicle, neither on the lane "
     "they leave nor on the one they enter, also across the ends of links and when the vehicle ahead brakes as hard as it can.",
     ["inputs", "schedules", "configurations"],
     "All roads of 2 to 4 parallel lanes and up to 2 sections; all traffic of up to 60 arrivals, lane changes and freezes; all time steps up to 0.3 s.",
     ONE_TEST + "no test has two lanes, let alone traffic on both.",
     ["src/link.rs", "src/vehicle.rs", "src/group.rs"],
     [("vehicles on neighbouring lanes as obstacles", "src/link.rs follow_obstacles"),
      ("room to pass an obstacle", "src/vehicle.rs can_pass, rear_coords"),
      ("projections between lanes", "src/group.rs")],
     ["outlines of all vehicles after every step; positions and speeds compared with those on a single lane"],
     "property-based testing: pairwise distance of outlines, and metamorphic comparison with each lane alone",
     "Random search. Lane changes into gaps too short to brake for in comfort are left out: the code does not look for gaps.")

prop("C14", "A vehicle is drawn where it is on the road, and steers along it",
     "The world position of a vehicle that is not changing lanes is the point of the centre line of its link at its position along the link, and it heads in the direction in which its rear wheels, a wheel base behind, are dragged by it; it starts out along the road. "
     "Its front and rear are half its length from its position, and the line at its rear lies across the road there and spans its width and its swing. "
     "Width, length, destination and whether it has stopped are reported as they are.",
     ["inputs", "schedules", "configurations"],
     "All chains of up to 5 straight and bent links with radii of at least 12 m; all vehicles, time steps and interventions.",
     ONE_TEST + "no test looks at the heading, the rear line or the position on a bend.",
     ["src/vehicle.rs", "src/link/curve.rs"],
     [("world coordinates of a vehicle", "src/vehicle.rs update_coords, calc_direction, rear_coords"),
      ("sampling of the centre line", "src/link/curve.rs sample")],
     ["position, direction, rear line and dimensions of every vehicle after every step"],
     "model-based property testing against dense tables of the curves and a trailing-wheel model",
     "Random search on chains without kinks.")

prop("C18", "The simulation is deterministic and knows no left, right or north",
     "The same operations on two simulations built alike give exactly the same states after every step. On a network that is turned, shifted or mirrored in the plane (with lanes given from left to right and lane change masks mirrored as well) "
     "the same operations give the turned, shifted or mirrored motion, on all kinds of roads, lanes, crossings, merges and intersections.",
     ["inputs", "schedules", "configurations"],
     "All chains, grids with loops, multi-lane roads, crossings, merges, signalled junctions and four-arm intersections; all histories of up to 20 arrivals, new destinations, lane changes, removals, freezes and changes of control; all turns, shifts and reflections.",
     ONE_TEST + "no test runs anything twice, or turned or mirrored.",
     ["src/simulation.rs", "src/link.rs", "src/conflict.rs", "src/vehicle.rs", "src/group.rs", "src/link/curve.rs", "src/math/curve/algorithms.rs"],
     [("order of updates", "src/simulation.rs step"),
      ("geometry of conflicts and obstacles", "src/conflict.rs, src/vehicle.rs can_pass, follow_obstacle"),
      ("lanes of a group", "src/group.rs")],
     ["position, speed, link, world position, heading and rear line of every vehicle and the states of the lights after every step"],
     "metamorphic property-based testing (repetition, isometries of the plane)",
     "Random search. Mirrored roads have at most two lanes, as ties between left and right may go either way; histories that a turn by a millionth of a radian or a shift by a micrometre changes are not compared (less than 1 in 10000).")

prop("C19", "Unrelated networks, cancelled operations and declaration order have no effect",
     "Traffic on a network drives exactly as if other networks in the same simulation, not connected with it, did not exist, even at the same place. Operations that are taken back before the next step (a vehicle added and removed, "
     "frozen and released, a control changed and restored) leave no trace. The order in which links, connections and conflicts are declared makes no difference.",
     ["inputs", "schedules", "configurations"],
     "All pairs of networks and histories of up to 20 operations each, up to 19 copies of a network, all sets of up to 12 cancelled operations, all permutations of the declarations.",
     ONE_TEST + "no test compares two runs, or has more than one link.",
     ["src/simulation.rs", "src/link.rs", "src/conflict.rs", "src/vehicle.rs", "src/vehicle/pathfinding.rs"],
     [("global state: sequence numbers, frozen vehicles, active links", "src/simulation.rs"),
      ("order of links and conflicts", "src/simulation.rs apply_accelerations, src/link.rs can_enter"),
      ("insertion and removal of vehicles", "src/link.rs insert_vehicle, remove_vehicle")],
     ["position, speed, link, world position, heading and rear line of every vehicle and the states of the lights after every step"],
     "metamorphic property-based testing (composition, cancellation, permutation)",
     "Random search. With permuted declarations only destinations with a single cheapest way are used; who of two vehicles reaching their signs in the same step comes first may depend on the order in which vehicles are listed.")

prop("C21", "Vehicles accelerate and brake by the intelligent driver model",
     "The acceleration of a vehicle is the least of its maximum acceleration times 1 - (speed / limit)^4, that times 1 - (wanted gap / gap)^2 for the vehicle ahead and for the line it has to stop at, and the braking needed for a lower limit ahead if that is more than "
     "comfortable (at most twice), but never below -6 m/s^2. The wanted gap is 2 m + headway x speed + speed x closing speed / (2 x sqrt(maximum acceleration x comfortable deceleration)). "
     "It is decided anew whenever 0.1 s have passed, and kept in between.",
     ["inputs", "schedules", "configurations"],
     "All chains of up to 4 links with different limits and curves, with an open or closed end or without a destination; all vehicles, time steps and traffic with stops.",
     "The only test of the acceleration model looks at one method on six inputs; none drives a vehicle.",
     ["src/vehicle/acceleration.rs", "src/link.rs", "src/vehicle.rs", "src/simulation.rs"],
     [("car following model", "src/vehicle/acceleration.rs idm, apply_speed_limit"),
      ("who follows whom", "src/link.rs apply_accelerations, process_vehicles")],
     ["speed of every vehicle before and after every step"],
     "model-based property testing: one-step prediction from the observed state",
     "Random search on single-lane roads. What lies more than one link ahead may or may not be taken into account.")

#MORE

def write():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "cargo build --release --offline --manifest-path harness/Cargo.toml",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "All checks drive the public API of the crate from a proptest harness in harness/; no hooks in /repo. "
                 "`harness/target/release/harness replay <file>` runs a replay file again. known-findings.txt lists the repaired defects.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


write()
