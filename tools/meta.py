"""Source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
S = "src/upstage_des/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level_note=""):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors={
                "files": [S + f for f in files],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                **({"observe_at": list(observe)} if observe else {}),
                "hook_needed": None,
            },
            level_note=level_note,
        )
    )


prop(
    "C01",
    "A linear state is the exact integral of its rate, whoever looks and when",
    "While a linearly changing state is active its value at any simulation time is its last set value plus rate times the time since, and while inactive it is constant, no matter how often, when or by whom it is read, polled, recorded, set or interrupted. Only the task that activated it may stop it, a second activation is refused without effect, and its recorded history is a time-ordered trace of that same trajectory with every activation and deactivation in it.",
    ["histories", "schedules"],
    "all interleavings of activate/deactivate/read/set/add/record by several tasks and observers at arbitrary times and rates, and interrupts of the driving task at any time",
    "Tests read one or two fixed trajectories at fixed times; whether reads, sets and interrupts at other moments leave the trajectory unchanged is a statement over all histories.",
    ["states.py", "actor.py"],
    [("linear update on read", S + "states.py LinearChangingState"), ("activation locks", S + "actor.py activate_state/deactivate_state")],
    observe=["actor.<state>", "actor.state_values", "actor history"],
)
prop(
    "C02",
    "A shared linear state integrates the sum of the rates of its current users",
    "A linear state shared by several tasks changes at every moment with the sum of the rates of exactly the tasks that have it active, so its value is the integral of that sum. A task cannot activate it twice or stop a change it did not start, and such refused calls leave the value and the other tasks' rates untouched.",
    ["histories", "schedules"],
    "all interleavings of activations/deactivations by up to several tasks with reads, sets and interrupts at arbitrary times",
    "Tests cover one refuelling example; overlapping users joining and leaving in every order, and refused calls in between, are not enumerated.",
    ["state_sharing.py", "actor.py"],
    [("per-task rate table", S + "state_sharing.py"), ("shared locks", S + "actor.py _lock_state/_unlock_state")],
)
prop(
    "C03",
    "Cartesian motion follows the waypoint path at constant speed",
    "An actor moving in Cartesian space is, at every time, at the point of the polyline through its waypoints reached by travelling at its speed since activation, with its travel time and remaining waypoints consistent with that, independent of when its position is read. Stopping freezes it at that point, a later leg starts from there, and only travelling past the end of the path is an error.",
    ["inputs", "histories"],
    "all start points, waypoint lists, speeds, altitude/distance units, read times, early stops and re-routes",
    "Tests check a handful of positions on axis-aligned paths; position at every time on every path with every reading pattern cannot be listed.",
    ["states.py", "data_types.py", "utils.py", "math_utils.py"],
    [("path interpolation", S + "states.py CartesianLocationChangingState"), ("waypoint_time_and_dist", S + "utils.py")],
)
prop(
    "C04",
    "Geodetic motion follows the great-circle legs at constant speed",
    "An actor moving over the earth is, at every time, at the point of the current leg whose distance from the leg's start and to its end add up to the leg and match speed times time, with altitude interpolated along the leg. The position does not depend on earlier reads, and stopping, re-routing and remaining waypoints are consistent with it.",
    ["inputs", "histories"],
    "all waypoints (including long legs, antimeridian and high latitude), both earth models, speeds, units, read times and stops",
    "Tests follow a few short legs in one area of the globe.",
    ["states.py", "geography/spherical.py", "geography/wgs84.py"],
    [("path interpolation", S + "states.py GeodeticLocationChangingState"), ("direct/inverse geodesic", S + "geography")],
)
prop(
    "C05",
    "A mimicking state always shows the other actor's current value",
    "From activation until its own task deactivates it, a mimicking state reads exactly as the mimicked state of the other actor does at that time and, if recording, records every change of it; afterwards it keeps the last mimicked value and follows nothing. Ending one task stops only the mimicry that task started, and several mimics, chains and actors do not disturb each other or the mimicked actor.",
    ["histories", "schedules"],
    "all interleavings of set/read/activate/deactivate over several actors, states and tasks, including active mimicked states and interrupts",
    "Tests use one mimic pair at a time and one task.",
    ["actor.py", "states.py"],
    [("mimic table and callbacks", S + "actor.py activate_mimic_state/deactivate_mimic_state")],
)
prop(
    "C06",
    "State declarations are enforced on every actor and never shared between actors",
    "Creating an actor gives every declared state exactly its given value or its default (a fresh one from a factory), refuses missing, unknown, disallowed or wrongly typed values, and later assignments keep obeying the type and frozen rules, a refused assignment changing nothing. Subclasses inherit declarations and may not redeclare them, and no value, history, lock or default of one actor is visible on another.",
    ["inputs", "configurations", "histories"],
    "all combinations of declaration options, constructor arguments, inheritance and later assignments over several actors",
    "Tests try each option once in isolation.",
    ["states.py", "actor.py"],
    [("descriptor set/get", S + "states.py State"), ("actor construction", S + "actor.py __init_states")],
)
prop(
    "C07",
    "Recorded histories are a complete, immutable trace of the values set",
    "A recording state's history is the time-stamped sequence of the values assigned or explicitly recorded, with consecutive identical entries kept only if duplicates were asked for, and each entry keeps the value as it was at that time even if the object is mutated later. Recording functions produce the analogous history of their own results under their own name, per actor and per simulation run.",
    ["histories", "configurations"],
    "all sequences of assignments, in-place mutations, explicit recordings and time advances over several actors and runs, with every recording option",
    "Tests record a few values; aliasing, duplicates and cross-actor leakage depend on the history.",
    ["states.py", "actor.py"],
    [("recording", S + "states.py State._do_record"), ("record_state", S + "actor.py")],
)
prop(
    "C08",
    "Dictionary and dataclass states behave like the plain object and record every change",
    "A dictionary or dataclass state holds exactly the contents a plain dictionary or dataclass would hold after the same operations, refuses values of the wrong type without changing, and cannot be replaced. When recording, each key's history is the time-stamped sequence of the values set on that key, following the duplicate rule asked for.",
    ["histories", "configurations"],
    "all operation sequences on key/value states with valid and invalid values, recording options and several actors",
    "Tests perform a few updates; rejected updates and duplicate rules are not explored.",
    ["states.py", "state_proxies.py"],
    [("proxies", S + "state_proxies.py"), ("per-key recording", S + "states.py _KeyValueBase")],
)
prop(
    "C09",
    "Resource states build the declared resources once, per actor, as configured",
    "Every resource-holding state of every actor is its own resource of the requested or default kind with the defaults overridden by the given options, invalid kinds or options are refused, and it can never be replaced after creation. Multi-store states hold one such resource per key, and copying the actor copies contents without sharing them.",
    ["configurations", "inputs"],
    "all kinds, defaults, per-actor options and multi-store layouts, with later use and cloning",
    "Tests create a few fixed layouts.",
    ["states.py"],
    [("resource construction", S + "states.py ResourceState/MultiStoreState/CommunicationStore")],
)
prop(
    "C10",
    "Interrupting a task at any moment never loses or duplicates what it was waiting for",
    "When a task waiting on stores, containers, resources or combinations of them is interrupted at any time, its pending requests are withdrawn: no item or amount leaves a store without being delivered to a task, nothing is delivered twice, and other waiting tasks are served as plain SimPy serves them once the request is withdrawn. Ignoring an interrupt leaves the request and its outcome as if there had been no interrupt.",
    ["schedules", "fault_sequences", "histories"],
    "all schedules of several producing/consuming tasks with interrupts injected at arbitrary times, including the same instant as the awaited event",
    "Tests interrupt at a few fixed times, never at every moment relative to competing requests.",
    ["task.py", "events.py"],
    [("interrupt handling", S + "task.py Task._handle_interruption"), ("request cancel", S + "events.py BaseRequestEvent.cancel")],
)
prop(
    "C11",
    "Tasks run their events exactly as the equivalent plain SimPy program would",
    "A task built from waits, gets, puts, holds, events and any/all combinations of them resumes at the same times with the same values, and leaves stores, containers and resources in the same condition, as a plain SimPy process doing the same steps; completion queries on each event agree with what happened. Reusing an event across yields never repeats or loses its effect.",
    ["programs", "schedules"],
    "all programs of several concurrent tasks over shared stores, containers, resources and events, nested combinations included",
    "Tests contain a handful of hand-written event programs.",
    ["events.py", "task.py"],
    [("event adapters", S + "events.py"), ("task driver", S + "task.py Task.run")],
)
prop(
    "C12",
    "Interrupt handling follows the declared outcome and leaves the actor clean",
    "An interrupted task ends, carries on or restarts exactly as its handler or current marker says, and the handler sees the cause, marker and marker time in force at that instant. When it ends or restarts, every active and mimicking state it started is stopped at its current value, the event it waited for is dropped from the actor's knowledge, and states of other tasks keep going; when it carries on, its timing is unchanged.",
    ["schedules", "fault_sequences", "programs"],
    "all task programs with markers and active states, interrupted any number of times at arbitrary moments",
    "Tests interrupt one program at one chosen time.",
    ["task.py", "actor.py"],
    [("interrupt handling", S + "task.py Task.run/_handle_interruption"), ("state clean-up", S + "actor.py deactivate_all_states")],
)
prop(
    "C13",
    "A task network runs exactly the queued tasks, then the defaults",
    "A running network starts, one after another and without gaps, each queued task and otherwise the current task's default follow-on, with decision tasks able to change the queue before the next choice and terminal tasks never left. Parallel networks on one actor do not affect each other's queues or order, and a network with nothing defined to do next is reported as an error.",
    ["programs", "histories"],
    "all networks (links, durations, decisions, zero-time tasks), queues and interrupts, several networks per actor and factory-made networks",
    "Tests walk a few small networks along one route each.",
    ["task_network.py", "task.py", "actor.py"],
    [("network loop", S + "task_network.py TaskNetwork.loop"), ("queues", S + "actor.py *_task_queue")],
)
prop(
    "C14",
    "Rehearsing never changes the real actor, its resources, networks or the clock",
    "Rehearsing a task or a network path leaves the real actor's states, histories, knowledge, queues, networks and resources, other entities and the simulation clock and event queue as they were, so the subsequent real run is identical to one without the rehearsal. The returned understudy starts from a faithful copy of the actor plus the given knowledge.",
    ["programs", "histories"],
    "all actors (plain, active, key/value, resource states), tasks and networks, rehearsed at any point of a run",
    "Tests assert a few fields after one rehearsal; isolation is a statement about everything the rehearsal could touch.",
    ["task.py", "task_network.py", "actor.py", "base.py"],
    [("clone", S + "actor.py Actor.clone"), ("rehearse", S + "task.py Task.rehearse"), ("network rehearse", S + "task_network.py")],
)
prop(
    "C15",
    "A rehearsal predicts the deterministic outcome of really performing the tasks",
    "For tasks whose waits and resource delays take the time they declare, the understudy returned by a rehearsal shows the clock time, state values and knowledge the actor will have after really performing the same tasks from the same situation, and any/all combinations complete the same members. A rehearsal follows the queue and default links the real network would follow and refuses routes the network does not allow.",
    ["programs", "configurations"],
    "all deterministic task programs and network routes, with active states, knowledge, waits in mixed units and combined events",
    "Tests compare one plane example; agreement between two execution modes is a relation over all programs.",
    ["task.py", "task_network.py", "events.py", "routines.py"],
    [("rehearsal driver", S + "task.py Task.rehearse"), ("rehearsal times", S + "events.py rehearse")],
)
prop(
    "C16",
    "Knowledge behaves as a guarded dictionary and knowledge events wake their waiter once",
    "An actor's knowledge holds exactly what was last set and not cleared, through single, bulk and task-level calls alike; overwriting without permission, clearing or requiring what is absent is refused without changing the entry at fault. Succeeding a knowledge event removes it, delivers its payload and resumes the task holding on it exactly once.",
    ["histories", "schedules"],
    "all sequences of knowledge operations over several actors and tasks, with events created, awaited and succeeded at any time",
    "Tests call each method once.",
    ["actor.py", "task.py", "events.py"],
    [("knowledge store", S + "actor.py *_knowledge"), ("knowledge events", S + "actor.py create_knowledge_event")],
)
prop(
    "C17",
    "A state change interrupts exactly the networks watching that state",
    "Whenever a watched state of an actor is set, each network registered for that state and currently running is interrupted once with the state's name and new value, and no other network or actor is; networks added later, removed or not running are treated accordingly. Nothing else about the state's value or history depends on being watched.",
    ["histories", "configurations", "schedules"],
    "all registrations of networks to states over several actors, and all histories of state changes, additions and removals",
    "Tests use one nucleus with one or two networks.",
    ["nucleus.py", "states.py"],
    [("nucleus", S + "nucleus.py"), ("broadcast", S + "states.py _broadcast_change")],
)
prop(
    "C18",
    "Routines run inline, return their value, and undo themselves when interrupted",
    "Yielding a routine runs its events inside the task as if written inline and hands back exactly the value it returns, at any nesting position. A windowed get collects precisely the items that become available within its (optionally restarting) window after the first one, and an interrupt returns everything it had taken to the store.",
    ["programs", "schedules", "fault_sequences"],
    "all arrival schedules, windows, reset options, unit choices, competing getters and interrupt times; all routine programs mixing events with and without values",
    "Tests use a few arrival patterns; the window boundary and the interrupt moment are quantified over.",
    ["routines.py", "task.py"],
    [("windowed get", S + "routines.py WindowedGet"), ("routine stack", S + "task.py Task.run")],
)
prop(
    "C19",
    "A sorted/filtered store always hands out the best matching item",
    "A get with a filter and an ordering returns, as soon as some stored item passes the filter, the first such item under that ordering (reversed if asked), removes exactly that one, and never blocks requests that could be served; items of every value, including zero, empty and equal ones, are treated alike. Capacity and queue order of puts are those of an ordinary store.",
    ["histories", "inputs"],
    "all sequences of puts and gets with arbitrary filters, sort keys, reverse flags, duplicate, falsy and unhashable items and capacities",
    "Tests put three or four truthy items.",
    ["resources/sorted.py", "resources/monitoring.py"],
    [("sorted get", S + "resources/sorted.py")],
)
prop(
    "C20",
    "A reserve container never promises or holds more than it has",
    "At every time the amount available is the amount held minus live reservations, both stay within zero and capacity, and a reservation lives until it is taken, cancelled or its own time limit passes, whatever earlier or later reservations exist. Taking yields exactly the reserved amount once, and refused calls change nothing.",
    ["histories", "schedules"],
    "all sequences of reserve, take, cancel, put with several requesters, repeated reservations and expirations at arbitrary times",
    "Tests make one reservation with one expiry.",
    ["resources/reserve.py"],
    [("reservations", S + "resources/reserve.py ReserveContainer")],
)
prop(
    "C21",
    "A continuous container's level is the integral of its net flow within its bounds",
    "At any time the level equals the initial level plus the integral of the rates of the requests then active, it never leaves zero to capacity, and each put or get runs for its stated time unless it is stopped early. Reaching empty or full happens at the exact time and triggers the declared error or stops exactly the requests that can no longer flow.",
    ["histories", "schedules"],
    "all overlapping schedules of puts and gets with arbitrary rates and times, levels, capacities, cancellations, error options and callbacks",
    "Tests run two or three overlapping flows with round numbers.",
    ["resources/container.py"],
    [("rate bookkeeping", S + "resources/container.py ContinuousContainer")],
)
prop(
    "C22",
    "Self-monitoring resources behave like the plain ones and record every change",
    "A self-monitoring store, filter store, sorted store, container, continuous container or reserve container gives the same results at the same times as its plain counterpart under any workload. Its record is a time-ordered trace that holds the right quantity at every instant from creation on, as of the last put or get.",
    ["programs", "schedules"],
    "all workloads of puts, gets, reservations, cancellations, interrupts and item mutations, with the available monitoring options",
    "Tests record a few changes of each kind.",
    ["resources/monitoring.py", "resources/container.py"],
    [("recording mix-ins", S + "resources/monitoring.py")],
)
prop(
    "C23",
    "Point-to-point messages arrive once, intact, at the time the link conditions imply",
    "Each sent message is delivered exactly once to the right mailbox of the right recipient, after the transfer delay and any waiting and retrying the degraded or blocked link imposes under the configured retry rule, or not at all when that rule says to give up. Blocking one link does not disturb others, and message content is passed unchanged.",
    ["histories", "fault_sequences", "schedules"],
    "all schedules of sends, degradations, blockages and their removal over several actors, delays and retry settings",
    "Tests exercise one link with one blockage.",
    ["communications/comms.py", "communications/processes.py"],
    [("transfer attempts", S + "communications/comms.py CommsManager")],
)
prop(
    "C24",
    "Routed messages follow shortest available routes and are replanned around failing hops",
    "In a routed network a message travels a valid chain of connected nodes from source to destination, one of minimal length when nothing is blocked, with each hop taking the configured time, and reaches the destination's mailbox exactly once. A hop that stays blocked for the retry time is left out and the route replanned from where the message is, as configured, and the message is given up only when no route without the left-out nodes remains.",
    ["configurations", "fault_sequences"],
    "all connected or disconnected graphs, pairs of nodes, link failures, delays and planning options",
    "Tests use one small graph.",
    ["communications/routing.py", "communications/comms.py"],
    [("hop selection", S + "communications/routing.py")],
)
prop(
    "C25",
    "Sensors are told of Cartesian movers exactly when they enter and leave",
    "With motion managed by computed intersections, a sensor is notified of each detectable mover's entry to and exit from its detection sphere at the times the straight-line path crosses it, once each and in alternation, for any number of legs, movers and sensors. Stopping, re-routing, changes of detectability and late-added sensors keep the reported membership equal to the geometric one.",
    ["inputs", "histories", "configurations"],
    "all paths (multi-leg, starting inside, missing, grazing avoided), sensors, speeds, stops, detectability switches and sensor additions",
    "Tests use a few straight passes; multi-leg paths that miss some sensors are not swept.",
    ["motion/motion.py", "motion/cartesian_model.py"],
    [("intersection scheduling", S + "motion/motion.py SensorMotionManager"), ("sphere intersection", S + "motion/cartesian_model.py")],
)
prop(
    "C26",
    "Sensors are told of geodetic movers when they enter and leave",
    "The same guarantee over the earth: for either intersection method and earth model, entry and exit notifications alternate correctly and come at the times the mover's distance to the sensor passes the detection radius, within the method's stated resolution. Multi-leg paths, stops and paths that miss the sensor are handled alike.",
    ["inputs", "histories", "configurations"],
    "all paths and sensors over the globe (antimeridian, high latitude), both models and both intersection methods",
    "Tests fly one or two tracks in one area.",
    ["motion/motion.py", "motion/geodetic_model.py", "motion/great_circle_calcs.py", "geography/intersections.py"],
    [("great-circle intersection", S + "motion/geodetic_model.py"), ("subdividing intersection", S + "geography/intersections.py")],
)
prop(
    "C27",
    "Stepped motion detection agrees with geometry at every sampling instant",
    "With time-stepped detection, after each step the set of movers a sensor has been told about equals the set of detectable movers within its radius at that step, each change reported once. Movers and sensors that stop, move or change detectability are reflected at the next step.",
    ["inputs", "histories", "configurations"],
    "all mover/sensor paths, steps, radii, detectability switches",
    "Tests check a few paths at a fixed step.",
    ["motion/stepped_motion.py"],
    [("time stepping", S + "motion/stepped_motion.py SteppedMotionManager")],
)
prop(
    "C28",
    "Geometric intersection results lie on the path and on the boundary",
    "Every reported crossing between a straight or great-circle leg and a detection region lies on the leg and at the region's radius from its centre, is labelled entry or exit according to the side it comes from, and no crossing is missed. Feasible times, distances and orderings along the leg agree with the crossing points.",
    ["inputs"],
    "all legs, centres, radii, speeds and units within the documented domain",
    "Tests compare a handful of precomputed crossings.",
    ["motion/cartesian_model.py", "motion/geodetic_model.py", "motion/great_circle_calcs.py", "geography/intersections.py"],
    [("line/sphere", S + "motion/cartesian_model.py"), ("great circle", S + "motion/great_circle_calcs.py"), ("subdivide", S + "geography/intersections.py")],
)
prop(
    "C29",
    "Geodesy calculations are mutually consistent and accurate",
    "For both earth models, distance is symmetric and zero only for equal points, travelling the returned bearing and distance from one point arrives at the other, and intermediate points, circles and crossings they produce satisfy the same distances. Both agree with independent reference formulas, and coordinate conversions to and from earth-centred axes invert each other.",
    ["inputs"],
    "all points, bearings, distances and units on the globe outside the documented degenerate cases",
    "Tests compare a few published city pairs.",
    ["geography/spherical.py", "geography/wgs84.py", "geography/conversions.py"],
    [("spherical model", S + "geography/spherical.py"), ("ellipsoid model", S + "geography/wgs84.py"), ("conversions", S + "geography/conversions.py")],
)
prop(
    "C30",
    "Unit conversions are consistent and time displays follow the clock",
    "Converting a value between any two documented units of a kind and back gives the value, conversions compose, agree with the physical definitions and are refused between kinds; waits in any time unit last the equivalent simulation time. The formatted current time always shows the simulation time in the configured unit.",
    ["inputs", "configurations"],
    "all values, unit names and aliases, stage time units and clock values",
    "Tests convert a couple of values.",
    ["units/convert.py", "events.py", "base.py"],
    [("conversion table", S + "units/convert.py"), ("time formatting", S + "base.py pretty_now")],
)
prop(
    "C31",
    "Location objects are immutable points with a consistent distance",
    "A location's value never changes after creation, copies and equal coordinates compare equal, and the difference of two locations is their true distance in the configured units: symmetric, zero for equal points, obeying the triangle inequality. Unit and angle options change only the representation, never the distance, and unsupported mixes are refused.",
    ["inputs", "configurations"],
    "all coordinates, altitude/distance unit settings and angle options",
    "Tests compare a few fixed points.",
    ["data_types.py"],
    [("location arithmetic", S + "data_types.py")],
)
prop(
    "C32",
    "Simulation contexts are isolated, and equal seeds give equal runs",
    "Everything created inside one environment context (clock, actors, groups, stage variables, recorded data, random numbers) is visible there and only there, nested and sequential contexts included, and leaving one restores the outer one. The same program with the same seed produces identical histories every time.",
    ["programs", "histories", "configurations"],
    "all nestings and sequences of contexts, entity group inheritance, stage variables and seeded random programs",
    "Tests open one or two contexts.",
    ["base.py", "api.py"],
    [("context variables", S + "base.py EnvironmentContext"), ("stage", S + "base.py DotDict")],
)
prop(
    "C33",
    "Data tables contain exactly what the simulation recorded",
    "The tables built from a run contain one row for every recorded value of every actor, resource and location in the run, with the right entity, time, value and activation status, and no others. Custom recorded data is returned in order, unchanged by later mutation.",
    ["histories", "configurations"],
    "all sets of actors, states of every kind, resources and histories",
    "Tests build the table of one scenario.",
    ["data_utils/data_utils.py", "data_utils/data_recorder.py"],
    [("table creation", S + "data_utils/data_utils.py"), ("recorder", S + "data_utils/data_recorder.py")],
)
prop(
    "C34",
    "Logs hold exactly what was logged, when it was logged, and change nothing",
    "With debug logging on, an actor's log is the time-ordered sequence of exactly the messages logged to it, each with the time and, unless switched off for the actor or the stage, the displayed time, and every knowledge change made through the documented calls, every task started by a network and every interrupt that ended a task is named in it at its time, with the caller given. With logging off it stays empty and everything else happens as before. Logs of different actors are separate, a clone or understudy starts with the actor's entries and never adds to the actor's log. A communications manager asked to log keeps one timed entry for each attempt that must wait, each move and each delivery or giving up of each message, and none otherwise.",
    ["histories", "schedules"],
    "all programs of log and knowledge calls by tasks, callers and outside code on several actors with every combination of log settings, with interrupts, queues, clones and rehearsals in between; all histories of messages and link conditions",
    "Tests read a log once or twice; that no entry is lost, added, misplaced in time or shared with a clone, under every setting, is a statement over all histories.",
    ["actor.py", "task.py", "utils.py", "communications/comms.py", "communications/routing.py"],
    [("actor log", S + "actor.py Actor.log, _log_caller"), ("caller look-up", S + "utils.py get_caller_info"), ("attempt log", S + "communications/comms.py _log_attempt")],
    observe=["Actor.log()", "Actor.get_log()", "CommsManager.debug_log"],
)

NOT_APPLICABLE: dict[str, str] = {}
LEVEL_NOTE = (
    "Generated-input search with an explicit oracle; establishes the property on the explored cases only "
    "(counts and samples in the evidence file), not for all."
)


def main() -> None:
    with (ROOT / "properties.jsonl").open("w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "level_note"}
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in NOT_APPLICABLE:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]})
            continue
        if not list((ROOT / "harness/props").glob(p["id"].lower() + "_*.py")):
            na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
            continue
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bash check.sh {p['id']} quick",
                "thorough_cmd": f"bash check.sh {p['id']} thorough",
                "technique": "property-based testing: Hypothesis-generated cases against "
                + TECH.get(p["id"], "an executable reference model"),
                "level": "exploration",
                "level_note": p["level_note"] or LEVEL_NOTE,
                "evidence_file": f"evidence/{p['id']}.json",
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks import /repo/src afresh on every run; see DESIGN.md.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")


TECH: dict[str, str] = {}

if __name__ == "__main__":
    main()
