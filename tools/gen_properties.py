#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism], "observe_at": observe_at, "hook_needed": hook}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "src/repast4py/"
prop("R01", "Every scheduled event runs exactly when, and as often as, it was scheduled",
     "A one-time event scheduled for a tick that is not in the past executes exactly once, at that tick; a repeating event executes at its start tick and then once after every interval; an event scheduled for a past tick never executes. "
     "Ticks never decrease over a run, and while an event executes the reported current tick is the tick it was scheduled for. "
     "This includes events that are scheduled by other events while a tick is executing, also for that same tick.",
     ["schedules", "inputs"], "all sequences of scheduling calls with arbitrary ticks, intervals, kinds and priorities, made before the run and from inside executing events",
     "test_schedule.py fixes a handful of ticks; orderings, ties and re-entrant scheduling at arbitrary (fractional) ticks are never varied.",
     [S + "schedule.py"], ["Schedule._push_event", "Schedule.execute", "ScheduleGroup.add_evt/execute_evts", "RepeatingEvent.reschedule"],
     ["callbacks executed", "tick()"])
prop("R02", "Priorities order the events of one tick",
     "Among the events of one tick, no event executes while another event pending for that tick must precede it: FIRST events run before all others and LAST events after all others, each in the order they were scheduled, and the events with a numeric priority run in non-decreasing priority order. "
     "Events with a random priority run between the FIRST and the LAST ones without disturbing the order of the others. This also holds for events added to the tick while it is executing.",
     ["schedules", "inputs"], "all multisets of priority kinds and numeric priorities, all outcomes of the random generator, and all points at which further events are added to the executing tick",
     "Tests use a fixed seed and a few events; the random insertion and the interruption of a running tick have many outcomes that are never seen.",
     [S + "schedule.py"], ["ScheduleGroup.sort", "ScheduleGroup.execute", "ScheduleGroup._add_during_ex_evts"], ["order of callbacks"])
prop("R03", "A voided event never executes and voiding affects nothing else",
     "After an event is voided it never executes again, whether it is pending for a later tick, pending in the executing tick, or repeating. All other events execute exactly as if the voided event had not been scheduled from then on.",
     ["schedules", "histories"], "all points of a run at which any one-time or repeating event is voided, from outside the run or from another event or itself",
     "Tests void a few events at fixed ticks; the position of the void call in the execution is the variable that matters.",
     [S + "schedule.py"], ["OneTimeEvent.void", "RepeatingEvent.void", "ScheduleGroup.execute_evts"], ["callbacks executed"])
prop("R04", "Ranks execute ticks in lock step, and a stop ends the run on its tick",
     "For a schedule shared over several processes, in each round only events of the global minimum of the next scheduled ticks execute, so no process executes an event at a later tick before every process has executed its events at an earlier one, whatever each process has scheduled, including nothing. "
     "When the run is stopped at a tick, on all ranks, every event of that tick still executes, no event of a later tick does, and then every end event executes once on its rank and the call returns on every rank.",
     ["schedules", "configurations"], "all assignments of events to ranks and ticks (also none on a rank) and all stop ticks, for a bounded number of ranks and events",
     "Tests run one or few schedules, mostly on one rank; the relative position of ranks' ticks is never varied.",
     [S + "schedule.py"], ["SharedScheduleRunner.execute", "SharedScheduleRunner.schedule_stop", "Schedule.next_tick"], ["order of callbacks over ranks", "termination of execute"])
prop("R05", "A restored schedule continues exactly as the saved one",
     "Restoring a schedule from a checkpoint taken between ticks yields a schedule that, at the same ticks and with the same relative order within a tick, executes the same remaining one-time, repeating, stop and end events as the original would have. "
     "Voided events stay voided and events already executed are not repeated.",
     ["histories", "crash_points"], "all schedules up to a bounded number of events and all checkpoint ticks",
     "test_checkpoint.py saves a few fixed schedules at fixed ticks.",
     [S + "checkpoint.py", S + "schedule.py"], ["Checkpoint.save_schedule", "Checkpoint.restore_schedule", "Checkpoint._schedule_evt", "Checkpoint._to_evt_data"],
     ["callbacks executed after the restore"])
prop("R06", "The context reports exactly the agents it holds",
     "After any sequence of additions and removals a context's iteration, lookup by unique id, per-type iteration, per-type sizes and type tests all describe exactly the local agents, each once. "
     "Asking for a number of agents returns that many distinct ones of the requested type or all if there are fewer, shuffled or not, without changing the context.",
     ["histories", "inputs"], "all bounded sequences of add and remove with arbitrary ids and types, all counts and all shuffle outcomes",
     "Tests use small fixed populations and never vary count, type and shuffle together after removals.",
     [S + "context.py", S + "core.py"], ["SharedContext.add/remove/agents/agent/size/contains_type", "AgentManager.add_local/delete_local"], ["results of the context's queries"])
prop("R07", "Migration conserves agents",
     "When agents are moved between ranks, explicitly or because they left their rank's part of a space, afterwards each agent is local on exactly one rank, the one it was moved to, with its unique id and its state unchanged and with its place in every projection preserved; no agent is lost or duplicated. "
     "Ranks that held non-local copies of a moved agent agree on where it now lives.",
     ["schedules", "configurations", "histories"], "all assignments of agents to destination ranks in successive moves, including chains, swaps and moves of agents that are ghosts elsewhere, for a bounded number of ranks and agents",
     "Tests move a few agents between fixed ranks once or twice.",
     [S + "context.py", S + "core.py", S + "network.py", S + "space.py"], ["SharedContext.move_agents", "SharedContext.synchronize", "SharedContext._gather_oob_data", "SharedContext._process_recv_oob_data"],
     ["agents local to each rank and their state"])
prop("R08", "Synchronization refreshes every ghost, and removal reaches every rank",
     "After a synchronization every non-local copy of an agent that a rank holds has the state its local owner had when the synchronization began. "
     "When a local agent is removed, after the next synchronization no rank holds a copy of it, in its context or any of its projections. A copy held for several reasons stays until the last of them is gone.",
     ["histories", "configurations"], "all bounded histories of requests, edges, state changes, removals, moves and synchronizations over a bounded number of ranks",
     "Tests follow single histories; interleavings of request, removal and migration are not explored.",
     [S + "context.py", S + "core.py", S + "network.py"], ["SharedContext.request_agents", "SharedContext._update_ghosts", "SharedContext._update_removed_ghosts", "AgentManager (ghost bookkeeping)"],
     ["ghost agents and their state on each rank"])
prop("R09", "A cross-rank edge exists on both ranks or on none, with equal attributes",
     "After synchronization an edge between agents local to different ranks is present in the network on the ranks of both of its ends, with the same direction and attribute values, whichever rank created it. Edges that were removed are gone from both and updated attributes have reached both; edges between agents of the same rank exist there as they were added. "
     "This is preserved by moving and removing agents.",
     ["histories", "configurations"], "all bounded histories of adding, updating and removing edges (one edge on only one of its ranks between two synchronizations, not in the same step as its agents move), moving and removing agents, and synchronizing, on directed and undirected networks over a bounded number of ranks",
     "Tests follow fixed scenarios on up to a few ranks.",
     [S + "network.py", S + "context.py"], ["SharedNetwork._sync_edges", "SharedNetwork.add_edge/remove_edge/update_edge", "SharedNetwork._agent_moving_rank", "SharedNetwork._agents_moved_rank"],
     ["edges and attributes of the network on each rank"])
prop("R10", "A network written to a file reads back as the same network",
     "Writing a network with an assignment of nodes to ranks and reading the file back creates, over all ranks together, exactly the written nodes, each once and on its assigned rank with its attributes and agent type, and exactly the written edges with their attributes and directedness. "
     "Nodes on other ranks that an edge needs are present as one copy per rank.",
     ["inputs", "configurations"], "all small graphs, rank assignments and attribute values",
     "Tests read and write a couple of fixed graphs.",
     [S + "network.py"], ["write_network", "read_network", "_parse_node", "_parse_edge", "_parse_graph_desc"], ["agents and edges on each rank after reading"])
prop("R11", "Border policies map every point into the space",
     "With sticky borders every coordinate outside a space is moved to the nearest valid coordinate, and with periodic borders to the congruent coordinate modulo the extent; a coordinate that is inside stays unchanged. "
     "The result is always a valid point of the space, for discrete and for continuous spaces, and independent of points mapped before. In continuous spaces the highest valid coordinate lies at most 1e-8, or one floating-point spacing, below the upper bound, and congruence holds up to floating-point rounding.",
     ["inputs"], "all coordinates and all space origins and extents within stated magnitudes, in one, two and three dimensions",
     "Tests map a few dozen points of one space.",
     [S + "borders.h"], ["GridStickyBorders", "GridPeriodicBorders", "CSStickyBorders", "CSPeriodicBorders"], ["location returned by a move"])
prop("R12", "The ranks' local bounds partition the global bounds",
     "For every global bounds and number of ranks, the local bounds assigned to the ranks are pairwise disjoint, together cover the global bounds exactly, and are ordered like the ranks' cartesian coordinates. In each dimension the extents of two ranks differ by at most one.",
     ["configurations"], "all origins and extents within stated magnitudes and all process grids up to a bounded number of ranks, in one to three dimensions",
     "Tests check two bounds with a few rank counts.",
     [S + "distributed_space.cpp", S + "distributed_space.h"], ["CartesianTopology::getBounds"], ["local bounds of each rank"])
prop("R13", "Buffers contain exactly the neighboring ranks' boundary regions",
     "For every pair of ranks, the part of a rank's local bounds that it shares with another rank when ghosts are synchronized is exactly the set of its points within the buffer size of the other rank's local bounds, wrapped around when the space is periodic. Each neighbor is served, whatever the number of ranks per dimension.",
     ["configurations", "inputs"], "all bounds, buffer sizes not larger than the smallest local extent, process grids and border kinds within stated bounds",
     "Tests compare a few configurations with precomputed tables.",
     [S + "distributed_space.cpp", S + "distributed_space.h"], ["compute_neighbor_buffers", "CartesianTopology::getNeighbors", "compute_buffer_bounds*"], ["buffer metadata per neighbor", "ghost agents after synchronization"])
prop("R14", "An agent that leaves its rank's bounds is routed to the rank owning its location",
     "When an agent is moved to a location in the global bounds but outside its rank's local bounds, it is reported for migration exactly once, to the rank whose local bounds contain its latest location and with that location; when its latest location is inside the local bounds, or it was removed, it is not reported.",
     ["inputs", "histories"], "all locations, bounds, process grids and short sequences of moves",
     "Tests move agents across one or two fixed borders.",
     [S + "distributed_space.h", S + "distributed_space.cpp"], ["DistributedCartesianSpace::move", "RankIndex / getRank lookup", "getOOBData"], ["migration data"])
prop("R15", "Location lookup and occupancy agree after any sequence of operations",
     "After any sequence of adding, moving and removing agents in a space, an agent's reported location is where it was last moved to, the agents reported at a location are exactly those whose location it is, once each and in arrival order, and the counts agree. With single occupancy at most one agent is at a location and a move to a location occupied by another agent leaves both agents and their locations unchanged.",
     ["histories", "inputs"], "all bounded sequences of operations with arbitrary locations, for discrete and continuous spaces and both occupancy kinds",
     "Tests follow short fixed sequences.",
     [S + "space.h", S + "grid.h", S + "cspace.h", S + "occupancy.h"], ["BaseSpace::add/remove/move/getAgentsAt", "SingleOccupancyAccessor", "MultiOccupancyAccessor"], ["get_location", "get_agent", "get_agents", "get_num_agents"])
prop("R16", "A region query returns exactly the agents inside the region",
     "Querying a continuous space for the agents within a bounding box returns every agent whose current location lies in the half-open box, each once, and no other agent, after any sequence of additions, moves and removals.",
     ["histories", "inputs"], "all agent locations, query boxes, tree split thresholds and bounded sequences of moves",
     "Tests query fixed boxes over one random population.",
     [S + "SpatialTree.h", S + "SpatialTree.cpp", S + "cspace.h"], ["CPSpatialTree", "SpatialTree::split", "MOItems/SOItems"], ["get_agents_within"])
prop("R17", "Spaces neither leak nor prematurely release agents and points",
     "While an agent is in a space the space keeps the agent and its location alive. After an agent is removed, or the space is destroyed, the space holds no reference to the agent, its id or its locations; spaces and topologies do not retain the communicator or other objects they were given, release what they allocated, and return results whose references are balanced. No sequence of operations makes a space or an iterator it returned use an object that has been released.",
     ["histories"], "all bounded sequences of add, move, remove and lookup calls",
     "Tests never look at reference counts.",
     [S + "space.h", S + "occupancy.h", S + "spacemodule.cpp"], ["BaseSpace::add/remove/move/destructor", "occupancy accessors"], ["reference counts"])
prop("R18", "Agents near a rank's border are visible on the neighboring ranks",
     "After synchronizing a context with a shared space, each rank's space contains, besides its local agents, exactly one copy of every agent that other ranks hold within the buffer distance of its local bounds, with its current location and state, and no other agent.",
     ["histories", "configurations"], "all agent locations, successive moves and synchronizations for a bounded number of ranks and agents, discrete and continuous, periodic and sticky",
     "Tests check a few agents in fixed positions.",
     [S + "space.py", S + "context.py"], ["SharedGrid._fill_send_data/_process_recv_data/_pre_synch_ghosts", "SharedCSpace._fill_send_data/_process_recv_data"], ["agents and locations on each rank"])
prop("R19", "A value layer stores per-location values",
     "Reading a location of a value layer returns the value last written to that location, or the initial value, whatever was written elsewhere, with the coordinates in x, y, z order and the border policy applied to coordinates outside. "
     "A neighborhood query returns the neighboring locations together with the values stored at exactly these locations.",
     ["inputs", "histories"], "all locations, values and origins within stated bounds, in one to three dimensions, sticky and periodic",
     "Tests read and write a few cells of a few layers.",
     [S + "value_layer.py", S + "geometry.py"], ["ValueLayer.get/set/get_nghs", "_Impl1D/_Impl2D/_Impl3D"], ["get", "set", "get_nghs"])
prop("R20", "Synchronizing a shared value layer copies the neighbors' border values",
     "After a shared value layer is synchronized, reading any location within the buffer distance of a rank's local bounds on that rank yields the value its owning rank holds there, wrapped around for periodic layers, and no rank's own values change. The neighborhood of each of a rank's locations then has the values its owners hold.",
     ["inputs", "configurations"], "all values, and bounds, buffer sizes, dimensions and process grids within stated bounds",
     "Tests compare a few layouts with fixed numbers.",
     [S + "value_layer.py"], ["SharedValueLayer._init_sync_data", "SharedValueLayer._synch_ghosts", "SharedValueLayer._init_buffered_bounds"], ["get on buffer locations"])
prop("R21", "Writes to a read-write value layer become readable only by a swap",
     "In a layer with separate read and write sides, a value written is not visible to any read until the sides are swapped; after a swap every read, of a location or a neighborhood, returns the value most recently written there while the side now read was the write side (or the initial value). Synchronizing updates the buffered values of both sides and changes no other; neither mixes values of different locations.",
     ["histories", "inputs"], "all bounded sequences of writes, reads, synchronizations and swaps with arbitrary values, on any number of ranks within bounds",
     "Tests check one or two swaps.",
     [S + "value_layer.py"], ["ReadWriteValueLayer.set/get/get_nghs/swap_layers", "ReadWriteValueLayer._synch_ghosts"], ["get", "get_nghs", "read_grid"])
prop("R22", "Neighbor finders return exactly the adjacent points",
     "For every point of a bounded space, the neighbor functions return exactly the points that differ by at most one in each dimension: without duplicates and clipped at the bounds for the sticky variants, one per offset and wrapped around for the periodic variants, in the documented order and axis order.",
     ["inputs"], "all points and all bounds (any origin, extents within stated magnitudes), one to three dimensions",
     "Tests check corner cases of one or two boxes.",
     [S + "geometry.py"], ["find_1d/2d/3d_nghs_sticky", "find_1d/2d/3d_nghs_periodic"], ["returned coordinates"])
prop("R23", "Logged data reaches the output completely, in order, reduced over all ranks",
     "Each tick logged by a reducing data set appears as exactly one row, in order, holding the tick and for every source the reduction over all ranks of the values at that tick, however logging and writing are interleaved. Every row logged on any rank by a tabular logger appears exactly once after a write, and an existing file is never overwritten.",
     ["histories", "inputs"], "all bounded interleavings of logging and writing with arbitrary values on a bounded number of ranks",
     "Tests log a fixed series once or twice.",
     [S + "logging.py", S + "util.py"], ["ReducingDataLogger", "ReducingDataSet", "TabularLogger", "find_free_filename"], ["contents of the output files"])
prop("R24", "Checkpointed agents, spaces and networks are restored identically",
     "Restoring agents, the locations of agents in a space and a network from a checkpoint recreates on each rank exactly the local agents that were saved with their state, puts each at its saved location, and recreates all edges between them, also across ranks, with their attributes and no duplicates. Values saved under a key are given back under that key.",
     ["histories", "crash_points"], "all bounded populations, placements, and networks and the rank on which each agent lived when the checkpoint was taken",
     "Tests restore a few fixed populations.",
     [S + "checkpoint.py"], ["Checkpoint.save_agents/restore_agents", "Checkpoint.save_space/restore_space", "Checkpoint.save_network/restore_network", "NetworkRestorer"], ["context, space and network after the restore"])
prop("R25", "Random state and parameters are reproducible",
     "Initializing or restoring the random generator puts it into the requested or saved state, so the same draws follow, and the seed reported is the one in use. Parameters given on the command line override those of the parameter file, all other parameters keep the file's values, and a given seed is applied.",
     ["inputs", "crash_points"], "all seeds, generator states, parameter values and override sets",
     "Tests check one seed and a couple of parameters.",
     [S + "random.py", S + "checkpoint.py", S + "parameters.py"], ["random.init", "Checkpoint.save_random/restore_random", "parameters.init_params"], ["draws", "params"])
prop("R26", "Agents keep their identity and points keep their coordinates",
     "An agent's id, type, rank and unique id are those it was made with, whatever happens to the agent afterwards, and a negative type is refused. Agents are the same agent to a space exactly if all three parts of their ids are equal: adding, moving and removing one agent never affects another one. "
     "A point has the coordinates it was made with or last reset to; two points of a kind are equal (and not unequal) exactly if all their coordinates are, and changing one point never changes another one.",
     ["inputs", "histories"], "all agent ids of the allowed types, all coordinates, all ways to make or reset a point, and short histories of space operations on agents whose ids differ anywhere",
     "Tests use a few small ids and coordinates; ids that differ in one part only, or far apart, and large coordinates are never compared.",
     [S + "coremodule.cpp", S + "core.h", S + "spacemodule.cpp", S + "space.h"], ["Agent_init", "agent_id_comp", "DiscretePoint/ContinuousPoint init, reset, comparison"], ["uid", "coordinates", "==", "get_location", "get_agents", "contains"])
prop("R27", "Random local points lie in the local bounds, and all of them can be drawn",
     "A random local point of a shared space lies within the calling rank's local bounds (the upper bound excluded), in as many dimensions as the space has, and no place within the bounds is left out: every grid cell, and every part of a continuous space however small, is drawn for some value of the generator. "
     "Points drawn earlier keep their coordinates when more are drawn.",
     ["inputs"], "all values the random generator can give, over the listed topologies of 1D, 2D and 3D grids and continuous spaces",
     "Tests draw a few points from one seed; the ends of the range and cells never drawn are not seen.",
     [S + "space.py", S + "random.py"], ["_create_random_pt_func", "get_random_local_pt"], ["get_random_local_pt"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
