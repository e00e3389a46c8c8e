#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay editable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech],
                     "observe_at": list(observe), "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

D = 'dccrg.hpp'
p("P01", "Ghost updates deliver the owner's values to every remote neighbor",
  "After an update of copies of remote neighbors completes, every process can read, for every cell owned by another process that is a neighbor of any of its local cells in the updated neighborhood, exactly the value that the owner had when the update started, and no local cell's value is changed by the update. This holds for every interleaving of processes, any message delivery order and delay allowed by MPI, any buffering mode, for one message per cell as well as one message per process, and for updates repeated any number of times between structural changes.",
  ["schedules", "histories", "configurations"],
  "all process interleavings and message delivery orders x all reachable distributed grids (refinement, partition, periodicity, neighborhood length, pins, user neighborhoods) x cell data types of fixed and variable size",
  "tests run a few fixed grids under whatever single timing the local OpenMPI shared memory transport gives; they never see late matching, rendezvous sends read late, or partially filled receive buffers",
  [D], [("update_copies_of_remote_neighbors", D + ":978"), ("start_user_data_transfers", D + ":~10900"), ("cells_to_send/cells_to_receive lists", D + ":recalculate_neighbor_update_send_receive_lists")],
  [("remote cell copies", "values of remote neighbors on each process", D)],
  ["operator[] of remote neighbors", "iterators' data pointers"])
p("P02", "All processes agree on one gap-free, overlap-free partition of the grid",
  "After every collective operation (initialization, refinement, load balancing, loading) the cells that exist cover the whole domain exactly once, every existing cell is local on exactly one process, and every process gives the same and correct answer to who owns any cell id, including that non-existing ids (parents, unborn children, out of range) have no owner. Cell listings (all cells, local cells, existing cell at a location) on every process agree with that partition.",
  ["schedules", "histories", "configurations"],
  "all histories of refine/unrefine/balance/pin/load operations issued by any subset of processes in any interleaving",
  "global agreement is only checked by DEBUG builds on the few grids of the test programs, and never from several processes whose progress is skewed",
  [D, "dccrg_mapping.hpp"], [("create_level_0_cells", D), ("execute_refines", D), ("finish_balance_load", D), ("get_process/get_existing_cell", D + ":5941")],
  [("cell_process", "replicated directory of owners", D)],
  ["get_process", "is_local", "get_existing_cell", "get_cells", "get_all_cells", "local_cells()"])
p("P03", "Load balancing moves each cell and its data exactly once to its new owner",
  "Load balancing leaves the set of cells and every cell's data unchanged and afterwards each cell is owned by the process the partitioner chose (or its current owner if the partitioner is not used), overridden by pins; an empty repartition changes nothing and a failure of the partitioner ends the program instead of being ignored. This also holds for the three-phase form with any number of data transfer phases, and the lists of cells added to and removed from a process during balancing are exactly the difference between old and new ownership.",
  ["schedules", "histories", "configurations"],
  "all partitions an arbitrary partitioner can return (including emptying a process) x all interleavings and delivery orders x single and staged balancing with multi-part cell data",
  "tests use what Zoltan happens to return for a fixed grid; adversarial partitions, empty processes and late messages are not reached",
  [D], [("balance_load", D + ":1046"), ("initialize/continue/finish_balance_load", D + ":3825"), ("make_new_partition/update_pin_requests", D)],
  [("added_cells/removed_cells/cells_to_send/cells_to_receive", "planned migration", D)],
  ["get_cells", "operator[]", "get_cells_added_by_balance_load", "get_cells_removed_by_balance_load"])
p("P04", "Pinned cells end up, and stay, on the process they are pinned to",
  "After load balancing every cell that was pinned by its owner is owned by the process given in the owner's most recent pin request and remains there over later balancing until unpinned, whatever the partitioner says; unpinned cells are free again. Children of a pinned cell inherit the pin, merged cells are not pinned, and invalid pin or unpin requests (cell not local or not existing, process out of range) are refused without effect.",
  ["histories", "schedules", "configurations"],
  "all sequences of pin/unpin/unpin local/unpin all, refinement, unrefinement and balancing issued by different processes",
  "the pin tests follow one scripted sequence; re-pinning before a balance, pins surviving several migrations and refinement are not covered",
  [D], [("pin/unpin", D + ":5968"), ("update_pin_requests", D), ("pin inheritance in execute_refines", D)],
  [("pin_requests/new_pin_requests", "committed and uncommitted pins", D)], ["get_process after balance_load", "return values of pin/unpin"])
p("P05", "Refinement commits exactly the grid the requests imply, 2:1 balanced",
  "When refinement is committed, the resulting grid is determined by the union of all processes' requests only: every refine request not vetoed by a don't-refine request of any process takes effect, plus exactly those refinements needed to keep neighboring cells within one refinement level, and a family of siblings is merged exactly if at least one sibling's owner requested it and no sibling is refined or vetoed and merging keeps neighbors within one level. The outcome is independent of how cells are distributed to processes and of the order or interleaving of requests, the new and removed cells returned to each process are exactly its own, and requests never carry over to later commits, except that a don't-refine request stays in effect until load is balanced.",
  ["schedules", "histories", "inputs", "configurations"],
  "all request sets spread over all processes, any distribution of cells, any periodicity, neighborhood length and refinement depth, repeated commits",
  "tests check a few hand written refinement patterns on one distribution; cascades of induced refinement crossing several process boundaries with vetoes are not enumerated",
  [D], [("override_refines/induce_refines/override_unrefines/execute_refines", D), ("refine_completely/unrefine_completely/dont_refine/dont_unrefine", D + ":2511")],
  [("cells_to_refine/cells_to_unrefine/cells_not_to_refine/cells_not_to_unrefine", "pending requests", D)],
  ["stop_refining return value", "get_removed_cells", "get_cells"])
p("P06", "Cell data survives refinement and unrefinement",
  "After refinement is committed the data of every cell that still exists is unchanged, the data of a refined cell is still readable on its owner and the data of every removed (merged) cell is readable on the process that owns the parent created in its place, with the values they had before the commit, until the next structural operation or explicit clearing, which removes it. New cells start default constructed and belong to the process that owned the refined cell or the first sibling of the merged family.",
  ["schedules", "histories", "configurations"],
  "all refinement outcomes incl. families whose siblings live on different processes x all interleavings and delivery orders of the transfers x fixed and variable size data",
  "tests mostly have whole families on one process, so data of merged cells rarely crosses processes and never under adversarial delivery",
  [D], [("execute_refines data transfer", D), ("refined_cell_data/unrefined_cell_data", D), ("clear_refined_unrefined_data", D + ":5598")],
  [], ["operator[] of refined, removed and new cells", "get_removed_cells"])
p("P07", "Neighbor lists equal the geometric neighborhood and are mutually consistent",
  "On the owner of each cell the list of neighbors contains exactly the existing cells that overlap the cell's neighborhood in the index space (honouring periodic boundaries), in the documented order and with the documented relative offsets, and the reverse list holds exactly those cells which have the cell as their neighbor. Face neighbor queries return exactly the cells sharing a face, each with the right direction and never one that only touches an edge or corner, and this holds after any history of structural changes.",
  ["histories", "schedules", "configurations"],
  "all histories of refinement, balancing, loading and copying on all topologies and neighborhood lengths, on every process after every operation",
  "incremental maintenance of the lists depends on which process did what and when; tests compare a few static grids",
  [D, "dccrg_topology.hpp", "dccrg_mapping.hpp"], [("find_neighbors_of/find_neighbors_to", D), ("update_neighbors", D), ("get_face_neighbors_of", D + ":2883")],
  [("neighbors_of/neighbors_to", "neighbor lists of cells", D)], ["get_neighbors_of", "get_neighbors_to", "get_face_neighbors_of", "iterators' neighbors_of/neighbors_to", "get_neighbors_of_at_offset"])
p("P08", "Inner/outer/remote classification of cells is exact after every operation",
  "A local cell is reported as being on the process boundary exactly if at least one cell it depends on or that depends on it is owned by another process, and a remote cell is reported (and its data accessible) exactly if it is in such a relation with a local cell. Cell iterators, filtered cell lists and the counts of cells to be sent and received cover exactly those sets, without duplicates and with valid data, after every structural operation.",
  ["histories", "schedules", "configurations"],
  "all histories of structural operations, all neighborhoods, all neighbor type criteria",
  "overlap of computation and communication relies on it, wrong classification only shows with particular partitions",
  [D, "dccrg_iterator_support.hpp"], [("update_remote_neighbor_info", D), ("update_cell_pointers/iterators", D + ":7649"), ("is_neighbor_type_match/get_cells", D + ":661")],
  [("local_cells_on_process_boundary/remote_cells_on_process_boundary", "cells with neighbors on other processes", D)],
  ["inner_cells()/outer_cells()/local_cells()/remote_cells()/all_cells()", "get_local_cells_on_process_boundary", "get_remote_cells_on_process_boundary", "get_number_of_update_send_cells"])
p("P09", "User neighborhoods are independent and follow the grid",
  "A neighborhood added by the user contains for every cell exactly the existing cells at the given offsets, and stays so through refinement, load balancing and loading until it is removed, after which queries and updates with it are refused. Updates in one neighborhood transfer exactly the cells of that neighborhood, leave copies of other remote cells alone, and adding or removing one neighborhood has no effect on any other; invalid or duplicate neighborhoods are refused on every process without effect.",
  ["histories", "schedules", "configurations"],
  "all sets of offsets within the grid's neighborhood x all add/remove/update histories interleaved with structural changes",
  "tests have two or three fixed neighborhoods on static grids",
  [D], [("add_neighborhood/remove_neighborhood", D + ":6546"), ("user_hood_of/user_neigh_of", D), ("user_neigh_cells_to_send/receive", D)],
  [], ["get_neighbors_of(cell, id)", "update_copies_of_remote_neighbors(id)", "get_cells(criteria, exact, id)"])
p("P10", "A saved grid loads back identically on any number of processes",
  "Saving a grid and loading the file, with the same or a different number of processes and in one call or in stages, recreates exactly the same cells, neighbor relations, geometry and the user's header and cell data, and the loaded grid behaves like the original in all later operations. Saving neither changes the grid nor its data.",
  ["schedules", "histories", "configurations", "crash_points"],
  "all reachable grids x number of processes at save and load x partition x header sizes and file offsets x staged loading x interleavings and write-back order of the file system",
  "restart tests use a few fixed grids and process counts with one fixed size data type",
  [D], [("save_grid_data", D + ":1117"), ("start/continue/finish_loading_grid_data", D + ":1870"), ("load_cells", D + ":3724")],
  [], ["contents after load_grid_data"])
p("P11", "Saved files have the documented byte layout whatever the schedule",
  "A successful save writes, starting at the given offset, exactly the documented sequence of header, endianness marker, grid information, cell count, cell ids with data offsets and cell data, where each cell's data starts at the offset recorded for it, every cell chosen by any process appears exactly once and nothing else in the file is modified. The result does not depend on scheduling or the order in which file writes reach the disk, and parts which are disabled by the caller are absent.",
  ["schedules", "histories", "configurations"],
  "all grids, partitions, header sizes, offsets, option combinations, cell subsets and data types x interleavings and write-back orders",
  "tests only load their own files, so errors that cancel out and races between writers are invisible",
  [D], [("save_grid_data offsets and file views", D + ":1117")], [], ["bytes of the file"])
p("P12", "Failing I/O is never reported as success and never hangs the program",
  "If opening, writing or reading a grid file fails on any process at any point, or a file to be loaded is missing, truncated or lacks the right endianness marker, then saving or loading reports failure on every process (return value or controlled abort of the program), no process waits forever, and no process is told of success with wrong cells or data. A job that dies at any point, also during a save, leaves other files as they were, so that a new job can load any file whose save was completed earlier, and success always means that file and grid are exactly right.",
  ["fault_sequences", "crash_points", "schedules"],
  "every I/O call of every process x error, error after partial transfer, full disk, open failure; files cut at every length; job crash at every I/O call followed by restart from what was durable",
  "no test injects an I/O error",
  [D], [("return value checks in save_grid_data/start_loading_grid_data/continue_loading_grid_data", D + ":1117")], [], ["return values of save_grid_data/load_grid_data on every process"])
p("P13", "Every collective operation terminates and leaves no communication behind",
  "As long as all processes call the same collective operations in the same order, every operation returns on every process under any schedule without deadlock and regardless of message buffering, for any upper bound of tags the MPI standard allows that covers the cells exchanged between two processes, using only legal MPI calls. When an operation has completed no requests, unreceived messages, datatypes or open files remain, and operations never involve processes outside of the grid's communicator nor take messages the user sent on the user's own communicator.",
  ["schedules", "histories", "configurations"],
  "all interleavings, eager and rendezvous sends, delayed links, slow processes, empty processes and sub-communicators with permuted ranks",
  "one local transport buffers small messages so that most ordering errors and leaks cannot manifest",
  [D, "dccrg_mpi_support.hpp"], [("start_user_data_transfers/wait_user_data_transfers", D), ("Some_Reduce", "dccrg_mpi_support.hpp")],
  [], ["termination", "simulator's resource accounting"])
p("P14", "The partitioner is told the truth about cells, weights and relations",
  "When load is balanced each process presents to the partitioner exactly its local cells, with their user given weights or 1, their true centers, their true neighbor relations with right owners, and the current partitioning options and hierarchy. Cell weights are inherited by children, follow their cell and are forgotten after load balancing and merging, and options are set, changed and removed only as the user asked.",
  ["histories", "configurations", "schedules"],
  "all histories of weight and option changes, refinement and balancing",
  "Zoltan accepts wrong data silently and still returns some partition, so tests cannot notice",
  [D], [("Zoltan query callbacks", D), ("set_cell_weight", D + ":6373"), ("partitioning levels and options", D + ":5637")], [], ["arguments seen by Zoltan callbacks", "get_cell_weight"])
p("P15", "Split-phase updates deliver and overlap safely",
  "When an update is started and finished in separate steps (receives and sends started, waited for separately, per neighborhood), a process may change the data of its cells as soon as its own sends have been waited for and may read remote copies as soon as its own receives have been waited for, and then sees exactly the values owners had when they started sending. Local cells that are not on the process boundary can be read and written at any time in between without affecting what others receive.",
  ["schedules", "histories", "configurations"],
  "all orders of start/wait calls on each process, all preemption points between them, any buffering",
  "with small eager messages a premature completion or a missing wait is invisible in tests",
  [D], [("start/wait_remote_neighbor_copy_update_*", D + ":5101")], [("send_requests/receive_requests", "in-flight transfers per peer", D)], ["operator[] after waits"])
p("P16", "A copied grid is complete and independent of the original",
  "A grid constructed from another grid has the same cells, owners, neighbor relations, topology and geometry as the original at the time of copying, with its own cell data, even of another type (user's neighborhoods and load balancing settings are not part of a copy). Afterwards operations on either grid, in any order and interleaving, behave as if the other did not exist.",
  ["histories", "schedules"],
  "copy at any point of a history, then any operations on either grid on all processes",
  "the copy tests do one copy and compare cell lists",
  [D], [("copy constructor", D + ":~330")], [], ["all queries on both grids"])
p("P17", "Collective helper operations return the true global result on all processes",
  "Gathering and reducing values with the library's MPI helpers gives on every process the mathematically correct result over all participating processes' inputs, for inputs of any and different lengths, any schedule and any communicator; the reduction among a subset of peers combines exactly the listed peers' values.",
  ["schedules", "inputs", "configurations"],
  "all interleavings, communicators and input lengths including empty ones",
  "tests call each helper a few times with world communicator",
  ["dccrg_mpi_support.hpp"], [("All_Gather/All_Reduce/Some_Reduce", "dccrg_mpi_support.hpp")], [], ["return values"])
p("P18", "Cells are told truthfully which transfer they take part in",
  "Whenever cell data is transferred, the cell's datatype provider is called with the id of that cell, the true sending and receiving process, the right direction and, in updates of remote copies, the neighborhood of the update, consistently on both ends; in file I/O the other process is given as -1. Data whose transferred part depends on this context, including variable sized data sent in several stages, arrives complete and is never mixed up between cells.",
  ["schedules", "histories", "configurations"],
  "all transfers of all operations for all cells and processes",
  "tests hardly use the extended interface and only check the final data of fixed grids",
  [D, "dccrg_get_cell_datatype.hpp"], [("get_cell_mpi_datatype calls", D)], [], ["arguments of get_mpi_datatype", "transferred data"])
p("P19", "Cell id arithmetic is a bijection between ids and index boxes",
  "Every valid cell id maps to one refinement level and index box and back, children tile their parent and parents contain their children.",
  ["inputs", "configurations"], "all ids and grid sizes", "64-bit id space",
  ["dccrg_mapping.hpp"], [("Mapping", "dccrg_mapping.hpp")])
p("P20", "Geometry queries agree with cell indices",
  "Centers, lengths and corners of cells and coordinate lookups are consistent with index boxes in every geometry.",
  ["inputs", "configurations"], "all ids, geometries and coordinates", "continuous input space",
  ["dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp", "dccrg_no_geometry.hpp"], [("geometry classes", "dccrg_cartesian_geometry.hpp")])
p("P21", "Debug builds accept every legal use and give the same results",
  "A program compiled with the library's self checks enabled (DEBUG) is never stopped by them as long as it uses the grid as documented, on any process and under any schedule. It gets the same results from every operation as without them.",
  ["histories", "schedules", "configurations"],
  "all histories of operations, schedules and grids of the other properties",
  "the few debug tests run short scripts on small grids",
  [D], [("#ifdef DEBUG sections, verify_* functions", D)], [], ["termination", "all queries"])
p("P22", "Without load balancing support everything else works as before",
  "A program compiled without load balancing support (DCCRG_NO_LB) gets the same results from initialization, refinement, updates of remote copies, neighborhoods, copies, saving and loading as one compiled with it. Load balancing, pins and partitioning options do nothing, report failure where documented and leave cells, their owners, data and pending requests alone.",
  ["histories", "schedules", "configurations"],
  "all histories of operations, schedules and grids of the other properties",
  "only one test is compiled that way",
  [D], [("#ifndef DCCRG_NO_LB sections", D)], [], ["all queries"])
p("P23", "A failed communication call is never mistaken for success",
  "If a call of MPI for messages, collective operations, communicators or datatypes returns an error to one process during an operation of the grid, then that operation ends the program, reports failure or gives right results all the same. It never returns success with wrong or missing data of cells or wrong neighbors, owners or files, and nobody is left waiting by a process that went on.",
  ["faults", "schedules", "histories"],
  "all failing calls of all operations on any one process, under every schedule",
  "nothing is injected and errors end the program in MPI by default",
  [D, "dccrg_mpi_support.hpp"], [("start_user_data_*, wait_user_data_transfer_*", D), ("All_Gather, All_Reduce, Some_Reduce", "dccrg_mpi_support.hpp")], [], ["return values", "termination", "all queries"])
with open(OUT, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, d['id']
        f.write(json.dumps(d) + '\n')
