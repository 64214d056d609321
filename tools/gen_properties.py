#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

NOT_RUN = "The 22 unit tests never open a database, start the compute thread or run a command; "

prop("C01", "An interrupted command leaves the old map or the new map, never a mixture",
 "If the process running an editing command is killed, loses its terminal, runs out of memory or loses power (on a disk that keeps what was synced and applies directory changes and truncations in order) at any instant, the map recovered afterwards holds, mapblock for mapblock, either exactly what was stored before the command or exactly what the same command stores when it is left alone. No third state is ever observable, and the recovered database file is intact.",
 ["crash_points", "inputs", "schedules"],
 "every editing command and argument set, every map, every instant of the run (every disk operation, allocation, console write and thread switch), process kill and power loss with every subset of un-synced writes surviving",
 NOT_RUN + "a crash point inside a transaction, a spilled page cache or a commit is never reached.",
 ["src/map_database.rs", "src/instance.rs", "src/commands/*.rs"],
 [("one transaction opened before the first read and committed once, after the command function returns", "src/map_database.rs MapDatabase::new, commit_if_needed; src/instance.rs compute_thread"),
  ("rollback by closing the connection on panic or error", "src/instance.rs compute_thread (drop order)")],
 [("map file + rollback journal", "the durable map", "world/map.sqlite, map.sqlite-journal")],
 ["rows of table blocks after recovery", "PRAGMA integrity_check"])

prop("C02", "An edit reported as Done survives any later crash",
 "Once a command has printed its final 'Done.' message, every later reader of the map sees the complete edit, even if the process is killed or power is lost immediately afterwards on a disk that keeps what was synced and applies directory changes in order. Until a command has made its whole edit durable it does not print 'Done.'.",
 ["crash_points", "inputs", "schedules", "fault_sequences"],
 "every editing command, every schedule of the two threads, a crash at every instant from the first console write of 'Done.' to process exit and after it, every subset of un-synced data lost",
 NOT_RUN + "the order between commit, message delivery to the console thread and console output is never executed.",
 ["src/instance.rs", "src/map_database.rs", "src/cmd_line.rs"],
 [("'Done.' is logged only after COMMIT returned Ok", "src/instance.rs compute_thread"),
  ("full-sync commit of SQLite (no PRAGMA weakens it)", "src/map_database.rs")],
 observe=["stdout of the process, ordered with the disk operations", "rows after recovery"])

prop("C03", "A failing disk, lock or allocation is reported and never leaves a partial edit",
 "When a read, write, sync, truncate, open, delete, lock or memory allocation fails, or the disk is full, a command either still completes its whole edit or leaves the map exactly as it was; it prints 'Done.' without an error only in the first case, and when it fails it says so on the console and exits. It never stores data that the fault made up, drops a mapblock because it could not be read, or hangs.",
 ["fault_sequences", "inputs", "schedules"],
 "every command, every single fault and short sequence of faults (EIO, ENOSPC, EINTR, short reads and writes, failed sync, failed open/unlink, EAGAIN on locks, failed malloc, reads that return garbled pages) at every operation index",
 NOT_RUN + "no test makes an I/O call or an allocation fail.",
 ["src/map_database.rs", "src/instance.rs", "src/utils.rs", "src/commands/*.rs"],
 [("every database result is checked (unwrap or ?) so a failure ends the command before COMMIT", "src/map_database.rs; src/commands/*.rs"),
  ("errors are sent to the console thread", "src/instance.rs spawn_compute_thread")],
 observe=["stdout/stderr", "rows after the run", "process exit"])

prop("C04", "After any failed or interrupted run, running the command again completes the job",
 "Once faults stop, running the same command again on the map that a failed, refused or crashed run left behind needs no manual repair: it completes within a bounded number of steps, and the map then equals what one undisturbed run on the recovered content produces. In particular, for a run that did not commit this is exactly the result of a never-disturbed run on the original map.",
 ["histories", "crash_points", "fault_sequences"],
 "every history of up to several crashed or failed runs (leftover hot journals, stale locks, half-written files) followed by a fault-free rerun",
 NOT_RUN + "no test runs a command twice or starts from a map with a hot journal.",
 ["src/instance.rs", "src/map_database.rs"],
 [("map opened read-write so that a hot journal is rolled back before any read", "src/instance.rs open_map, compute_thread"),
  ("all state lives in the database; nothing else is left behind", "src/map_database.rs")],
 observe=["rows after the rerun", "console output of the rerun", "simulated steps used"])

prop("C05", "An edit is one serializable transaction next to another process using the map",
 "When another process (the game, a backup reader) reads and writes the same map while a command runs, the outcome is as if the whole command happened at one single point between the other process's committed transactions. No committed write of the other process is reverted or lost, no reader ever sees part of an edit, and if the locks cannot be obtained the command fails visibly and changes nothing (only a disk fault that strikes after the commit point may make a command report failure although it took effect).",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of the command's database operations with read and write transactions of a second client, including lock conflicts at every lock operation and an input map that is being written",
 NOT_RUN + "no test has a second connection.",
 ["src/map_database.rs", "src/utils.rs", "src/instance.rs"],
 [("BEGIN before the first query: block list and block contents come from one snapshot, and the write lock is kept until COMMIT", "src/map_database.rs MapDatabase::new"),
  ("the input map is read inside one transaction as well", "src/instance.rs compute_thread")],
 observe=["history of both clients' transactions", "rows read by the second client"])

prop("C06", "Nothing is changed before the user has answered yes",
 "Unless confirmation is switched off with -y, a command started on a clean map (no leftover journal to recover) changes no byte of any map before the user has answered 'y' or 'Y' to the prompt. Any other answer, end of input, an unreadable terminal, or a crash or disconnection while the prompt is open leaves every file byte-identical and starts no edit.",
 ["schedules", "inputs", "fault_sequences", "crash_points"],
 "every command, every answer and typing delay, short and failing terminal reads, closed output, crash while waiting, every schedule of the prompt handshake",
 NOT_RUN + "the prompt handshake between the threads has no test.",
 ["src/instance.rs", "src/cmd_line.rs"],
 [("ConfirmRequest/ConfirmResponse handshake before the command function is called", "src/instance.rs compute_thread, StatusServer::get_confirmation"),
  ("answer parsing", "src/cmd_line.rs get_confirmation")],
 observe=["file bytes", "order of disk writes and the consumption of the answer"])

prop("C07", "A refused request has no effect",
 "A request that is refused - missing or invalid argument combinations, coordinates outside the map, an absent map file, a file that is not a map database, an unusable input map - ends with an error message and leaves every map byte-identical, whatever the schedule and whatever else goes wrong meanwhile. Valid requests are not refused.",
 ["inputs", "configurations", "schedules", "fault_sequences"],
 "every invalid argument combination per command, every kind of unusable database file, with and without -y, under every schedule",
 NOT_RUN + "argument verification, database verification and their order relative to the first write are untested.",
 ["src/instance.rs", "src/cmd_line.rs", "src/map_database.rs", "src/commands/*.rs"],
 [("verify_args of the instance and of each command before any database is opened", "src/instance.rs verify_args, compute_thread"),
  ("schema verification", "src/map_database.rs verify_database")],
 observe=["stdout", "file bytes"])

prop("C08", "Damaged or unsupported mapblocks are skipped and contained",
 "A stored mapblock whose data is corrupt, truncated, of an unsupported version or otherwise unusable is left byte-identical by every command that would have to read its contents, and does not stop the command: all other mapblocks are processed exactly as if the damaged one were not there, no run aborts, hangs or allocates memory for lengths that a damaged block merely declares, and skipped blocks are reported. (Deleting or wholesale copying of mapblocks does not read contents and is not affected.)",
 ["inputs", "fault_sequences", "histories"],
 "every corruption of stored bytes (flips, truncation, splices, zeroed pages, extreme length/count/ID fields) at every position of every supported block version, in any number of blocks, striking before or between commands of a history",
 "test_failures flips five chosen bytes of one v28 file and calls the decoder only; no command ever meets a damaged block.",
 ["src/map_block/*.rs", "src/commands/*.rs", "src/block_utils.rs"],
 [("bounds-checked deserialization returning MapBlockError", "src/map_block/mod.rs, map_block.rs, node_data.rs, metadata.rs"),
  ("skip and inc_failed on error", "src/commands/*.rs")],
 observe=["rows after the run", "stderr", "the 'Skipped N' message"])

prop("C09", "The source map of an overlay is never modified",
 "Overlay never changes the input map: its files keep their exact bytes, no file is created next to it, and it is never opened for writing, in completed, failed, crashed and concurrent runs alike, with a clean or a crash-interrupted input map.",
 ["inputs", "schedules", "crash_points", "fault_sequences"],
 "every overlay invocation, faults and crashes at any operation on either map, input maps with leftover journals",
 NOT_RUN + "overlay is not tested.",
 ["src/instance.rs", "src/commands/overlay.rs", "src/map_database.rs"],
 [("input map opened with read-only flags", "src/instance.rs compute_thread"),
  ("only the read statements of the input database are used", "src/commands/overlay.rs")],
 observe=["file bytes and directory of the input map", "open flags and writes in the disk log"])

prop("C10", "Vacuum never changes map data",
 "Vacuum leaves every row of the map byte-identical, whether it completes, fails (for example on a full disk), is killed or loses power (on a disk that keeps what was synced and applies directory changes and truncations in order) at any instant; on completion the database file is valid and not larger than its content requires. A vacuum that failed reports an error and leaves the map usable.",
 ["crash_points", "fault_sequences", "inputs"],
 "every map (fragmented or not, any page size), every crash point and every fault in the copy and copy-back phases",
 NOT_RUN + "vacuum is not tested.",
 ["src/commands/vacuum.rs", "src/map_database.rs"],
 [("COMMIT before VACUUM, result reported", "src/map_database.rs vacuum; src/commands/vacuum.rs")],
 observe=["rows and file size after recovery", "stdout"])

NODES = ["src/commands/fill.rs", "src/commands/replace_nodes.rs", "src/commands/set_param2.rs", "src/block_utils.rs", "src/spatial/*.rs", "src/utils.rs"]
prop("C11", "fill, replacenodes and setparam2 change exactly the selected nodes",
 "In any history of commands, crashes and failures, a fill, replacenodes or setparam2 that reports Done has set precisely the nodes (or param2 values) that lie in the selected area (or outside it with --invert) and are of the selected node type, in every stored readable mapblock (fill: in every generated one), to the requested value. Every other node name, param1, param2, metadata, object and timer in the map is what it was; fill changes nothing in mapblocks that are not generated, and none of the three creates a mapblock.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every area (any corners, partial blocks, negative coordinates, empty selections), --invert, node filters, maps with mixed block versions and ID tables, within any history with crashes and failed runs in between",
 NOT_RUN + "do_replace, fill_area and set_param2_partial have no tests at all.",
 NODES, [("area/block overlap arithmetic and inverse iteration", "src/spatial/area.rs, src/spatial/mod.rs"),
  ("name-ID table maintenance", "src/block_utils.rs clean_name_id_map; src/map_block/name_id_map.rs; src/commands/replace_nodes.rs do_replace"),
  ("block selection", "src/utils.rs query_keys")],
 observe=["decoded rows compared with a reference model after each command of the history"])

prop("C12", "deletemeta, setmetavar and replaceininv change exactly the selected metadata",
 "In any history of commands, crashes and failures, a deletemeta, setmetavar or replaceininv that reports Done has changed the metadata, variables or inventory stacks of precisely the selected nodes, as documented (setmetavar only where the variable is already set; replaceininv keeps counts, wear and - unless asked otherwise - item metadata). Everything else, including private flags and other inventory lines, is what it was.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every area, --invert, node list, key/value, item lists and stack forms, metadata of any size, within any history with crashes and failed runs in between",
 "only do_replace on one inventory and one metadata list round trip are tested; selection by area/node and the commands themselves are not.",
 ["src/commands/delete_meta.rs", "src/commands/set_meta_var.rs", "src/commands/replace_in_inv.rs", "src/map_block/metadata.rs", "src/utils.rs"],
 [("per-node selection by area and node ID", "src/commands/delete_meta.rs, set_meta_var.rs, replace_in_inv.rs"),
  ("metadata (de)serialization", "src/map_block/metadata.rs")],
 observe=["decoded rows compared with a reference model after each command of the history"])

prop("C13", "deleteobjects and deletetimers remove exactly the selected objects and timers",
 "In any history of commands, crashes and failures, a deleteobjects or deletetimers that reports Done has removed precisely the objects (by entity name, dropped-item name and rounded position) or node timers (by node type and position) selected, in every item-entity format Minetest has used. All others keep their data and position, and nothing else in the map changes.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every area and --invert, object positions at and around node boundaries, --obj, --items with and without names, old and new item serialization, any block version, within any history",
 "get_item_name is tested on eight strings; can_delete, position rounding and the commands are not.",
 ["src/commands/delete_objects.rs", "src/commands/delete_timers.rs", "src/map_block/static_object.rs", "src/map_block/node_timer.rs"],
 [("position rounding and name matching", "src/commands/delete_objects.rs can_delete, get_item_name"),
  ("timer selection", "src/commands/delete_timers.rs")],
 observe=["decoded rows compared with a reference model after each command of the history"])

prop("C14", "deleteblocks deletes exactly the mapblocks it promises",
 "In any history of commands, crashes and failures, a deleteblocks that reports Done has removed exactly the mapblocks lying fully inside the area, or with --invert exactly those lying fully outside it. A mapblock that is only partly covered is never deleted and every surviving mapblock keeps its exact bytes.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every area including ones containing no whole block, --invert, block positions anywhere on the map, any block content including unreadable ones, within any history",
 NOT_RUN + "only the area arithmetic is tested on two boxes.",
 ["src/commands/delete_blocks.rs", "src/utils.rs", "src/spatial/area.rs", "src/spatial/vec3.rs"],
 [("contained/touching block area selection", "src/utils.rs query_keys; src/spatial/area.rs"),
  ("block key decoding", "src/spatial/vec3.rs from_block_key")],
 observe=["rows after the run"])

prop("C15", "clone copies a consistent snapshot of the source area",
 "In any history of commands, crashes and failures, a clone that reports Done has given every destination node whose source node exists the node, param1, param2 and metadata that the source had before the command began - also when source and destination overlap and whatever the offset. Nothing is copied from or into mapblocks that are not generated, and all other data stays as it was.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every area and offset (all sign combinations, overlapping, unaligned, larger than the block cache), missing, ungenerated and damaged blocks on either side, within any history",
 NOT_RUN + "clone, merge_blocks and the block cache are not tested.",
 ["src/commands/clone.rs", "src/block_utils.rs", "src/utils.rs", "src/spatial/*.rs"],
 [("processing order chosen from the offset so that no block is read after it was written", "src/commands/clone.rs"),
  ("bounded block cache", "src/utils.rs CacheMap; src/commands/clone.rs get_cached"),
  ("fragment merge and ID table merge", "src/block_utils.rs")],
 observe=["decoded rows compared with a reference model after each command of the history"])

prop("C16", "overlay copies exactly the selected part of the source map",
 "In any history of commands, crashes and failures, an overlay that reports Done has replaced exactly the selected nodes (area, inverse, or everything; with or without offset) by the nodes, param1, param2 and metadata of the source map, creating mapblocks only where whole generated source blocks are selected. Where nothing exists in the source, in partly covered missing or ungenerated destination blocks, and outside the selection, the map is what it was.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every area, --invert, offset, pairs of maps with different block versions and ID tables, missing, ungenerated and damaged blocks on either side, within any history",
 NOT_RUN + "overlay is not tested.",
 ["src/commands/overlay.rs", "src/block_utils.rs", "src/utils.rs", "src/spatial/*.rs"],
 [("whole-block copy, partial merge and inverse merge", "src/commands/overlay.rs overlay_no_offset"),
  ("offset merge", "src/commands/overlay.rs overlay_with_offset"),
  ("ID table merge", "src/block_utils.rs")],
 observe=["decoded rows compared with a reference model after each command of the history"])

prop("C17", "A rewritten mapblock loses nothing it was not told to change",
 "Every mapblock a command writes is a well-formed mapblock of the same format version that Minetest can load: each node ID has exactly one name, and everything the command does not address - flags, lighting, timestamp, node names, params, metadata of any size, inventories, objects, timers - is preserved. No well-formed mapblock of a supported version is refused as damaged. Mapblocks that lie outside the selection are not rewritten at all but keep their exact bytes, however long the history of edits.",
 ["histories", "inputs", "fault_sequences"],
 "every block content of versions 25, 27, 28, 29 (any ID table, hundreds of node types, variables and objects up to the format limits, incompressible data), every command, long histories of edits",
 "three sample files are round-tripped through the codec with few, small values; no test writes large values through the compressors or chains edits.",
 ["src/map_block/*.rs", "src/block_utils.rs", "src/commands/*.rs"],
 [("serialization of every part", "src/map_block/*.rs"),
  ("name-ID table compaction", "src/block_utils.rs clean_name_id_map"),
  ("write-back only of selected blocks", "src/commands/*.rs; src/utils.rs query_keys")],
 observe=["rows decoded by an independent decoder"])

prop("C18", "Reported counts and skips tell what was really committed",
 "The figures printed at the end of a run that reports Done - nodes replaced, filled or set, metadata, objects, timers, item stacks and variables changed, mapblocks skipped - agree with the actual difference between the map before and after. A run that did not commit never reports Done.",
 ["histories", "inputs", "schedules", "configurations"],
 "every command and selection including inverted and partly covered mapblocks, maps with damaged blocks, every schedule of the two threads",
 "fmt_big_num is tested; the counters and their delivery are not.",
 ["src/commands/*.rs", "src/instance.rs", "src/utils.rs"],
 [("per-command counters", "src/commands/*.rs"), ("blocks_failed counter", "src/instance.rs")],
 observe=["stdout compared with the difference of the maps"])

prop("C19", "The console protocol terminates, loses nothing and never disturbs the edit",
 "Under every schedule, clock and terminal behaviour a run ends within bounded simulated time, without deadlock or crash of the console thread; all messages appear exactly once and in the order they were issued, with 'Done.' last, and progress never decreases within a stage, exceeds 100 % or its total, and ends at 100 % when editing completes; the number of mapblocks found never decreases, never exceeds the mapblocks stored, covers those edited, and the one shown last is the same under every schedule; the first and last state of each stage are shown, the display is renewed while slow work goes on, and updates and questions reach the terminal when issued, not later. A slow or stalled terminal changes neither the outcome nor the atomicity of the edit; a broken one may end the run but never leaves a partial edit.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of the compute and console threads, stalls and clock jumps of any length, slow, partial and failing terminal writes and reads",
 NOT_RUN + "the message loop, the status mutex and the channels are never executed by a test.",
 ["src/cmd_line.rs", "src/instance.rs", "src/utils.rs"],
 [("event channel + disconnect as end of run", "src/cmd_line.rs run_cmd_line; src/instance.rs status_link"),
  ("shared status under a mutex", "src/instance.rs InstStatus")],
 observe=["byte stream written to stdout with simulated time stamps", "thread states"])

prop("C20", "The result depends only on the map and the command",
 "Running the same command on the same map yields the same map content and the same report regardless of thread schedule, timing, clock values, hash seeds, page size, cache size and free-list layout of the database, order of rows in the table, and how often the page cache spills.",
 ["schedules", "configurations", "inputs"],
 "pairs of runs of one command over different schedules, clocks, hash seeds, page and cache sizes, row orders and file layouts",
 NOT_RUN + "no test runs a command, let alone twice under different schedules.",
 ["src/commands/*.rs", "src/utils.rs", "src/instance.rs", "src/map_block/metadata.rs"],
 [("block processing order and cache must not matter", "src/commands/clone.rs, overlay.rs; src/utils.rs"),
  ("hash-map iteration order must not matter", "src/map_block/metadata.rs")],
 observe=["decoded rows and stdout of both runs"])

prop("C21", "Block keys and positions convert one-to-one",
 "Every block position within the representable range corresponds to exactly one database key and back.",
 ["inputs"], "all 4096^3 block positions and all keys",
 "sixteen pairs are sampled.", ["src/spatial/vec3.rs"], [("from_block_key/to_block_key", "src/spatial/vec3.rs")])
prop("C22", "Numbers and durations are formatted within their rounding error",
 "Abbreviated counts and durations shown to the user are within the rounding error of the printed precision for every value.",
 ["inputs"], "all u64 counts, all durations", "ten values are sampled.", ["src/utils.rs"], [("fmt_big_num, fmt_duration", "src/utils.rs")])
prop("C23", "Exactly the names that follow Minetest's naming rules are accepted",
 "The name check accepts 'air', 'ignore' and modname:itemname with the documented character sets and nothing else.",
 ["inputs"], "all strings", "the name check is untested.", ["src/instance.rs"], [("is_valid_name", "src/instance.rs verify_args")])

prop("C24", "Nothing but the rows of the map is touched",
 "Whatever commands, crashes, full disks and failures follow each other, MapEditr changes nothing but the rows of table 'blocks' in the map it was given. The rest of that database - schema, other tables, indexes, views, page size, encoding, auto-vacuum, journal mode, cache size, user version, application id, the storage types of keys and data - stays as it was, no other file is written, created, renamed, deleted or given other permissions, and a run that ends normally leaves no file behind.",
 ["histories", "inputs", "configurations", "crash_points", "fault_sequences"],
 "every history of commands (vacuum included) on databases with other tables, settings and neighbouring files, with crashes, failed operations and full disks at any point",
 NOT_RUN + "and no test looks at the directory or at the rest of the database.",
 ["src/map_database.rs", "src/instance.rs", "src/commands/vacuum.rs"],
 [("only four statements on table blocks are ever prepared, besides BEGIN, COMMIT and VACUUM", "src/map_database.rs")],
 [("map file", "SQLite database that other software may share", "world/map.sqlite")],
 ["schema, settings and other tables of the recovered database", "directory and file bytes", "write, create, delete, rename and chmod calls"])

prop("C25", "Memory need does not grow with the size of the map",
 "A command that reads or rewrites a map of any number of mapblocks completes within a fixed amount of memory plus a few bytes per mapblock key: it holds a handful of mapblocks at a time, and clone and overlay at most a fixed number of remembered ones (about a thousand). An edit of a large world is never refused, aborted or cut short for want of memory that the map's size would demand.",
 ["inputs", "fault_sequences", "schedules"],
 "every command on maps of thousands of mapblocks (more than any cache holds), every allocation beyond a fixed heap limit failing, any schedule",
 NOT_RUN + "and none has more than one mapblock.",
 ["src/utils.rs", "src/commands/clone.rs", "src/commands/overlay.rs", "src/commands/*.rs", "src/map_database.rs"],
 [("bounded block cache", "src/utils.rs CacheMap; BLOCK_CACHE_SIZE in src/commands/clone.rs, overlay.rs"),
  ("mapblocks are loaded one at a time by key", "src/utils.rs query_keys; src/commands/*.rs")],
 observe=["heap bytes in use at every allocation", "completion under the limit"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
