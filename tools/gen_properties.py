#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "A writer dying at any instant leaves the shared log consistent",
     "If a process dies at any instant while it holds or is using a transport, everyone who uses that transport afterwards (newly opened, already open, or already waiting on it) finds exactly the frames that were committed before the death, in order and with intact contents and sequence numbers, except that the oldest frames may be gone if the dead process was making room or clearing. A frame is either completely visible or not visible at all, nothing the dead process had allocated but not committed ever becomes visible, and the transport remains fully usable for reading and writing.",
     ["crash_points", "histories"],
     "every crash point (each machine instruction) of every transport operation, in every reachable ring layout, as seen by every kind of later user",
     "The unit tests kill a process at two hand-picked points; they cannot enumerate each store of each operation in each ring layout.",
     ["src/transport.c", "src/mtx.c", "src/robust.c", "include/a0/transport.h"],
     [("double-buffered state page, one-byte commit flip", "src/transport.c:a0_transport_commit"),
      ("working page restored from committed page on lock/unlock", "src/transport.c:a0_transport_lock"),
      ("eviction commits before space is reused", "src/transport.c:a0_transport_remove_head")],
     ["a0_transport_lock, jump/step/frame, seq_low/seq_high, alloc, commit"])

prop("C02", "The transport is a gap-free bounded log that evicts only from the old end",
     "For any sequence of allocations, commits, abandoned allocations, clears, resizes and lookups, the frames readable from a transport are exactly the most recent committed ones, in commit order, byte-for-byte as written, with sequence numbers increasing by one without gap or reuse, each aligned and inside the arena and never overlapping another. The oldest frames are evicted only when the new frame needs their space or the wrap to the start of the arena, the eviction forecast and the used-space report are exact, and a request that cannot fit is refused without losing anything. Moving the cursor forward or backward visits every retained frame exactly once in order, a cursor whose frame is gone is reported as such and resumes at the oldest retained frame.",
     ["inputs", "histories"],
     "every arena size, every sequence of operations with every frame size (including zero, exact-fit, and absurdly large)",
     "Unit tests use a few fixed sizes and short scripts; the interesting layouts (exact fit, wrap, wrap plus multi-frame eviction, resize between) depend on long histories.",
     ["src/transport.c", "include/a0/transport.h", "src/transport.cpp"],
     [("slot search and wrap", "src/transport.c:a0_transport_find_slot"), ("eviction", "src/transport.c:a0_transport_evict"),
      ("high water mark", "src/transport.c:a0_transport_remove_head"), ("cursor stepping", "src/transport.c:a0_transport_step_next")],
     ["all a0_transport_* calls and a0::TransportLocked methods"])

prop("C03", "The shared mutex excludes, survives owner death and never gets stuck",
     "Under every interleaving of threads and processes and every crash point, at most one live participant holds a mutex; locking succeeds only when it is free or its owner died, a death while holding is reported to exactly the next acquirer, and only the holder can unlock. Whenever the mutex is free or its owner is dead, a blocked locker is eventually granted it, a try-lock on a held mutex reports busy without blocking, re-locking by the holder is reported as a deadlock, and a timed lock never times out early nor waits on past its deadline.",
     ["schedules", "crash_points"],
     "every interleaving at the granularity of single shared-memory accesses and system calls, and every crash point, of any mix of lock, timed lock, try-lock, unlock and thread death",
     "Tests run a handful of free-running threads; the windows between the compare-and-swap, the kernel call and the robust-list update are hit only by luck.",
     ["src/mtx.c", "src/robust.c", "src/ftx.h", "src/tid.c", "include/a0/mtx.h"],
     [("compare-and-swap fast path plus priority-inheritance futex", "src/mtx.c:a0_mtx_timedlock_robust"),
      ("robust list registration", "src/robust.c"), ("owner-died reporting", "src/mtx.c")],
     ["a0_mtx_lock/timedlock/trylock/unlock results"])

prop("C04", "Condition waits never lose a wakeup and always come back holding the lock",
     "Under every interleaving and crash, a signal wakes at least one and a broadcast wakes all of the participants already waiting on the condition, and a wait returns only with the mutex held by the caller again, whether woken, timed out or after another owner's death. A timed wait reports a timeout only after its deadline has passed, and an invalid deadline is refused without giving up the mutex. The one-shot event and the countdown latch built on it release every waiter once set or counted down, stay released, and never release anyone before.",
     ["schedules", "crash_points"],
     "every interleaving (single shared access granularity) of waiters, signallers, broadcasters, lockers, deadlines and deaths, for conditions, events and latches",
     "Lost wakeups need a notifier to hit a window of a few instructions between releasing the mutex and sleeping; sleeping-based tests never enumerate it.",
     ["src/mtx.c", "src/event.c", "src/latch.c", "src/ftx.h", "include/a0/event.h", "include/a0/latch.h"],
     [("sequence counter read before unlocking, requeue to the mutex on wake", "src/mtx.c:a0_cnd_timedwait"),
      ("counter bump and requeue", "src/mtx.c:a0_cnd_wake"), ("predicate loop", "src/event.c:a0_event_timedwait")],
     ["a0_cnd_*, a0_event_*, a0_latch_* results"])

prop("C05", "Concurrent users of a transport see only committed, totally ordered frames",
     "Under every interleaving of any number of processes locking, writing, reading, waiting and shutting down one transport, the critical sections are serialised, so every frame successfully committed gets its own next sequence number, none is lost or duplicated, and nobody ever observes an uncommitted or half-written frame. A waiter whose condition is made true by a commit or eviction is woken and finds it true, a timed wait never gives up early or sleeps past its deadline, and shutting a handle down releases all of that handle's waiters with a shutdown error, refuses later waits on it, and disturbs no other handle.",
     ["schedules", "histories"],
     "every interleaving (single shared access granularity) of two or three participants running any of the transport operations",
     "The tests run free threads for a moment and compare a final count; they cannot show that a specific interleaving of commit and wait is impossible.",
     ["src/transport.c", "src/mtx.c", "include/a0/transport.h"],
     [("exclusive lock around every access", "src/transport.c:a0_transport_lock"), ("broadcast on commit", "src/transport.c:a0_transport_commit"),
      ("wait counter and shutdown handshake", "src/transport.c:a0_transport_shutdown")],
     ["a0_transport_* results"])

prop("C06", "Readers deliver each packet once, in order, from the promised starting point",
     "A reader started at the oldest, the most recent, or only new packets begins at exactly that point, and afterwards either delivers every still-retained packet in order exactly once, or (in newest mode) always the newest unread one; only evicted or cleared packets may be missed, and none is delivered twice, out of order, or altered. This holds identically for the polling, blocking, timed-out, zero-copy, copying and background-thread readers, for the publish/subscribe layer on top, and at every interleaving with writers; a readiness query is true exactly when an immediate read succeeds, and a read with nothing to deliver reports that rather than blocking or repeating.",
     ["histories", "schedules", "configurations"],
     "every start mode x iteration mode x reader flavour, every history of writes, evictions and clears before and between reads, every interleaving with writers",
     "Tests cover each mode with one fixed short script; eviction or clearing between creation, first read and later reads is barely touched, and the publish/subscribe tests are not even built here.",
     ["src/reader.c", "src/reader.cpp", "src/pubsub.c", "src/pubsub.cpp", "src/transport.c"],
     [("first-read logic", "src/reader.c:a0_reader_sync_zc_read_helper"), ("background thread start", "src/reader.c:a0_reader_zc_thread_handle_first_pkt"),
      ("stepping", "src/reader.c:a0_reader_zc_thread_handle_next_pkt")],
     ["reader callbacks and return values"])

prop("C07", "Closing is prompt, final and harmless to others",
     "Closing a background reader, subscriber, server, client, watcher, listener, discovery or deadman handle from another thread always returns, at whatever moment it is called; once it has returned, none of its callbacks is running or will ever run again. The close neither disturbs other handles on the same topic nor leaves the topic locked, and closing from inside the handle's own callback is refused instead of hanging.",
     ["schedules"],
     "every interleaving of close with the background thread (including before it has started and while it is inside a callback) and with writers",
     "Tests close idle readers; the interleaving of close with start-up, delivery and blocking waits is chosen by the operating system.",
     ["src/reader.c", "src/transport.c", "src/deadman_mtx.c", "src/deadman.c", "src/discovery.c", "src/rpc.c", "src/prpc.c", "src/log.c", "src/cfg.c", "src/pubsub.c"],
     [("start event, shutdown, join", "src/reader.c:a0_reader_zc_close"), ("shutdown handshake", "src/transport.c:a0_transport_shutdown"),
      ("in-operation flag", "src/deadman_mtx.c:a0_deadman_mtx_shutdown")],
     ["close return, callbacks"])

prop("C08", "A deadman has one owner and its loss is seen by every observer",
     "Under every interleaving and crash point a deadman is owned by at most one live participant; taking succeeds only when it is not owned, reports the previous owner's death to exactly the next taker, and only the owner can release it. Every blocked taker gets its turn once the deadman is free, waiting-until-taken returns only while or after it is taken with the token identifying that ownership, waiting-until-released returns exactly when the ownership named by the token has ended by release or death, and the state query never reports an ownership that has not begun or has already ended. Interrupting a handle releases all its blocked calls and affects nobody else.",
     ["schedules", "crash_points"],
     "every interleaving (single shared access granularity) and crash point of takers, observers, releasers and interrupters",
     "The tests use sleeps to order two threads; the races between waiters, release and death need exact interleavings.",
     ["src/deadman_mtx.c", "src/deadman.c", "src/deadman.cpp", "src/robust.c", "src/ftx.h"],
     [("compare-and-swap of the owner word", "src/deadman_mtx.c:a0_deadman_mtx_trylock_impl"), ("token increment", "src/deadman_mtx.c"),
      ("broadcast on change", "src/deadman_mtx.c:a0_deadman_mtx_unlock")],
     ["a0_deadman_* and a0_deadman_mtx_* results"])

prop("C09", "Packets survive serialisation, copying and random access unchanged",
     "For every packet (any number of headers in any number of blocks, repeated keys, empty strings, empty or binary payloads), serialising and then deserialising, deep-copying, or reading fields directly out of the serialised form yields the same id, the same multiset of headers and the same payload, and the reported sizes are exact. Looking up headers by key visits every match exactly once and then reports the end, and a header index out of range is refused. If space for the result cannot be obtained the error is reported and nothing is written.",
     ["inputs", "programs"],
     "every packet shape and content, every composition of the packet operations",
     "Tests round-trip a couple of fixed packets.",
     ["src/packet.c", "src/packet.cpp", "include/a0/packet.h"],
     [("serialised index", "src/packet.c:a0_packet_serialize"), ("header iterators", "src/packet.c:a0_packet_header_iterator_next_match")],
     ["a0_packet_*, a0_flat_packet_*, a0::Packet"])

prop("C10", "Each write adds exactly one packet carrying truthful standard headers",
     "Whatever stack of middleware a writer was built from by pushing, wrapping and composing, a successful write runs every stage once in the documented order and appends exactly one packet with the user's id, headers and payload plus the stages' headers; a write that fails or is declined at any stage (including a packet too large for the arena) reports so, appends nothing and leaves the transport unlocked and unharmed. Across all writers sharing a topic, under every interleaving, the transport sequence header counts packets in commit order, the writer sequence header counts from zero within each writer (a refused write may use up a number), the writer id is constant per writer and distinct between writers, and the monotonic timestamp never decreases along the topic.",
     ["programs", "schedules", "inputs"],
     "every composition of middleware, every packet size, every interleaving of concurrent writers",
     "The writer tests are not built in this configuration at all, and would only try a few stacks on one thread.",
     ["src/writer.c", "src/middleware.c", "src/writer.cpp", "src/middleware.cpp", "src/transport.c", "src/pubsub.c"],
     [("two-phase chain traversal", "src/writer.c:a0_writer_write"), ("header stages in the locked phase", "src/middleware.c"),
      ("composition", "src/middleware.c:a0_middleware_compose")],
     ["a0_writer_*, a0_middleware_*, packets read back"])

prop("C11", "Configuration updates are atomic: no lost patch, one initial value",
     "For any number of concurrent users of a configuration topic and any interleaving, a write-if-empty takes effect for exactly one of them and each is told the truth about whether it was theirs; every merge patch is applied exactly once to the value current at that moment, so the final value equals the patches applied one after another in commit order. A read returns the latest complete value (or says there is none, or waits for the first one up to its deadline), a watcher is told the current value if there is one and ends up having seen the latest value, and a patch or value that cannot be processed changes nothing and blocks nobody.",
     ["schedules", "inputs", "histories"],
     "every interleaving of writers, patchers and watchers, every JSON document and patch",
     "The configuration tests are not built here and never run two patchers against each other.",
     ["src/cfg.c", "src/cfg.cpp", "src/middleware.c", "src/writer.c"],
     [("check and write under one transport lock", "src/middleware.c:a0_write_if_empty"), ("merge under the lock", "src/middleware.c:a0_json_mergepatch")],
     ["a0_cfg_*, a0::Cfg, a0::CfgWatcher"])

prop("C12", "Every RPC reply reaches its own requester, once",
     "For any number of clients and servers on a topic whose file is large enough that nothing is overwritten before it is read, and any interleaving of requests, replies and cancellations, a server sees each request sent while it is up exactly once and unaltered, and each reply is handed to the callback of exactly the request it answers, at most once, unaltered and usable for as long as the user keeps it; replies to cancelled, unknown or already answered requests are dropped. A cancellation reaches the servers with the id of the request, suppresses that request's callback and no other, and makes a blocking caller of that request return with a cancelled error; a blocking call returns its own reply or its timeout, never another's.",
     ["schedules", "histories"],
     "every interleaving of sends, replies (also duplicate, foreign or reordered), cancellations and deadlines among several clients and servers",
     "The RPC tests are not built here, and only use one client and one server in lock step.",
     ["src/rpc.c", "src/rpc.cpp", "src/map.c", "src/reader.c", "src/writer.c"],
     [("request id to callback table under a mutex, filled before sending", "src/rpc.c:a0_rpc_client_send"), ("pop on reply", "src/rpc.c"),
      ("private reader for blocking calls", "src/rpc.c:a0_rpc_client_send_blocking_timeout")],
     ["a0_rpc_*, a0::RpcServer, a0::RpcClient"])

prop("C13", "A progress stream delivers its own updates in order until done or cancelled",
     "For any number of clients and servers on a progressive-call topic whose file is large enough that nothing is overwritten before it is read, each connection's callback receives exactly the updates sent for that connection, unaltered and in the order sent, with the final one and only the final one marked done, and nothing after it. Cancelling reaches the servers with the connection's id and stops that connection's callbacks without affecting others; updates for cancelled, finished or unknown connections are dropped.",
     ["schedules", "histories"],
     "every interleaving of connects, updates, completions and cancellations among several clients and servers",
     "The progressive-call tests are not built here, and only use one connection at a time.",
     ["src/prpc.c", "src/prpc.cpp", "src/map.c", "src/reader.c", "src/writer.c"],
     [("connection id to callback table", "src/prpc.c"), ("get on progress, pop on complete", "src/prpc.c")],
     ["a0_prpc_*, a0::PrpcServer, a0::PrpcClient"])

prop("C14", "Log listeners get exactly the messages at or above their level",
     "For every mix of loggers, levels and listeners on a topic whose file is large enough that nothing is overwritten before it is read, a listener receives each message published at its level or more severe exactly once and in publication order, and none that is less severe or carries no valid level; the level a message was logged with is the level every listener sees, and payloads and user headers are unaltered.",
     ["inputs", "histories", "configurations"],
     "every logging level, listener level, start mode, and sequence of messages including foreign packets without a level",
     "The log tests are not built here.",
     ["src/log.c", "src/log.cpp", "src/reader.c"],
     [("level header and filter", "src/log.c:a0_log_listener_onpacket")],
     ["a0_logger_*, a0_log_listener_*, a0::Logger, a0::LogListener"])

prop("C15", "Topics map to predictable, separate files under the configured root",
     "For every topic name, template and environment setting, a topic resolves to the template with the name substituted, placed under the configured root unless absolute, so that the same name always meets at the same file and different protocols or different names never share one. Empty or absolute topic names, templates without a placeholder, and missing or relative roots are refused, and path arguments mean the same file in every file operation.",
     ["inputs", "configurations"],
     "every topic name, template and root setting",
     "Tests try a few fixed names.",
     ["src/topic.c", "src/env.c", "src/file.c", "src/topic.cpp", "src/pubsub.c", "src/rpc.c", "src/prpc.c", "src/log.c", "src/cfg.c", "src/deadman.c"],
     [("template expansion", "src/topic.c:a0_topic_path"), ("root prefixing", "src/file.c:a0_abspath"), ("environment defaults", "src/env.c")],
     ["a0_topic_path, a0_file_t.path, files created on disk"])

prop("C16", "Opening a path gives everyone the same fully formed file",
     "However many processes open the same path at once, and wherever any of them dies or fails, all that succeed map the same file, which at no moment is visible under its name with other than its full requested size, mode and zeroed content; an existing file is never truncated, replaced or re-moded. A failing open reports its error, returns nothing to close and leaves behind no file, mapping or descriptor, and a handle can be closed exactly once. A file opened read-only is never modified, and what is visible through it is only committed data.",
     ["schedules", "crash_points", "fault_sequences"],
     "every interleaving of openers at system-call granularity, every failing system call, every crash point, every open mode",
     "Tests open from one process; races between creating, sizing and publishing the file need exact interleavings and injected faults.",
     ["src/file.c", "src/file.cpp", "src/transport.c"],
     [("temporary file linked into place, retry on exists", "src/file.c:a0_file_open"), ("private mapping for read-only", "src/file.c")],
     ["a0_file_open/close, directory contents, file contents"])

prop("C17", "Recursive removal and listing touch exactly the named tree",
     "For every directory tree, removing a path deletes that file or the whole tree under it and nothing else; symbolic links are removed, never followed. Listing yields every entry of the directory exactly once with its correct full path and type, without the self and parent entries. Errors such as a missing path are reported rather than ignored.",
     ["inputs", "histories"],
     "every tree shape (nesting, links to outside, links to directories, odd names, trailing slashes, relative and absolute paths)",
     "Tests remove one tiny tree; escaping the tree needs links and unusual names.",
     ["src/file.c", "src/file.cpp"],
     [("lstat and entry type before descending", "src/file.c:a0_file_remove_all"), ("dot entries skipped", "src/file.c:a0_file_iter_next")],
     ["a0_file_remove, a0_file_remove_all, a0_file_iter_*"])

prop("C18", "Discovery announces every matching file exactly once",
     "A discovery on a glob pattern calls back with the absolute path of every matching file exactly once, whether the file existed before, appears while the discovery is starting, or is created later at any depth, including in directories that are created (or removed and created again) later and in any order; it never announces a path that does not match. This holds for every interleaving of file creation with the discovery's own scanning.",
     ["schedules", "histories"],
     "every history of creating and removing files and directories, every interleaving with the scan and the change notifications",
     "Tests create a few files with sleeps; a file created between watching and scanning a new directory is a matter of luck.",
     ["src/discovery.c", "src/discovery.cpp", "src/pathglob.c"],
     [("watch before scan", "src/discovery.c:a0_discovery_watch_path"), ("dedupe table", "src/discovery.c:a0_discovery_announce")],
     ["discovery callback"])

prop("C19", "Path patterns match exactly the paths they describe",
     "For every pattern and path, a match is reported exactly when the path can be split so that each literal segment is equal, each star stands for any run of characters within its segment, and each double-star segment other than the last stands for any number (including zero) of whole segments. Relative patterns and paths are taken under the configured root, and malformed, empty or overlong inputs are refused rather than misread.",
     ["inputs"],
     "every pattern and every path",
     "Tests check a table of examples.",
     ["src/pathglob.c", "src/pathglob.cpp"],
     [("segment splitting", "src/pathglob.c:a0_pathglob_init"), ("backtracking match", "src/pathglob.c:a0_pathglob_match")],
     ["a0_pathglob_match, a0::PathGlob"])

prop("C20", "The map behaves as a finite map for every history and hash",
     "After any sequence of insertions, overwrites, removals, takes and lookups, with any key and value sizes, any hash (however colliding) and any number of entries, the map contains exactly the last value put for each key not since removed, reports its size exactly, iterates over each entry exactly once, and reports a missing key on lookup, removal and take. The provided key comparisons distinguish every pair of different keys, whatever their distance or size, and the provided hashes agree on equal ones.",
     ["histories", "inputs"],
     "every sequence of operations, every hash and key distribution",
     "Tests insert a regular sequence of integers; probe chains with wrap-around and back-shifting need adversarial collisions and orders.",
     ["src/map.c", "src/cmp.c", "include/a0/map.h", "include/a0/cmp.h"],
     [("robin-hood insertion", "src/map.c:a0_map_put"), ("backward shift", "src/map.c:a0_map_del"), ("growth", "src/map.c:a0_map_grow")],
     ["a0_map_*"])

prop("C21", "Times convert, add and print without loss",
     "For every representable time and offset, formatting and then parsing a monotonic or wall time gives the same instant, the text has the documented fixed shape, adding an offset is exact and carries correctly in both directions, comparisons agree with the instants, and text that is not a valid time is refused.",
     ["inputs"],
     "every time value, every offset, every string",
     "Tests check a few values.",
     ["src/time.c", "src/clock.h", "src/strconv.c", "src/time.cpp"],
     [("decimal conversion", "src/strconv.c"), ("carry", "src/clock.h:a0_clock_add"), ("RFC 3339 format", "src/time.c")],
     ["a0_time_mono_*, a0_time_wall_*, a0::TimeMono, a0::TimeWall"])

prop("C22", "A log written by the previous format version opens with its frames intact",
     "Opening an arena that was written by the previous on-disk version (0.2), in whatever committed state its ring was left and whichever of its two pages is current, preserves every committed frame with its order, sequence number and contents; whoever opens it later finds it upgraded, and from then on it behaves as any other transport, except that the space in use may be reported as up to the whole arena. An arena of the current version, or a fresh one, is never reinterpreted as the old version. (Openers come one after another: the upgrade itself takes no lock.)",
     ["inputs", "histories", "configurations"],
     "every committed state of the old layout, either state page being current, any number of openers",
     "Tests convert a single prepared arena.",
     ["src/transport.c"],
     [("version sniffing and field migration", "src/transport.c:a0_transport_init")],
     ["a0_transport_init and reads"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
