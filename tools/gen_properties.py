#!/usr/bin/env python3
"""Source of properties.jsonl (kept in a form that is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, **({"state": [dict(zip(("name","meaning","where"), s)) for s in state]} if state else {}),
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

R="src/gutil_ring.c"
prop("C01","Ring buffer is a faithful bounded double-ended queue",
 "Whatever sequence of operations is applied to a ring buffer, it behaves as a plain sequence: what is put at either end comes out in the right order from either end, the size, indexed access and flattened view always show exactly the current elements, and a read or drop beyond the contents takes only what is there. Reserving, compacting, flattening and internal growth or wrap-around never lose, duplicate, reorder or corrupt an element. Once a maximum size is set the ring never holds more than that many elements, a put is refused exactly when it is full, the can-put and reserve answers agree with that limit, and lowering the limit drops the oldest elements.",
 ["histories","configurations"],"every operation history on rings of any reserved size and any maximum size (including zero, unlimited, limits below the reserved size, and limits changed after growth), over every internal buffer layout",
 "unit tests run about a dozen fixed sequences; the failures live in particular combinations of wrap-around offset, fill level, compaction and limit",
 [R],[("circular indexing","src/gutil_ring.c:gutil_ring_put/put_front/get/get_last/drop/drop_last"),("buffer relayout","src/gutil_ring.c:gutil_ring_reserve/compact/flatten"),("limit","src/gutil_ring.c:gutil_ring_reserve/can_put/set_max_size")],
 ["return values of the ring API, gutil_ring_size, gutil_ring_data_at, gutil_ring_flatten"],[("start/end/alloc","layout of the circular buffer","src/gutil_ring.c:struct gutil_ring")])
prop("C02","Ring buffer releases each element it discards exactly once",
 "If a ring has a free function, every element the ring itself discards (clear, drop from either end, lowering the limit, last unref) is passed to it exactly once, in order of removal; an element handed back to the caller or still stored is never passed to it. When the free function is called the element is already out of the ring, so the callback may itself use the ring (put, get, drop, clear, query) without an element being freed twice, lost or left behind.",
 ["histories","programs"],"every history of operations, including operations made from inside the free function at any nesting the client chooses",
 "tests only count calls of the free function on a few straight-line sequences; re-entrant use is not tested",
 [R],[("free function invocation","src/gutil_ring.c:gutil_ring_clear/drop/drop_last/set_max_size/unref")],["calls of the client's free function","gutil_ring_size and data_at during those calls"])

Q="src/gutil_idlequeue.c"
prop("C03","Idle queue runs each queued call at most once, in order, never inline",
 "A call added to an idle queue is never invoked from within the add itself; it is invoked from the default main loop (whatever context was current when it was added), at most once, in the order of addition, and every call not cancelled by then is invoked by the next iteration of that loop. Calls added to a queue from within one of its running calls wait for a later iteration. A tag is reported as present exactly while a call with that tag is in the queue, neither started nor withdrawn yet.",
 ["schedules","histories","programs"],"every interleaving of adding, cancelling, querying and loop iteration, including from inside running and destroy callbacks, with any mix of tags and several queues",
 "tests execute a few fixed schedules; the order and re-entrancy cases multiply with every callback that touches the queue",
 [Q],[("dispatch and deferred items","src/gutil_idlequeue.c:gutil_idle_queue_source_dispatch/gutil_idle_queue_run"),("list maintenance","src/gutil_idlequeue.c:gutil_idle_queue_add_tag_full/cancel_tag/cancel_all")],
 ["client callbacks and gutil_idle_queue_contains_tag"])
prop("C04","Cancelled or freed idle calls never run; every destroy runs exactly once",
 "Cancelling by tag withdraws the oldest waiting call with that tag and says whether there was one; cancelling everything, freeing the queue or dropping its last reference withdraws all of them, and a withdrawn call is never invoked afterwards. The destroy function given with a call is invoked exactly once: after the call has run, or when it is withdrawn, or at once if the call cannot be queued. All of this holds also when the cancellation, free or last unref comes from inside one of the queue's own run or destroy callbacks, and the queue leaves no memory behind.",
 ["schedules","histories","programs"],"every history in which run and destroy callbacks may themselves add, cancel, query, ref, unref or free the queue",
 "tests cover a handful of fixed re-entrant patterns; freeing a queue from its own callback at each possible position is not covered",
 [Q],[("cancel paths","src/gutil_idlequeue.c:gutil_idle_queue_cancel_tag/cancel_all/free/unref"),("item destruction","src/gutil_idlequeue.c:gutil_idle_queue_item_destroy")],
 ["client run and destroy callbacks"])

I="src/gutil_idlepool.c"
prop("C05","Idle pool releases every held pointer exactly once, in order, later",
 "Every pointer added to an idle pool is released exactly once with the release function (or reference drop) appropriate to it, in the order of addition, never inside the add call but on the next idle iteration of the loop it is scheduled in, or earlier when the pool is drained, destroyed or last unreferenced. Adding with the reference-taking variants leaves the caller's own reference intact, adding without takes it over, and in both cases the added pointer is returned. Adding nothing, or with no release function, changes nothing; adding without naming a pool uses the calling thread's default pool.",
 ["histories","schedules","programs"],"every sequence of add (of every kind), drain, destroy, unref and loop iteration, including release functions that add to, drain or query the same pool",
 "tests check a few additions of each kind and one drain; interleavings and re-entrant drains are not enumerated",
 [I],[("item queue and drain","src/gutil_idlepool.c:gutil_idle_pool_add/drain/idle callback"),("typed adds","src/gutil_idlepool.c:gutil_idle_pool_add_*")],["client destroy functions, GObject/GVariant/GBytes/GPtrArray reference drops"])
prop("C06","Idle pools: sharing, lifetime and confinement to their own loop",
 "Asking for a shared pool through the same pointer yields the same live pool until it goes away, whereupon the pointer is reset and a new pool can be made; the default pool is per thread. A shared pool stays alive while it holds something to release and disappears once emptied and unreferenced. While a pool holds anything to release there is exactly one idle callback scheduled for it, in the main context which was current for the thread when the pool became non-empty; it never disturbs sources that belong to anyone else, in any context, and draining or destroying it leaves nothing scheduled. The pool of a finished thread still releases what it holds.",
 ["histories","schedules","configurations"],"all orders of get/ref/unref/add/drain/destroy/iterate, with the pool filled under the default or a thread-default main context, and foreign sources present in either",
 "tests use only the default context and two fixed sharing patterns",
 [I],[("shared pointer reset","src/gutil_idlepool.c:gutil_idle_pool_get/destroy/finalize"),("scheduling","src/gutil_idlepool.c:gutil_idle_pool_schedule/drain")],["returned pool pointers and shared variable, GLib sources in both contexts"])

prop("C07","Integer history keeps the right window and reports the time-weighted average",
 "An integer history holds exactly the newest samples that fit both its size limit and its time interval at the moment it is asked, replaces the newest sample when a new one arrives with no time elapsed, and reports their number and time span accordingly. The median it reports is the default when empty, the only value when there is one, and otherwise the average over time of the value changing linearly from each sample to the next, in integer arithmetic (to within a few units where the integral may not fit into 64 bits); it always lies between the smallest and the largest sample, for all values of the integer range without overflow. Adding returns the same median; clearing empties it.",
 ["inputs","histories"],"every sequence of samples over the full int range, any non-decreasing clock and any size limit and interval, including wrap-around of the storage",
 "tests use two fixed sample sequences with a fake clock",
 ["src/gutil_history.c"],[("window flush","src/gutil_history.c:gutil_int_history_flush"),("weighted median","src/gutil_history.c:gutil_int_history_median_at")],["gutil_int_history_size/interval/median/add return values"])
prop("C08","Mutable integer array behaves as a plain sequence of integers",
 "Whatever edits are applied, an integer array's count and contents are exactly those of a sequence subjected to the same appends, prepends, inserts, single, range and fast removals, size changes (the value of new slots being unspecified); out-of-range positions and counts are clamped or ignored and never touch other elements. Sorting yields the correctly ordered permutation for every pair of int values in either direction; membership, search and equality agree with the contents. Freeing without releasing, or freeing to an immutable array, hands over exactly the contents.",
 ["inputs","histories"],"every history of edits with arbitrary values (including extreme ints) and arbitrary positions and counts (including out of range)",
 "tests use one or two short arrays with small values",
 ["src/gutil_intarray.c"],[("edits","src/gutil_intarray.c:gutil_int_array_insert*/remove*/set_count"),("sorting","src/gutil_intarray.c:gutil_int_array_sort*")],["array data and count, function results"])
prop("C09","Shared immutable integer arrays: contents fixed, ownership exact",
 "An immutable integer array, however created (copied, taken, wrapped around static or caller-managed memory, or as a slice of another one), always presents the same sequence, with slices clamped to the parent and keeping it alive. The memory it was given is released exactly once, with the release function it came with, when the last reference anywhere to it is dropped, and not before. Extracting the data from the last reference hands out memory the caller owns with the right contents and releases the rest; extracting from a shared one copies.",
 ["histories","inputs"],"every history of creation, slicing (any offset and count), referencing, unreferencing and extraction over chains of slices",
 "tests cover a few creation paths and slice bounds, not their combinations or extreme counts",
 ["src/gutil_ints.c"],[("wrapping and slices","src/gutil_ints.c:gutil_ints_new_take/new_static/new_with_free_func/new_from_ints"),("extraction","src/gutil_ints.c:gutil_ints_unref_to_data")],["gutil_ints_get_data/get_size contents, client free function calls, heap balance"])
prop("C10","Integer array comparison is a total order consistent with equality and hash",
 "Equality of immutable integer arrays holds exactly when they have the same length and elements; equal arrays have equal hashes; comparison returns zero exactly for equal arrays, is antisymmetric and transitive, and orders a proper prefix before its extension. An absent array equals only an absent array, and orders before any present one. Searching reports exactly whether an element occurs, and where first.",
 ["inputs"],"all pairs and triples of arrays, whether separate or slices of shared storage",
 "tests compare a few fixed arrays; order laws quantify over triples",
 ["src/gutil_ints.c"],[("comparison","src/gutil_ints.c:gutil_ints_equal/hash/compare/find/contains")],["function results"])
S="src/gutil_strv.c"
prop("C11","String vector edits yield exactly the edited sequence and own every string",
 "Appending one or several strings, removing at a position, removing one or all occurrences, removing duplicates (keeping the first), stripping and sorting return a vector whose strings are exactly those of the edited sequence, still terminated; an absent vector counts as empty and out-of-range removals change nothing. Every removed string is released exactly once (unless the caller asked to keep it), no surviving string is touched, and nothing leaks or is used after release, even when the argument string is itself an element of the vector.",
 ["inputs","histories"],"every sequence of edits on vectors of any length with repeated, empty and missing strings and any position",
 "tests check short fixed vectors; ownership is not checked at all",
 [S],[("edits","src/gutil_strv.c:gutil_strv_add/addv/remove_at/remove/remove_dups/strip/sort")],["vector contents, heap balance under address checking"])
prop("C12","String vector searching, ordering and comparison agree with the contents",
 "Length, indexed access, last element, first and last occurrence, membership and equality of string vectors are exactly those of the sequence, with an absent vector as the empty one. Sorting gives the byte-order sorted permutation, ascending or descending, and binary search on a vector sorted that way finds an occurrence exactly when there is one and reports a position that holds the string.",
 ["inputs"],"all vectors and search strings, both directions",
 "tests use fixed vectors of at most five strings",
 [S],[("search and sort","src/gutil_strv.c:gutil_strv_find/find_last/contains/equal/sort/bsearch")],["function results"])
prop("C13","Object vectors edit like sequences and hold exactly one reference per slot",
 "Adding, inserting at any position (past the end means append), appending another vector, removing one or all occurrences, removing at a position and copying return exactly the edited sequence of objects, and lookups (at, first, last, find, find last, contains, equal) agree with it. At every moment the vectors hold exactly one reference per slot to each object: references are taken on entry, dropped on removal or when the vector is freed, and an absent vector is an empty one.",
 ["histories","inputs"],"every history of edits over several vectors sharing objects, with duplicates, any position, and absent arguments",
 "tests edit one vector at a time with two or three objects",
 ["src/gutil_objv.c"],[("edits and references","src/gutil_objv.c:gutil_objv_add/insert/append/remove/remove_at/copy/free")],["vector contents and reference counts of client objects"])
D="src/gutil_datapack.c"
prop("C14","Multi-byte numbers round-trip, are minimal and reject malformed input",
 "Every 64-bit value, signed or unsigned, encodes into the announced size, which is the fewest 7-bit groups that hold it, and decodes back to itself consuming exactly those bytes; encoding with a chosen larger size pads correctly and decodes to the same value. Decoding accepts exactly the complete encodings whose value fits 64 bits with proper sign extension, yields that value, advances past it and nothing else; anything truncated, over-long or overflowing is rejected with input position and output untouched. No byte outside the given range is ever read or written.",
 ["inputs"],"all 64-bit values, all sizes and all byte strings",
 "tests check about twenty values and a dozen malformed strings",
 [D],[("encode/decode","src/gutil_datapack.c:gutil_signed_mbn_*/gutil_unsigned_mbn_*")],["function results, buffers, input range"])
prop("C15","TLV encoding round-trips and decoding is safe on any bytes",
 "Any sequence of tag-value entries encodes to exactly the announced size and decodes to the same tags and values, in order. For arbitrary bytes, decoding one entry either returns a non-zero tag with a value lying entirely inside the input and advances just past it, or returns zero leaving the input where it was. Decoding a whole block returns the set of requested tags found with their values, or distinguishes malformed data, a repeated tag and an unrequested tag (skipped instead if so asked).",
 ["inputs"],"all byte strings, tag lists and flags, including lengths and tags near the limits of their types",
 "tests decode fewer than twenty fixed blocks",
 [D],[("TLV","src/gutil_datapack.c:gutil_tlv_size/encode/decode, gutil_tlvs_decode")],["function results, values, input range"])
L="src/gutil_log.c"
prop("C16","A log message is delivered exactly once iff it is enabled",
 "A message logged to a module at a level is delivered to the current log function (or, where present, the module's own hook or the replaced module-aware function) exactly once if and only if the enabled query says yes for that module and level: the effective level is the module's own or, if it inherits, its parent's, up the chain, or else the default one; a disabled module on that chain, level zero and unknown negative levels deliver nothing, the always level is delivered unless disabled. The same holds for assertions, dumps, plain and formatted variants and for an absent module, which means the default one; the logging macros in addition deliver nothing above the maximum level fixed at compile time. Delivery carries the module's name (unless hidden), the level and the formatted text unchanged whatever its length.",
 ["configurations","inputs"],"all combinations of module level, parent chain, maximum, flags, default level and message level, and messages of any length",
 "tests exercise a few combinations of level and parent",
 [L],[("filtering","src/gutil_log.c:gutil_log_enabled/gutil_logv/gutil_log_dump*")],["calls of gutil_log_func / gutil_log_func2"])
prop("C17","Log configuration strings and types apply exactly or are rejected with an error",
 "A log option is accepted exactly if it is a valid level (one digit in range or a non-empty beginning of a level name) or the name of a known module, in any case, followed by a colon and a valid level; it then changes just that level, and otherwise nothing changes and an error explains. The description shown to users names all levels, marking the default one, and all known modules; selecting an output type by name succeeds exactly for known names in any case, the current type reads back as the one selected last, and the default name changes as asked. Environment variables with a valid number set the default level, time stamps and thread identifiers at start, others do nothing.",
 ["inputs","histories"],"all option strings, module tables and sequences of configuration calls",
 "tests parse a dozen strings",
 [L],[("option parsing","src/gutil_log.c:gutil_log_parse_option/gutil_log_parse_level"),("type selection","src/gutil_log.c:gutil_log_set_type/gutil_log_get_type")],["results, module levels, GError, gutil_log_func"])
prop("C18","Log output is rendered completely and faithfully",
 "The standard output and error writers print each message as one line with the optional thread identifier and timestamp, the module name when it has one, a level prefix for errors and warnings, and the entire text, whatever its length and contents; nothing is truncated, duplicated or garbled (a time stamp too long for its buffer is left out), also when several threads are logging. The other writers (system log, GLib log) pass the level mapped to the corresponding severity and the same full text. A hex dump is emitted as one message per 16 bytes, with the given prefix and offset, each showing exactly those bytes.",
 ["inputs","configurations"],"all messages, module names, levels, timestamp formats and flag combinations",
 "tests capture a few short messages",
 [L],[("stdio writer","src/gutil_log.c:gutil_log_stdio"),("syslog/glib writers","src/gutil_log.c:gutil_log_syslog/gutil_log_glib"),("dump","src/gutil_log.c:gutil_log_dump")],["stdout bytes, syslog() and g_log() arguments"])
M="src/gutil_misc.c"
prop("C19","Hexadecimal conversion and hex dump are exact",
 "Converting bytes to hex and back gives the same bytes, in the requested case; converting text to bytes succeeds exactly for an even, non-zero number of hex digits of either case, and otherwise fails without a result. A hex dump line shows up to sixteen bytes with their printable characters in fixed columns, returns how many bytes it consumed, and never writes beyond its documented buffer size.",
 ["inputs"],"all byte strings and all text, with explicit or implied length",
 "tests use fewer than ten strings",
 [M],[("hex","src/gutil_misc.c:gutil_hex2bin/hex2bytes/bin2hex/data2hex/hexdump")],["function results and buffers"])
prop("C20","Number parsing accepts exactly the numbers that fit",
 "The integer parsers succeed exactly when the text, ignoring surrounding white space, is one complete number in the given base that fits the target type, and then store that value; otherwise they report failure and leave the target untouched. Unsigned parsers refuse every negative number, and empty or blank text is refused.",
 ["inputs"],"all strings and bases, for 32- and 64-bit signed and unsigned targets, with or without a place to store the result",
 "tests try about ten strings per type",
 [M],[("parsers","src/gutil_misc.c:gutil_parse_int/uint/int64/uint64")],["return value and stored value"])
prop("C21","Byte block operations compute exactly the byte-wise result",
 "Equality, prefix and suffix tests, concatenation, exclusive-or, copying, conversion between block types and range prefix skipping give exactly the result of the corresponding operation on byte sequences; exclusive-or is over the shorter length of its operands. Absent and empty blocks are handled as documented without a crash, arguments are never modified and no byte outside the blocks is read.",
 ["inputs"],"all pairs and lists of byte blocks, including absent, empty, overlapping and identical ones",
 "tests compare a few short literals",
 [M],[("blocks","src/gutil_misc.c:gutil_data_*/gutil_bytes_*/gutil_range_*")],["function results"])
N="src/gutil_inotify.c"
prop("C22","Directory watches deliver every file system event to exactly the live handlers",
 "Every file system event matching a live watch is delivered once to each handler connected to that watch when it is dispatched, in order, with its mask, cookie and name, and never to a removed handler, a destroyed watch or another watch, even when watches and handlers are added, removed or destroyed from inside a handler. Events of different watches never mix.",
 ["histories","schedules"],"all sequences of file operations and watch/handler changes, including from inside handlers and with several events arriving in one read",
 "tests create one or two files and check that a signal arrives",
 [N],[("event parsing and dispatch","src/gutil_inotify.c:gutil_inotify_read/gutil_inotify_dispatch")],["handler invocations"])
prop("C23","Watch resources: kernel watch and descriptor exist exactly while needed",
 "A watch registers with the kernel once when created and is unregistered exactly once, when destroyed, last unreferenced or removed by the kernel; creating one for a missing path fails cleanly. The underlying descriptor is opened for the first watch, shared by all, and closed exactly once, after the last watch is gone; nothing remains scheduled or allocated.",
 ["histories","fault_sequences"],"all histories of creating, referencing, destroying and unreferencing watches, with deletion of the watched path and failing system calls at any point",
 "tests never observe descriptors; failing system calls are not injected",
 [N],[("lifetime","src/gutil_inotify.c:gutil_inotify_create/ref/unref, gutil_inotify_watch_finalize/destroy")],["inotify and close system calls made, heap balance"])
prop("C24","Counted weak references give the live object or nothing",
 "A counted weak reference yields a new strong reference to the object last set as long as that object is alive, and nothing from the moment it is gone or was never set; setting another object or none retargets it for all holders. It never keeps an object alive itself, and it lives until its own last reference is dropped.",
 ["histories","schedules"],"all interleavings of setting, getting, referencing and dropping of weak references and objects, from one or several threads",
 "tests follow one straight-line life cycle",
 ["src/gutil_weakref.c"],[("weak reference","src/gutil_weakref.c:gutil_weakref_new/get/set/unref")],["returned objects, object finalization, heap balance"])
prop("C25","System time change notifications reach exactly the connected handlers",
 "While at least one time notification object exists there is exactly one timer registration, always armed for the next change, and each change of the system time calls every connected handler once, and no removed one. The notifier is shared between all who ask for it and is dismantled, its descriptor closed exactly once and its watch removed, when the last reference goes away, also from within a handler; failure to set it up is survived.",
 ["histories","fault_sequences"],"all histories of create, ref, unref, add, remove, time change and read error, including from inside handlers",
 "there are no tests for it",
 ["src/gutil_timenotify.c"],[("timerfd watch","src/gutil_timenotify.c:gutil_time_notify_callback/init/finalize")],["timerfd calls made, handler invocations"])
prop("C26","Reference counting is exact, also across threads",
 "Every reference-counted object of the library (ring, idle queue, idle pool, integer history, immutable integers, weak reference) stays alive while any reference taken on it is outstanding, in whichever thread, and is released exactly once, when the last one is dropped. Referencing returns the same object; referencing or unreferencing nothing is harmless.",
 ["schedules","histories"],"all interleavings of concurrent reference and unreference operations from any number of threads",
 "tests are single threaded",
 ["src/gutil_ring.c","src/gutil_ints.c","src/gutil_history.c","src/gutil_weakref.c","src/gutil_idlepool.c","src/gutil_idlequeue.c"],[("atomic counters","gutil_*_ref/gutil_*_unref in each file")],["release of the payload or of the memory, heap balance"])
prop("C27","Handler and source disconnection helpers undo exactly what was registered",
 "Disconnecting a list of signal handlers disconnects each non-zero one exactly once and zeroes its slot, leaving other handlers and zero slots alone. Removing or clearing a source by identifier removes that source once, resets the stored identifier and tells whether there was anything to do. All that holds when the destroy notification of a handler or of a source uses the same list or variable. The pointer-vector, duplication, reference and length helpers give the exact result and treat an absent argument as empty. The version number composed at run time is the one of the header.",
 ["inputs","histories"],"all lists of handler identifiers with zeroes anywhere, all sequences of source removal, all vectors",
 "tests check one list of three handlers",
 [M],[("helpers","src/gutil_misc.c:gutil_disconnect_handlers/source_remove/source_clear/ptrv_*/memdup/strlen0")],["signal emissions, source dispatch, helper results, heap balance"])
prop("C28","Logging and assertion macros do exactly what the build enables",
 "A logging macro of some level (with or without the function name, and the dump macros) is compiled in if and only if the level doesn't exceed GLOG_LEVEL_MAX, which unless given is VERBOSE in debug builds and DEBUG in release ones. Compiled in, it evaluates its arguments once and delivers its message, tagged with the current module (the one defined by GLOG_MODULE_DEFINE, or none), if and only if that module's run time configuration lets it through; compiled out, it evaluates nothing and sends nothing. Assertions are compiled in when GLOG_LEVEL_ASSERT (ERROR in debug builds, out of reach in release ones) doesn't exceed the maximum: one which fails logs a single message with the expression, the file and the line at that level, one which holds logs nothing. GASSERT evaluates its expression once or, if compiled out, never; the GVERIFY macros evaluate it exactly once in every build, and compare the way their names say. Modules start out inheriting their level, enabled and with the compile time maximum. GERRMSG always produces a string.",
 ["inputs","histories"],"all combinations of compile time settings (maximum level, assert level, debug, module with or without parent), all run time configurations of the levels, all operands",
 "tests are compiled in two configurations only, with whatever levels these have",
 ["include/gutil_log.h","src/gutil_log.c"],[("macros","include/gutil_log.h:GERR..GVERBOSE/GASSERT/GVERIFY_*/GLOG_MODULE_DEFINE*/GUTIL_LOG_*/GERRMSG"),("gutil_log_assert()","src/gutil_log.c:gutil_log_assert")],["messages at the log function, number of evaluations of the arguments, compile time constants"])
prop("C29","Version and layout macros compute what they promise",
 "A version is packed into a single positive word from which the same major, minor and micro numbers come back, numbers which don't fit never affect the others, and comparing words is comparing versions. The header's numbers, string and word, those of the library at run time, and the words of all released versions agree with each other and work in preprocessor conditions. Alignment macros give the first multiple of 2, 4 or 8 not less than the argument, for integers of any type. G_CAST gives the address of the structure which contains the field, G_PACKED leaves no holes, and freeing a slice releases as many bytes as the object has.",
 ["inputs"],"all version numbers, all unsigned and non-negative integers of all types (as long as the result fits), all fields",
 "tests check one version and no alignment",
 ["include/gutil_version.h","include/gutil_macros.h","src/gutil_version.c"],[("version macros","include/gutil_version.h:GUTIL_VERSION_"),("layout macros","include/gutil_macros.h:G_CAST/G_ALIGN*/gutil_slice_free")],["values of the macros and of the exported constants, size passed to g_slice_free1()"])
prop("C30","Internal assertions hold in permitted use",
 "In the debug build (DEBUG defined), where GASSERT is compiled in and reports a failure as an error message, no assertion inside the library's sources ever fails as long as the client keeps to the documented interface and the kernel to its own: not for any sequence of operations on rings, queues, pools, histories, inotify watches, time notifications and weak references, not inside any callback and not in any interleaving of threads sharing reference counted objects. Assertions state the invariants of the implementation (indices within the buffer, a queue whose first and last items agree, no watches left when their inotify goes, references only taken and dropped while there are some).",
 ["histories","schedules"],"all sequences of operations including re-entrant ones from callbacks, all interleavings of threads",
 "a failed assertion is a line in the log which no test looks at, and tests don't normally run the debug build",
 ["src/gutil_ring.c","src/gutil_idlequeue.c","src/gutil_idlepool.c","src/gutil_history.c","src/gutil_inotify.c","src/gutil_timenotify.c","src/gutil_weakref.c"],[("assertions","src/*.c:GASSERT")],["calls of gutil_log_assert()"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
