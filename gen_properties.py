#!/usr/bin/env python3
# Source of properties.jsonl (run by hand after an edit; the output is committed).
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": None}})

p("C01", "Each posted record is output exactly once, in per-ring order, or dropped",
  "Every record posted to an enabled section through a ring attached to a running engine is handed to the engine's output exactly once, and the records of one ring come out in the order they were posted with consecutive sequence numbers counted from zero. The only records that may be missing are those posted to a non-blocking ring at a moment when the ring had no room left; a ring rounded up to capacity N accepts N-1 pending records. Nothing that was not posted (apart from the engine's own marker records) is ever output.",
  ["histories","schedules","configurations"],
  "All histories of posts, engine passes and ring registrations over any number of private, shared, prioritised and pre-filled rings, all ring and reorder-buffer capacities, reordering on or off, posts landing before, between and in the middle of engine passes, one or several writer threads.",
  "Tests post a few bursts into default-sized rings and never look at the sequence of output records; the loss/duplication window depends on ring fullness, on where a pass is cut (reorder buffer full, leftover kept back) and on what is posted while the engine is mid-pass.",
  ["src/engine.cc","include/hogl/detail/ringbuf.hpp","src/post.cc","include/hogl/detail/tsobuf.hpp"],
  [("two-phase pass: read all rings, then rewind to the last flushed record and commit","src/engine.cc: engine::process_rings_tso"),
   ("reserve/commit of ring slots, sequence number taken with the slot","src/post.cc, include/hogl/detail/ringbuf.hpp"),
   ("ring lock around begin/finish for shared rings","src/post.cc: begin_locked/finish_locked")],
  ["format::process() calls made by the engine (ring name, sequence number, arguments)","ringbuf::room/size/dropcnt/seqnum"],
  [("ring head/tail","pending records","include/hogl/detail/ringbuf.hpp"),("last record flushed per ring","what may be released","src/engine.cc")])

p("C02", "Drops are reported with exact counts and statistics add up",
  "A non-blocking ring's drop counter equals the number of records rejected because it was full. With timestamp ordering enabled the output shows, directly before the first record that follows a gap in a ring's sequence numbers, exactly one drop marker carrying that ring's name and the exact number of missing records, and shows no drop marker where nothing was dropped. The engine's counts of output and dropped records equal what was actually output and what the markers reported.",
  ["histories","configurations","fault_sequences"],
  "All histories that overflow rings, interleaved with engine passes, timed-out flush and timesource requests, rings detached and re-attached to a new engine, drop markers enabled or disabled by the mask.",
  "Only the stress test overflows a ring and it never compares the reported number with the truth; requests that time out on a full ring and rings moved between engines are never exercised.",
  ["src/engine.cc","include/hogl/detail/ringbuf.hpp","src/flush.cc","src/timesource.cc"],
  [("expected sequence number per ring compared when a record is released","src/engine.cc: do_flush_tso"),("expected numbers carried over when the ring index is rebuilt","src/engine.cc: rebuild_ring_index"),("drop counter on a full ring","include/hogl/detail/ringbuf.hpp: push_commit")],
  ["HOGL:DROPMARK records","engine::get_stats()","ringbuf::dropcnt()"])

p("C03", "Output is merged in timestamp order across rings",
  "With timestamp ordering enabled, of any two records that were both pending when an engine pass began, the one with the smaller timestamp is output first, whatever rings, priorities or posting order were involved (records of one ring keep their posting order). Records that reach their ring only after newer records have already been collected are still output in order as long as no more than one eighth of the reorder buffer's capacity of records is newer and they arrive by the following pass. Whenever the reorder buffer overflows a marker announcing possible disorder is output before any record that breaks the order; without such a marker the order holds.",
  ["histories","schedules","configurations"],
  "All timestamp patterns, numbers of rings, reorder buffer capacities, batch sizes around the capacity, and posts that land late or mid-pass.",
  "ooo_test uses one shape of lateness with the default capacity; tso_test exercises only the sorting container. Batches around the capacity, leftovers and mid-pass arrivals are not sampled.",
  ["src/engine.cc","include/hogl/detail/tsobuf.hpp"],
  [("collect, sort, release all but 1/8","src/engine.cc: process_rings_tso, flush_tso"),("emergency flush with a marker","src/engine.cc: flush_full_tso"),("monotonic per-ring sort keys","src/engine.cc: process_rings_tso")],
  ["order of format::process() calls and their timestamps"])

p("C04", "A record carries exactly the arguments that were posted",
  "A posted record reaches the format handler with the same area, section, timestamp and the same sequence of up to 16 typed argument values (bool, integers, floating point, pointers, C strings, std::strings, global strings, raw and dump buffers). A string or buffer that does not fit the ring's record size is cut to the room that is left: strings stay terminated and end in '>>>' when more than three characters of room remain, other arguments of the record and other records are never altered. Values are captured when the record is posted; later changes to the caller's buffers have no effect (except for strings declared global).",
  ["inputs","configurations"],
  "All argument lists (count, types, lengths, order), all record tailroom sizes, pending neighbours in the ring, both the C++ templates and pre-packed argument paths.",
  "args_test and basic_test print a fixed handful of argument lists and do not check the result; truncation boundaries (room 0..4, last byte) and neighbour records are not checked.",
  ["include/hogl/detail/record.hpp","include/hogl/detail/argpack.hpp","include/hogl/detail/args.hpp","include/hogl/post.hpp","src/post.cc","src/ringbuf.cc"],
  [("room computation and truncation marker","include/hogl/detail/record.hpp: copy_cstr, copy_data, copy_xdump"),("argument storage reserved before strings","include/hogl/detail/record.hpp: set_args"),("record size rounding","src/ringbuf.cc")],
  ["record::get_arg_type/get_arg_val*/get_arg_data in format::process()"])

p("C05", "The text format renders header fields and arguments faithfully",
  "For every record and every selection of header fields the text format writes one line: the selected fields (date or seconds.nanoseconds timestamp, delta to the previous record, ring, sequence number, area, section) with the record's true values, then either the printf rendering of the format string with its arguments or the plain space-separated arguments, then a newline. Rendering agrees with C printf for ordinary conversions (integers, characters, strings, pointers, floating point values up to 17 digits, with length modifiers, widths, precisions and flags), shows dump arguments value for value, and never depends on previously formatted records other than for the delta.",
  ["inputs","histories","configurations"],
  "All timestamps, sequence numbers, names, field sets, argument lists and printf-style format strings whose conversions match their arguments, all dump kinds (hex, d/u/x/f of width 1,2,4,8, any line width), in any order through one formatter.",
  "format_basic_test checks a few fixed strings; the timestamp cache, field combinations, dump layouts and flag/width/precision combinations are an open-ended input space.",
  ["src/format-basic.cc","include/hogl/format-basic.hpp","src/fmt-format.cc","include/hogl/detail/ntos.hpp","include/hogl/fmt/printf.h"],
  [("header writers and timespec cache","src/format-basic.cc"),("printf rendering","src/format-basic.cc: output_fmt"),("dumps","src/format-basic.cc: do_xdump")],
  ["bytes written to the ostrbuf"])

p("C06", "Blocking rings lose nothing and blocked writers always resume",
  "A record posted to a ring with the blocking option is never dropped: when the ring is full the writer waits, and it resumes once the engine has consumed records. No writer stays blocked while the engine keeps running passes and the ring has room, whatever the number of writers, ring sizes, reorder buffer size, or the moment at which the writer went to sleep.",
  ["schedules","histories","configurations"],
  "All interleavings of writers filling blocking rings with engine passes, including writers that start to wait exactly between a pass's scan and its release step; reordering on and off; rings larger or smaller than the reorder buffer.",
  "ring_block runs one writer with default settings; a lost wake-up needs a specific order of wait and release.",
  ["include/hogl/detail/ringbuf.hpp","src/engine.cc"],
  [("wait/wake on full ring","include/hogl/detail/ringbuf.hpp: block, unblock, push_commit"),("wake in every pass","src/engine.cc: process_rings_tso/notso")],
  ["posting threads finish","output sequence"])

p("C07", "Masks decide exactly which sections are enabled",
  "After a mask is applied, each section of each area is enabled or disabled according to the last rule of the mask whose area and section expressions both match the whole names (a leading '!' disables; an omitted part matches everything), and keeps its previous state if no rule matches; the mask survives being copied, printed and read back unchanged. Applying a mask through the engine affects every registered area and every area registered afterwards, including the engine's own. A post to a disabled section changes nothing: no record, sequence number or drop is produced.",
  ["inputs","histories"],
  "All rule lists over a generated vocabulary of names and regular expressions, all section counts (including more than 64), sequences of apply/override/register operations.",
  "mask_test/area_test apply a few fixed masks to one area; rule interaction, ordering, areas added later and stream input are not covered.",
  ["src/mask.cc","include/hogl/detail/mask.hpp","src/area.cc","include/hogl/detail/bitmap.hpp","src/engine.cc","include/hogl/post.hpp"],
  [("ordered rule application","src/mask.cc: apply"),("mask kept by the engine","src/engine.cc: add_area, apply_mask"),("section bitmap","include/hogl/detail/bitmap.hpp")],
  ["area::test()","records output"])

p("C08", "Area names are unique; identical areas are shared, different ones refused",
  "Registering an area under a new name returns a new area with exactly the given sections; registering the same name with identical sections returns the same area with its current section state, and with any different section list fails without changing the registered one. Areas can be found and listed by name exactly when registered, and remain valid until the engine is destroyed. Each section of an area can be switched on and off independently of all others, for any number of sections; numbers past the last section have the name INVALID.",
  ["histories","inputs"],
  "All sequences of registrations, look-ups, section switches with generated names and section lists (0 to thousands of sections), including concurrent registration of the same names.",
  "engine_test covers one reuse case with the default sections.",
  ["src/engine.cc","src/area.cc","include/hogl/detail/area.hpp","include/hogl/detail/bitmap.hpp"],
  [("map insert and compare","src/engine.cc: add_area"),("bit per section","include/hogl/detail/bitmap.hpp")],
  ["engine::add_area/find_area/list_areas","area::test"])

p("C09", "Ring registration, sharing, reuse and release keep every record and object",
  "A ring name belongs to at most one live ring: re-registering it succeeds only for a shared ring, or for a reusable ring whose owner has released it, and then returns that same ring. A ring whose owners have all released it is drained completely before the engine forgets it; afterwards its name can be used for a new ring, and the memory is freed exactly once (never for immortal rings). Look-up and listing report exactly the registered rings and every look-up holds a reference.",
  ["histories","schedules","configurations"],
  "All sequences of add/find/hold/release/post/engine pass over several names and option combinations, including releases with records pending and look-ups racing with the clean-up of orphans.",
  "ring_ops performs one fixed sequence on an idle engine.",
  ["src/engine.cc","include/hogl/detail/ringbuf.hpp","include/hogl/detail/refcount.hpp","src/ringbuf.cc"],
  [("reference counts, orphan check","include/hogl/detail/refcount.hpp, src/engine.cc: kill_orphan"),("reuse rules","src/engine.cc: add_ring")],
  ["engine::add_ring/find_ring/list_rings","ringbuf::refcnt","address sanitizer"])

p("C10", "Stopping the engine delivers everything that was posted",
  "When an engine is destroyed (or logging is deactivated) every record accepted by its rings before that point has been output, in order, before the call returns, no matter how many rings are registered, how full they are or whether the engine was in the middle of a pass. Logging can then be activated again, any number of times, and each activation again delivers exactly the records posted through it and the default ring.",
  ["histories","schedules","configurations"],
  "All amounts of pending data in all rings at the moment of shutdown, reorder buffer sizes, orphaned and shared rings, early posts before activation, repeated activate/deactivate cycles.",
  "Tests stop engines after sleeping or with a handful of records; no test compares what was posted with what was written at shutdown.",
  ["src/engine.cc","src/default-engine.cc"],
  [("drain until no ring is left","src/engine.cc: drain_rings, kill_orphan"),("default ring released before the engine","src/default-engine.cc: deactivate")],
  ["output records after ~engine/deactivate"])

p("C11", "A successful flush means earlier records have reached the output stream",
  "When flush returns true, every record posted earlier to that ring by the caller has been written through the output's own buffer to the underlying stream. When the engine cannot process the request in time flush returns false after the timeout, without harm: later posts and flushes work, no record is lost or duplicated and no drop is reported that did not happen.",
  ["histories","schedules","fault_sequences"],
  "All numbers of pending records, ring and buffer capacities, private/shared/thread-local rings, full rings, stalled engine at any point, repeated flushes and timeouts.",
  "basic_test calls flush a few times and ignores what has been written at that point.",
  ["src/flush.cc","src/engine.cc","include/hogl/detail/record.hpp"],
  [("special record acknowledged by the engine","src/flush.cc: do_flush, src/engine.cc: flush_record")],
  ["bytes in the underlying stream when flush returns"])

p("C12", "Changing the timesource takes effect everywhere and keeps the log intact",
  "After a timesource change on a ring has been acknowledged, every record posted to any ring of that engine (existing or registered later) carries the new source's timestamps, and the change is announced in the output by one record naming the old and the new source. Records posted before keep their old timestamps. A request that is not acknowledged within its timeout returns false, not earlier. The switch loses, duplicates or reorders no record of any ring, and reports no drops.",
  ["histories","configurations"],
  "All sequences of timesource changes, posts and ring registrations, clocks running ahead of or behind one another, timeouts, zero timeout.",
  "Tests switch between two system clocks once and do not look at the timestamps.",
  ["src/timesource.cc","src/engine.cc","src/default-timesource.cc","src/ringbuf.cc"],
  [("special record handled in order","src/engine.cc: switch_timesource"),("new rings take the engine's source","src/engine.cc: add_ring")],
  ["timestamps in the output records"])

p("C13", "Output streams receive exactly the generated bytes, header first, footer last",
  "The byte stream produced by an output is the format's header, then each record's bytes in order, then the footer, with nothing lost, duplicated or altered, for every buffer capacity and every way of splitting the data into writes, including interrupted and partial writes by the operating system. The same holds for every output (file, plain file, pipe, standard streams, tee to two outputs). If the stream fails permanently the output reports failure with the error's text and writes nothing more to it, and the engine keeps running. After a flush everything generated so far has left the library (a pipe's reader gets it without anything further being written). An output whose file or pipe cannot be opened is refused with an exception, and the standard streams stay open when their outputs are deleted.",
  ["inputs","histories","fault_sequences"],
  "All sequences of appends/prints/flushes with sizes around the buffer capacity (including zero capacity), all patterns of short writes and of errors from write.",
  "ostrbuf_test appends fixed strings to an in-memory double; partial writes never occur on regular files in a test.",
  ["include/hogl/detail/ostrbuf.hpp","src/ostrbuf.cc","src/ostrbuf-fd.cc","src/ostrbuf-stdio.cc","src/ostrbuf-tee.cc","src/output.cc","src/output-plainfile.cc","src/output-pipe.cc","src/output-tee.cc","src/output-file.cc"],
  [("buffer then bypass on overflow","include/hogl/detail/ostrbuf.hpp: push_back"),("vectored write","src/ostrbuf-fd.cc, src/output-file.cc")],
  ["bytes received by the descriptor / file / child process","output::failed()/error()"])

p("C14", "File rotation preserves the log and its naming contract",
  "With a rotating file output the concatenation of the chunks' record data, in rotation order, is exactly the record stream; a chunk that reaches the configured size is followed by a switch to the next index (wrapping at the configured count, so at most that many files exist), every chunk starts with a header and ends with a footer naming the next one, and the link without the index always resolves to the newest chunk. Re-opening continues with the index after the one the link points to; switching the name moves the stream to the new name without losing data. If the next chunk cannot be opened, output continues in the current one and rotation is retried later, never damaging existing data.",
  ["histories","fault_sequences","schedules","configurations"],
  "All sequences of writes, size limits, counts, name patterns (with and without directory, index position), re-opens, name switches and open failures, and any timing of the rotation thread.",
  "Tests rotate a log once or twice and look at nothing; faults, re-open, relative directories and early signals are not exercised.",
  ["src/output-file.cc","include/hogl/output-file.hpp"],
  [("rotation thread and pending flag","src/output-file.cc: thread_loop, writev"),("naming and link","src/output-file.cc: init_name, read_link, update_link")],
  ["files on disk"])

p("C15", "Binary logs convert back to the same text as direct formatting",
  "A log written in the binary format and converted with the cook tool gives the same text as if the same records had been formatted directly, for every record the library can produce, for both supported format versions the tool reads, from files, standard input or a file that is still being written, however the input is chunked. A formatter plugin given to the tool sees the same records and is released at the end; a plugin that cannot be used is reported and nothing is output.",
  ["inputs","programs"],
  "All records (names, sections, argument lists, truncated strings, dumps, empty strings), any number of records, all header field selections, both format versions.",
  "No test runs the cook tool; rawrec_test unpacks one record shape with private code.",
  ["src/format-raw.cc","tools/raw-parser.cc","tools/raw-parser.hpp","tools/cook.cc","tools/rdbuf.cc","src/format-basic.cc"],
  [("record packing","src/format-raw.cc"),("unpacking","tools/raw-parser.cc")],
  ["hogl-cook's output"])

p("C16", "Reading damaged binary logs never corrupts memory or loses good data",
  "For any input bytes, any accepted version and any record size limit the cook tool terminates without invalid memory accesses and with bounded memory, and reports an error when the input cannot be read as a log. When a valid log in a file is preceded by foreign bytes, the valid records after them are recovered and printed unchanged; records before a truncation or a damaged place are printed unchanged, and exactly once when there are at least as many as the required number of valid records.",
  ["inputs","fault_sequences"],
  "All byte strings: mutated, truncated, spliced and random logs; all record size limits.",
  "No test feeds the parser anything.",
  ["tools/raw-parser.cc","tools/raw-parser.hpp","tools/rdbuf.cc","tools/cook.cc"],
  [("length limits and name validation","tools/raw-parser.cc"),("resynchronisation","tools/cook.cc")],
  ["parser result, address sanitizer, cook's output and error output"])

p("C17", "Crash recovery extracts exactly the unsaved records",
  "From a core dump of a process using the library, the recovery tool outputs every record that was posted and still pending in any ring of that process exactly once, with the same content it had (also as seen by a formatter plugin), in timestamp order, and none that had already been released; formatted text that had not been written yet is recovered as well. The tool's lists of rings and areas show every ring of the process in the state it had, and every area that pending records refer to. So at whatever point the process crashes, every posted record is in the log, in the recovered text or among the recovered records. This holds for any number of rings and pending counts (including equal timestamps, wrapped rings and all argument types), and for arbitrary other memory content around them; damaged or foreign structures are skipped without crashing and without affecting sound ones.",
  ["crash_points","inputs","histories"],
  "All ring contents at the moment of the crash: pending counts 0..capacity-1 at any head position, argument types and counts, several rings and areas, equal timestamps.",
  "No test runs the recovery tool.",
  ["tools/recovery-engine.cc","tools/recovery-engine.hpp","tools/coredump.cc","tools/recover.cc","include/hogl/detail/magic.hpp"],
  [("magic search and pointer remapping","tools/recovery-engine.cc"),("record collection ordered by timestamp","tools/recovery-engine.cc")],
  ["hogl-recover's output"])

p("C18", "The C API behaves like the C++ API",
  "Each C function has the same effect as the C++ operation it wraps: records posted through C carry the same arguments and come out with the same text, and areas, masks, rings, engines, formats, outputs and flush obey the same rules with the options passed in C; functions documented to return zero on failure do so.",
  ["inputs","histories"],
  "All argument lists up to the limit, rule lists, options and operation orders expressible in C.",
  "c-api_test checks that calls link and return; results are not compared with C++.",
  ["src/c-api.cc","include/hogl/c-api/post.h","include/hogl/c-api/args.h","include/hogl/c-api/output.h","include/hogl/c-api/engine.h","include/hogl/c-api/mask.h","include/hogl/c-api/area.h","include/hogl/c-api/tls.h"],
  [("thin wrappers","src/c-api.cc")],
  ["output records and files of equivalent C and C++ programs"])

p("C19", "CPU affinity strings select exactly the named CPUs or are rejected",
  "A CPU affinity setting given as a number or 'mask:' bitmask selects exactly the CPUs whose bits are set (up to 64), and a 'list:' of numbers and ranges selects exactly the listed CPUs (up to 256). Strings outside these forms are rejected by validation and never applied; the scheduling policy and priority given are the ones applied to the library's threads. A setting that cannot be applied is reported exactly once, in the log or, while no engine is active, on standard error, however late the thread starts, and the thread runs on.",
  ["inputs"],
  "All strings generated from the two grammars and near misses of them (bad digits, reversed and out-of-range values, overflow, trailing text).",
  "schedparam_test validates about ten strings and never looks at the resulting set.",
  ["src/schedparam.cc","src/platform.cc","src/output-file.cc","src/engine.cc"],
  [("list and mask parsers","src/schedparam.cc"),("post_early","src/platform.cc"),("start of the helper thread","src/output-file.cc")],
  ["arguments of pthread_setaffinity_np/pthread_setschedparam","schedparam::validate()"])

p("C20", "Thread-local rings route each thread's records and nest correctly",
  "Records posted without naming a ring go to the calling thread's current ring: the default ring until a thread-local ring is set up, then that ring, and after its destruction the one used before, for any nesting depth and independently in every thread. If a thread-local ring cannot be created, because its name is taken or its storage cannot be allocated, the previous ring stays in use and the object says it is not valid. Each ring is released exactly once and no reference leaks.",
  ["histories","schedules"],
  "All well-nested sequences of set-ups, posts and tear-downs in several threads, with name clashes, shared and reusable rings, and several engines.",
  "Tests create one ring per thread.",
  ["src/tls.cc","include/hogl/tls.hpp","src/engine.cc"],
  [("previous ring kept and restored","src/tls.cc")],
  ["ring names in output records","ringbuf::refcnt()"])

p("C21", "A ring buffer is a bounded FIFO with the advertised geometry",
  "A ring created with any options either fails to be created, leaving nothing behind, or has a capacity that is the next power of two, record storage of at least the requested tailroom, and a priority limited to the ceiling. Under any sequence of writer and reader operations (single, by iterator, partial commits after rewinding) it behaves as a FIFO that holds up to capacity-1 items: size, room and emptiness always agree with the FIFO, items come out unchanged and in order, a full non-blocking ring only counts a drop, and a reset empties it.",
  ["histories","inputs","configurations"],
  "All sequences of push/pop/iterate/rewind/commit/reset from any head position, all option values.",
  "ring_test fills and drains one ring from position zero.",
  ["include/hogl/detail/ringbuf.hpp","src/ringbuf.cc"],
  [("masked head/tail indexes","include/hogl/detail/ringbuf.hpp")],
  ["ringbuf public interface"])

p("C22", "Posting a record performs no memory allocation and no system call",
  "Once a ring is set up, posting to it through any posting interface, with any arguments, enabled or disabled, accepted or dropped, allocates no memory and makes no system call (apart from those of the time source in use, and of waiting on a contended shared or full blocking ring).",
  ["inputs","histories"],
  "All argument lists, section states and ring states (empty, partly full, full), for private and shared rings, C++ and C interfaces.",
  "No test observes allocations or system calls.",
  ["include/hogl/post.hpp","src/post.cc","include/hogl/detail/ringbuf.hpp","include/hogl/detail/argpack.hpp","include/hogl/detail/record.hpp","src/c-api.cc"],
  [("arguments packed on the stack and copied into the slot","include/hogl/post.hpp")],
  ["seccomp filter and malloc hooks in the posting thread"])

p("C23", "Log post-processing scripts report exact values",
  "The grep tool prints exactly the lines of a text log that match its filters, with time deltas to the previous printed line that are exact to the nanosecond for the full range of timestamps; output to a file equals output to the terminal. The trace tool turns trace records into a valid JSON document with one event per record carrying its exact time (in whole microseconds) and values.",
  ["inputs","programs"],
  "All text logs the library can write with second.nanosecond timestamps, all filter patterns.",
  "No test runs the scripts.",
  ["tools/hogl-grep","tools/hogl-trace"],
  [("delta computation","tools/hogl-grep"),("event conversion","tools/hogl-trace")],
  ["script output"])

p("C24", "The default ring follows its options and an exiting process loses nothing",
  "An application that defines default_ring_options gets a default ring with exactly that geometry, and activation is refused, leaving nothing active, unless that ring is both shared and immortal; a second activation is refused without disturbing the first. Every record accepted by the default ring before or during activation, and by rings released before the end, is delivered exactly once and in order even if the process only returns from main or calls exit() in any thread and never deactivates, whatever the output.",
  ["configurations","histories","schedules"],
  "All default ring options, all scripts of posts, activations, thread-local rings, private engines and ways to end the process, with plain file, rotating file, pipe and stdout outputs, destroyed late or never.",
  "Tests use the built-in options and deactivate before they end.",
  ["src/default-engine.cc","src/default-ringopts.cc","include/hogl/engine.hpp","src/engine.cc"],
  [("check of the ring's properties and exit handler","src/default-engine.cc")],
  ["bytes left in the output after the process has ended","ringbuf accessors of hogl::default_ring"])

p("C25", "Whatever the library takes it gives back",
  "Creating and tearing down engines, outputs, formats, areas, rings, thread-local rings, masks and time sources by their documented rules, through C++ or C, including attempts that are refused (files that cannot be opened, names that are taken, threads that cannot be started), leaves no memory, file descriptor, thread or child process behind: the same lifecycle can be repeated any number of times without growth.",
  ["histories","configurations","faults"],
  "All lifecycles: outputs of every kind (tee included), refused resources, engines private or default, registrations accepted and refused, threads with nested rings, mask and clock changes, posts, flushes, shutdown.",
  "Tests run each lifecycle once and are not checked for leaks.",
  ["src/engine.cc","src/area.cc","src/ringbuf.cc","src/tls.cc","src/mask.cc","src/output.cc","src/output-file.cc","src/output-pipe.cc","src/ostrbuf-fd.cc","src/ostrbuf-stdio.cc","src/c-api.cc","src/schedparam.cc"],
  [("reference counts and destructors","src/ringbuf.cc")],
  ["allocator calls, /proc/self/fd, /proc/self/task, wait()"])

p("C26", "What the library shows about itself is true, and looking disturbs nothing",
  "The dump of a ring, an area, a mask, engine options or statistics, scheduling parameters or a whole engine, and the lists of ring and area names, show exactly the current state: every registered ring once with its priority, references, sequence number, drop count, capacity, pending records, room, record size and time source; every section of every registered area with its on/off state; the mask's rules in order, so that a mask read back from its dump switches every section the same way; the counters and the configured options. Looking changes nothing: no reference, counter, registration or stream setting is different afterwards. It may be done at any time, while other threads post, register and release rings, register areas and change the mask: nothing is lost, everything registered before is shown, nothing is shown that was never registered.",
  ["histories","schedules","configurations"],
  "All histories of registrations, posts, passes, releases and mask changes with dumps before, between, in the middle of and after engine passes; all stream formats; concurrent dumps from several points of view.",
  "Tests print statistics to the terminal once and look at nothing; no test looks while something else goes on.",
  ["src/engine.cc","src/ringbuf.cc","src/area.cc","src/mask.cc","src/schedparam.cc","include/hogl/ring.hpp","include/hogl/area.hpp"],
  [("references taken while a ring is shown","src/engine.cc: operator<<"),("lists made under the registry locks","src/engine.cc: list_rings, list_areas"),("mask text kept with each rule","src/mask.cc")],
  ["text written to the stream by operator<<","list_rings/list_areas","ringbuf, area and engine accessors"])

p("C27", "A record carries the time of its post and timestamps are exact",
  "A record is stamped with the time at which it was posted: its timestamp lies between the time source's readings just before and just after the post, whatever the source (built-in realtime or monotonic, the default, the application's own default, or a custom one given to a ring or an engine). A ring is given its engine's source when it is registered, and every ring's source changes when the engine's is changed, no source meaning the default. Output shows every timestamp exactly, to the nanosecond, with a normalised fraction, and is merged by time whatever the times are. Conversion, comparison and arithmetic of timestamps are exact, in either representation the library can be built with. An application that defines its own default source gets that source, and ends normally.",
  ["inputs","histories","configurations"],
  "All times of the representation (second boundaries, equal times, the distant past and future), all sources, orders of posts, registrations and source changes, both timestamp representations, with and without an application-defined default.",
  "Tests use the built-in sources only, compare no times, and never build the second representation.",
  ["src/default-timesource.cc","src/timesource.cc","src/ringbuf.cc","src/engine.cc","src/post.cc","src/format-basic.cc","include/hogl/detail/timestamp.hpp","include/hogl/detail/timesource.hpp"],
  [("timestamp taken while posting","include/hogl/post.hpp"),("representations of a timestamp","include/hogl/detail/timestamp.hpp"),("sources handed to rings","src/engine.cc: change_timesource, add_ring")],
  ["text written by the output","records given to a format handler","the time sources' own readings"])

for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open('properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
