#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script only so that the JSON stays valid and easy to edit).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/include/"+f for f in files],mechanism=[dict(name=n,where=w) for n,w in mech],
      **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
      observe_at=observe or [],hook_needed=hook)))
p("C01","Asynchronous channels deliver every accepted record exactly once",
 "On an asynchronous channel, every record whose log call was made while the logger was running and was accepted by the filters reaches each enabled matching output device exactly once: none is lost, duplicated or invented, however many threads log at the same time and however often the queue has wrapped around. Delivery never needs any further log call: once the logging calls have returned, the running logger (or a normal stop) delivers everything.",
 ["schedules","histories"],"all interleavings (including x86-TSO store delays) of several producers and the channel's consumer, from every fill level and queue position",
 "Tests log from free-running threads and count lines: a handful of schedules out of astronomically many, with a queue far larger than what is in flight and with the queue position hardly ever at a hand-over boundary.",
 ["fn_channel.h","fn_core.h","fn_data.h"],
 [("reserve a slot, mark it ready, publish the contiguous ready prefix","fn_channel.h HoldChannel/PushChannel"),("single consumer drains published slots and releases them in order","fn_channel.h EnterProcChannel")],
 [("write/hold/read/proc indices","ring positions of published, reserved, released and processed slots","fn_data.h RingBuffer"),("slot mark","free / reserved / ready","fn_data.h LogData")],
 ["device output (file, UDP datagrams, screen)"])
p("C02","Asynchronous output order respects the real-time order of log calls",
 "On an asynchronous channel, if one log call returned before another log call began, then on every device that outputs both records the first one's record comes first. In particular the records of one thread come out in the order in which that thread logged them.",
 ["schedules"],"all interleavings of several producers and the consumer; all pairs of records of the same channel",
 "Tests compare counts, not cross-thread real-time order, and sample a few schedules only.",
 ["fn_channel.h"],[("slots are reserved in one total order and drained in that order","fn_channel.h HoldChannel/PushChannel/EnterProcChannel")],None,["device output order"])
p("C03","Concurrent records are never torn, mixed or raced on",
 "Each output record is exactly the prefix and values that one log call appended, followed by one newline - never bytes of another record, never a partially written or already recycled record - whatever other threads do at the same time. The contents of a record are handed from the logging thread to the output and back to the next user of its memory without a data race under the C++ memory model.",
 ["schedules"],"all interleavings of producers (which append to their records in several steps) and consumers, checked both by output contents and by happens-before on every byte of every record",
 "A torn record needs a preemption between two particular instructions; on x86 a missing release/acquire edge never shows up in a test run at all.",
 ["fn_channel.h","fn_stream.h","fn_data.h"],[("release/acquire hand-over through the slot mark and the ring indices","fn_channel.h PushChannel, EnterProcChannel, HoldChannel")],None,["device output","happens-before on record memory"])
p("C04","A full queue makes callers wait; nothing is dropped, overwritten or wedged",
 "When an asynchronous channel's queue is full, log calls wait for room instead of dropping or overwriting undelivered records, and continue as soon as the consumer has made room. While the logger is running and its consumer makes progress, no reachable situation exists in which a log call can never return or an accepted record can never be output.",
 ["schedules","histories"],"all interleavings from full and nearly full queues, with more producers than free slots; possibility of completion from every reachable state",
 "Filling a queue exactly while several producers race for the last slot is a matter of schedule; deadlock and lost wake-up freedom quantify over all schedules and cannot be sampled.",
 ["fn_channel.h"],[("reserve checks for room against the released position and sleeps when full","fn_channel.h HoldChannel"),("consumer releases processed slots in order","fn_channel.h EnterProcChannel")],None,["return of log calls","device output"])
p("C05","Start, stop and logging may race: one winner, full drain, no hang",
 "When several threads start or stop the same logger concurrently, exactly one of the racing starts (or stops) succeeds and the others are told so, and every call returns - also while other threads are logging or a configuration hot update is due. A stop outputs every record whose log call had returned before the stop was called, and after it has returned nothing more is output and log calls are harmless no-ops until the next start.",
 ["schedules"],"all interleavings (bounded preemptions) of two starters/stoppers, producers and consumers, with and without hot update",
 "Tests start and stop from one thread with idle producers; the windows are a few instructions wide.",
 ["fn_core.h","fn_channel.h","fn_load.h"],[("state lock and double-checked logger state","fn_core.h StartLogger/StopLogger"),("consumer exits only when told to finish and drained; stop joins it","fn_core.h StopChannels, fn_channel.h EnterProcChannel")],
 [("logger and channel state","uninit/initing/running/closing; null/running/waiting/finish","fn_data.h")],["return codes","device output before/after stop"])
p("C06","Any sequence of lifecycle and control calls is safe and leaks nothing",
 "In every order of init, start, stop, restart with another configuration, log, query and configure calls - including on a logger that was never configured or failed to configure - each call returns (success or a documented error code), never crashes, and leaves the logger in a state from which a valid configuration can be started and logs normally. Stop and destruction release every file, socket, thread and shared-memory segment the logger acquired.",
 ["histories","configurations"],"all operation sequences up to a depth over an alphabet of lifecycle operations and configurations (valid, invalid, heap- and shared-memory-backed), and each failing shared-memory or thread-creation call",
 "Tests exercise the one intended order (init, start, log, stop) and never look at misuse sequences or resources after a restart with a different configuration.",
 ["fn_core.h","fn_load.h","fn_file.h"],[("state checks on entry and error returns","fn_core.h, fn_load.h"),("stop closes handles, destructor unloads memory","fn_core.h StopLogger, ~Logger, fn_load.h UnloadSharedMemory")],None,["return codes","open descriptors, threads, shm segments, heap"])
p("C07","A synchronous channel has written the record when the log call returns",
 "With a synchronous channel used by one thread, every accepted record is in every matching device's output, in order, when its log call returns. When several threads log to it concurrently, once all their calls have returned every record has been output exactly once and intact, without crash, deadlock or use of a closed file - also across file rotation.",
 ["schedules","histories"],"single-thread histories; all interleavings (bounded preemptions) of two to three concurrently logging threads",
 "The multi-thread case is schedule dependent; tests run sync channels from one thread.",
 ["fn_channel.h","fn_out_file_device.h"],[("the logging thread drains the queue itself","fn_channel.h PushChannel -> EnterProcChannel"),("per-channel lock around device output","fn_channel.h EnterProcDevice")],None,["device output at call return / at quiescence"])
p("C08","Filtering is exact: a record reaches a device iff channel and device admit it",
 "A record is output on a device exactly if the device is enabled and both the channel's and that device's settings admit it: priority at least the threshold, category and identify inside the configured half-open range (when its count is positive) and inside the configured bit mask (when non-zero). Changing a setting through the API takes effect for later records, and no other record or device is affected.",
 ["inputs","configurations","schedules"],"all combinations of boundary values of priority, category, identify, ranges and masks over channel and two devices (categories/identifies 0..63 where a mask is set); all schedules of two threads that log through differing filters",
 "Tests use a few hand-picked configurations; the condition has 13 interacting settings evaluated at two places (enqueue and dispatch) that must agree.",
 ["fn_channel.h","fn_core.h"],[("pre-filter on the logging thread","fn_channel.h BlockInput"),("per-device filter at dispatch","fn_channel.h DispatchLog")],None,["per-device output"])
p("C09","Loading any configuration text terminates safely",
 "Parsing any byte sequence as a configuration - however malformed, truncated, or large - terminates with success or an error code, without crash, hang, or out-of-bounds access. When it reports an error, the logger keeps its previous configuration and can still be started with a valid one.",
 ["inputs"],"all byte strings up to a length over the grammar's characters, all token sequences up to a length, and all single (and bounded double) edits of valid configurations",
 "Tests parse about thirty fixed texts; totality over inputs is a universally quantified statement and hand-written scanners fail on odd truncations and bytes.",
 ["fn_parse.h","fn_load.h"],[("hand-written lexer and recursive section parsers with bounds","fn_parse.h"),("parse into a scratch state, install only on success","fn_load.h InitFromYMAL")],None,["return code","time","memory errors","state of the logger"])
p("C10","A configuration text means what the documentation says",
 "Every setting written in a valid configuration - channels, devices, kinds, priorities, category/identify ranges and bit arrays, sizes with units, rollback counts, switches, names, addresses, defined variables - takes exactly the documented value, in whatever order, spacing, comments or line endings it is written, and every unmentioned setting keeps its default. Out-of-range channel or device numbers, duplicates and keys that cannot be read as a documented one at their level are rejected.",
 ["configurations","inputs","schedules"],"all small configurations (up to 2 channels x 2 devices) over the setting alphabet with all pairs of settings and surface variants, against an independent reference; all schedules of two threads that load texts into loggers of their own",
 "Tests assert a few fields of a few texts; interactions of order, indentation, comments, macros and duplicate sections are combinatorial.",
 ["fn_parse.h"],[("key lexer, section parsers, unit and bit-array readers, variable substitution","fn_parse.h")],None,["effective settings through the API"])
p("C11","Size-limited files rotate without losing, repeating or reordering a record",
 "With a size limit and k > 0 backups, concatenating the backups from oldest to newest and the current file always yields exactly the newest records, contiguous, in order and whole; a record is discarded only by falling off the oldest backup. No file exceeds the limit unless it holds a single oversized record, no more than k backups exist, and rotation happens only when the next record would not fit, or when a new run begins without stuff_up.",
 ["histories","configurations","schedules"],"all sequences of record sizes around the limit up to a length, for several limits, backup counts, modes and restarts; all schedules of threads whose records rotate the file",
 "Tests rotate a few times with uniform records; off-by-one sizes, restart on a partially filled file and backup shifting depend on the history.",
 ["fn_out_file_device.h","fn_file.h"],[("size check before each write, close/shift/reopen","fn_out_file_device.h OpenFileDevice"),("recursive backup shifting","fn_file.h FileHandler::rollback")],None,["directory contents after every record"])
p("C12","Calendar rolling and file naming follow the record's local time",
 "With daily (hourly) rolling, every record is written to the file named for the local day (hour) of its own timestamp, and a new file is begun exactly when the local day (hour) changes, in every time zone including days on which the clock changes. File and directory name variables expand to the corresponding date, time, process and id fields, missing directories are created, and distinct devices never share a default file name.",
 ["histories","inputs","schedules"],"all sequences of timestamps over boundary instants (hour, day, month, year, leap day, DST shifts) up to a length, in several time zones; all schedules of threads that log across such an instant",
 "Tests run at the current wall-clock time in UTC and never cross a boundary.",
 ["fn_out_file_device.h","fn_file.h"],[("record time compared with the creation day/hour of the open file","fn_out_file_device.h OpenFileDevice"),("name template expansion","fn_out_file_device.h FmtName/MakeFileName/MakePathName")],None,["file names and contents"])
p("C13","Output failures lose only the affected records and recovery is automatic",
 "If opening, writing, rotating or creating a directory, or sending a datagram, fails, logging calls still return, no crash or descriptor leak occurs, other devices and channels still get every record, and once the fault is gone the device resumes within its documented retry delay. While a device works, records are written to it whole and in order, and its counters report what was written.",
 ["fault_sequences","histories","schedules"],"every placement of up to two (thorough: three) faults over the environment calls of a record history, including failing open/mkdir/rename/write/socket/send; the faults at every place of the schedules of two threads",
 "Tests run on a healthy file system; each fault point and its combination with rotation and retry timing is a separate history.",
 ["fn_out_file_device.h","fn_out_udp_device.h","fn_file.h"],[("failed open is retried after 5 s, failed write closes the file","fn_out_file_device.h, fn_file.h FileHandler::write"),("socket reopened after a pause","fn_file.h UDPHandler::open")],None,["device output, return of calls, descriptors"])
p("C14","After a crash, a shared-memory queue delivers what was not yet delivered",
 "If the process dies at any instant while logging to a channel whose queue lives in shared memory, the next start with the same key delivers every record whose log call had returned and that had not been handed to its devices, whole and in order; at most the one record being handed over at the crash is delivered again. Records whose call was in progress appear at most once, with no more than their own text so far, and are marked as recovered, and the channel works normally afterwards.",
 ["crash_points","schedules"],"a crash at every memory-visible step of every interleaving (bounded preemptions) of two producers and a consumer, followed by a recovery run, also from wrapped queue positions",
 "The tests cannot kill a process at a chosen instruction, and each crash point leaves a different combination of slot marks and indices.",
 ["fn_load.h","fn_channel.h"],[("recovery completes half-written slots and rewinds unprocessed ones","fn_load.h LoadSharedMemory"),("slots are released only after output","fn_channel.h EnterProcChannel")],None,["output of the recovered process"])
p("C15","Hot update applies a changed file's settings atomically, or not at all",
 "With hot update enabled, a changed configuration file takes effect on a running channel within the check interval: channel filters and the numeric settings of every device (switch, filters, limits, rolling, address) get the new file's values, and added devices start working. A missing, unreadable, unchanged or invalid file changes nothing, no record is lost or duplicated because of an update, and updating never deadlocks with stop or other control calls.",
 ["histories","schedules","inputs"],"all histories of (edit file, touch, advance clock, log, stop) steps up to a depth over a set of file versions; all interleavings of an update with stop and with logging",
 "Tests edit one file once and wait; invalid intermediate files and the race with stop are not reached.",
 ["fn_load.h","fn_channel.h"],[("parse into scratch state, copy under the state lock","fn_load.h HotUpdateLogger")],None,["effective settings, device output, return of stop"])
p("C16","Values are rendered exactly",
 "Every loggable value is rendered as its standard text: integers of every width in exact decimal, characters, booleans, strings and null as documented, pointers and binary dumps in exact hexadecimal, floating-point numbers within 0.0001 absolute (tiny and huge ones within relative precision) with their sign, containers as their size and up to five elements. All logging styles - stream, template, macro, printf - produce the same text for the same value.",
 ["inputs","schedules"],"all values of 8- and 16-bit types, all boundary patterns (every bit length, power of ten, digit count, carry) of 32/64-bit types, all exponents crossed with boundary mantissas, containers up to 6 elements; all schedules of two threads that format at the same time",
 "Tests check about forty values; digit-count, carry, zero and sign boundaries are where formatting code fails.",
 ["fn_fmt.h","fn_stream.h","fn_macro.h"],[("table-driven formatters","fn_fmt.h write_dec/hex/bin/double"),("stream operators","fn_stream.h LogStream")],None,["record text"])
p("C17","Oversized records are truncated safely and stay one line",
 "Whatever is appended to a record, in any order and amount, the output never exceeds the maximum record size, ends with exactly the one newline the logger adds, and never touches memory outside the record. What fits is kept: the output is the appended text in order, cut only where the record is full (within its last 40 bytes), and the records before and after are unaffected.",
 ["inputs","schedules"],"all fill levels within reach of the limit crossed with all sequences of up to three further items of every kind, in every logging style and prefix selection; all schedules of two threads with oversized records in neighbouring places",
 "Tests log one oversized string; each item kind has its own margin check and the failures are one-byte boundary cases.",
 ["fn_stream.h","fn_channel.h","fn_macro.h"],[("per-item room checks","fn_stream.h write_buffer etc."),("final clamp and newline","fn_channel.h PushChannel")],None,["record text, neighbouring memory"])
p("C18","Record prefixes are correct for every history, thread and time zone",
 "The time stamp in a record's prefix is the local calendar date and time, to the millisecond, of the moment the record was created, regardless of which time stamps the same or other threads formatted before and of day, month, year or daylight-saving changes in between. The selected prefix parts (time, priority, thread, name, description, file and line, function) appear in documented order and form, and only those.",
 ["histories","inputs","schedules"],"all pairs and triples of boundary instants formatted in sequence, in several time zones; all 128 prefix selections x priorities x path shapes; all schedules of two threads that log on different days",
 "The formatter caches the day between calls, so correctness depends on history; tests run in UTC at one instant.",
 ["fn_fmt.h","fn_stream.h","fn_channel.h"],[("per-thread day cache","fn_fmt.h write_date_unsafe"),("prefix assembly","fn_stream.h LogStream constructor")],None,["record text"])
p("C19","Counters agree with what was actually logged and written",
 "Whenever logging is quiescent, the published channel and device counters equal the truth: records reserved, pushed and processed equal the number of accepted records, byte counters equal the bytes actually put on each device in total and per priority, and they survive restarts. Concurrent updates are never lost.",
 ["schedules","histories"],"all interleavings (bounded preemptions) of concurrent loggers, and all short sequential histories over devices, priorities and rotations",
 "Tests compare a line counter in a few runs; lost updates and wrong attribution depend on interleaving and on device/priority combinations.",
 ["fn_channel.h","fn_out_file_device.h","fn_out_screen_device.h","fn_out_udp_device.h","fn_data.h"],[("atomic counters incremented at reserve, push, process and write","fn_channel.h, fn_out_*_device.h")],None,["GetChannelLog/GetDeviceLog versus output"])
p("C20","The virtual-device hook sees each admitted record once, and can forward it",
 "A registered hook is called exactly once for every accepted log call whose record the virtual device's settings admit (not again for a forwarded record), on the logging thread, before the record is output, with the record's final terminated text and attributes; records it does not admit and other devices are unaffected. Forwarding a record to another channel from the hook puts the same text there exactly once, subject to that channel's filters, without deadlock also under concurrent logging.",
 ["inputs","configurations","schedules"],"all combinations of hook, device settings and record attributes over a small alphabet, and all interleavings (bounded) of two forwarding producers",
 "Tests register one hook with one configuration from one thread.",
 ["fn_out_virtual_device.h","fn_stream.h","fn_channel.h"],[("hook call in the record's destructor before publishing","fn_stream.h ~LogStream"),("record copy into another channel","fn_channel.h TransmitChannel")],None,["hook invocations, output of both channels"])
p("C21","UDP devices send and receive records unchanged",
 "A UDP output device sends every admitted record as exactly one datagram with the record's bytes to the configured address and port. A UDP input device puts every datagram received on its configured address and port (no other), whatever its length from one byte to the record maximum, on its own output exactly once and in order with nothing of earlier records mixed in, and other devices are unaffected.",
 ["inputs","histories","fault_sequences"],"all sequences of up to three datagrams over boundary lengths, all assignments of addresses and ports to two or three input devices, and of send/receive outcomes, for all output kinds of the receiving device",
 "Tests send a few equal-length lines over loopback; length changes between datagrams and error returns are not exercised.",
 ["fn_out_udp_device.h","fn_channel.h","fn_file.h"],[("datagram per record","fn_out_udp_device.h"),("receive loop on the consumer","fn_channel.h EnterProcChannel")],None,["datagrams and device output"])
p("C22","Channels are isolated from each other",
 "A channel whose output is blocked, slow, full, being hot-updated or mis-configured at run time does not delay, drop, reorder or alter the records of another channel, and settings changed on one channel never affect another.",
 ["schedules","histories"],"all interleavings (bounded) of two channels with one consumer stuck in its device or one queue full, and all single-setting changes on one channel",
 "Tests use idle or fast channels; blocking one at each possible point is a scheduling question.",
 ["fn_channel.h","fn_core.h","fn_data.h"],[("one queue, consumer, lock and handle set per channel","fn_data.h Logger, SHMLogger")],None,["output of the other channel"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
