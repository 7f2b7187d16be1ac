import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SER="measureme/src/serialization.rs"; PROF="measureme/src/profiler.rs"; ST="measureme/src/stringtable.rs"; RAW="measureme/src/raw_event.rs"; CNT="measureme/src/counters.rs"
DEC="decodeme/src/lib.rs"; DST="decodeme/src/stringtable.rs"; DEV="decodeme/src/event.rs"; PD="analyzeme/src/profiling_data.rs"
p("C01","Concurrent recording loses, duplicates or alters no event",
 "When any number of threads record interval, instant and integer events through one shared profiler, then after every handle is dropped the trace contains exactly one event per completed recording call, with the kind, label, arguments, thread id and payload that call was given. Events of one thread appear in the order that thread completed them, and a recording call that returned before another one began precedes it in the trace. This holds for every interleaving, thread count, event count and storage-buffer fill level, including guards finished on another thread, guards whose id is overridden, and a profiler whose last handle is dropped by a worker thread.",
 ["schedules","histories","inputs"],"all interleavings of up to 8 recording threads, all operation mixes, all buffer fill levels (including page rollover during a call)",
 "The end-to-end tests run a handful of fixed nestings with free-running OS threads; they never decide who is preempted inside a buffered write and hardly ever roll a page over while another thread is writing.",
 [PROF,SER,RAW,"decodeme/src/lib.rs"],[("one event sink shared by all threads, locked per write","measureme/src/serialization.rs SerializationSink::write_atomic"),("event encoding","measureme/src/raw_event.rs"),("guards record on drop","measureme/src/profiler.rs TimingGuard/DetachedTiming")],
 ["bytes of the trace file","decoded events of the trace"],state=[("buffer+address of each stream","bytes accepted but not yet written, and the next address","measureme/src/serialization.rs SerializationSinkInner")])
p("C02","Every write gets its exact address and stays contiguous",
 "Each write to a data stream (buffered callback, byte-slice or standard-writer form, of any size from zero to many pages) returns the offset at which exactly its bytes appear, contiguously and unmodified, in the reconstructed stream. The writes of all threads tile the stream without gaps or overlaps, so its length is the sum of the write sizes. The streams sharing one storage never leak bytes into each other, for file-backed and in-memory storage alike.",
 ["schedules","inputs","histories"],"all interleavings of writers and flushers on up to 4 streams of one storage, all write sizes around the 128-byte, 128-KiB, 256-KiB and multi-page thresholds, all write forms",
 "Unit tests write equal-sized chunks from one or two free-running threads; they cannot enumerate the interleaving of a flush, a page rollover and a direct page write on the same stream.",
 [SER],[("write_atomic / write_bytes_atomic / as_std_write","measureme/src/serialization.rs"),("page split and reassembly","measureme/src/serialization.rs write_page, split_streams")],
 ["addresses returned by the write calls","reconstructed streams (in-memory result and storage file)"],state=[("addr","next stream offset, must equal bytes accepted","measureme/src/serialization.rs SerializationSinkInner")])
p("C03","Storage always holds a header followed by whole, bounded pages",
 "Between any two page writes the storage consists of the file header followed only by complete pages, each with a valid stream tag, a non-zero size of at most 256 KiB that equals its content length, and content belonging to that one stream; at every other instant exactly one such page is incomplete, at the very end. No bytes already written are ever overwritten, moved or removed. This holds for every interleaving of recording threads and stays true through flushes and drops.",
 ["schedules","histories"],"every prefix of the storage's write history under every schedule of recording, flushing and dropping threads",
 "The tests look at the finished storage only; the page invariant has to hold at every intermediate instant under every interleaving of the three streams' page writes.",
 [SER,PROF],[("page header + content written under the shared storage lock","measureme/src/serialization.rs write_page"),("file header first","measureme/src/profiler.rs Profiler::with_counter")],
 ["sequence of write system calls reaching the storage file"],state=[("shared_state","the single backing storage of all streams","measureme/src/serialization.rs SharedState")])
p("C04","A crash at any instant leaves a faithful prefix or a clean refusal",
 "If the recording process dies at any instant, the file it leaves contains, in every complete page, exactly the beginning of what was recorded on that stream, and everything acknowledged is there except at most the last 256 KiB of each stream. Reading such a file either fails visibly or yields only events that were really recorded, in order, with their original content, and never an invented or altered one; a text whose definition did not reach the file may show as a visible placeholder. Once the profiler has been dropped, a crash loses nothing.",
 ["crash_points","schedules","histories"],"process death after every storage byte and at every scheduler step, for all interleavings of the recording threads",
 "No test crashes the recorder; the quantifier ranges over crash points inside page writes and between the flushes of three independent streams.",
 [SER,PROF,DEC,DST],[("append-only pages","measureme/src/serialization.rs write_page"),("reader reassembly and checks","decodeme/src/lib.rs EventDecoder::new")],
 ["trace file at the moment of death","result of opening and decoding it"],state=[("buffer","accepted bytes that a crash loses","measureme/src/serialization.rs SerializationSinkInner")])
p("C05","Short and interrupted writes never change the trace",
 "If the operating system accepts only part of a write or interrupts it, any number of times and at any point of any header or page, recording continues without an error and the finished file is exactly what it would have been without those disturbances. The same holds for interrupted or partial reads when the trace is loaded.",
 ["fault_sequences","schedules"],"all sequences of short writes, short reads and EINTR, at every byte position, under all interleavings",
 "Real disks in the test environment never return short counts or EINTR; the tests cannot place them inside a page header or between header and content.",
 [SER,PROF,"measureme/src/file_header.rs",PD],[("complete-write loops","measureme/src/serialization.rs write_page; measureme/src/file_header.rs write_file_header"),("whole-file read","analyzeme/src/profiling_data.rs ProfilingData::new")],
 ["write/read system calls and their results","final trace file and decoded events"])
p("C06","A failed write is reported and never corrupts the trace",
 "When the storage fails for good (disk full or I/O error at any byte, permanently or for a while) the failure always surfaces to the recording program as a panic or an error, and never as silent loss: a trace that lacks acknowledged data implies a reported failure. Bytes written before the failure stay as they were, and no later write may turn the file into one that decodes to events or strings that were not recorded. If the file or directory cannot be created, the constructor returns an error.",
 ["fault_sequences","schedules"],"every failing byte offset, error kind and duration (persistent, transient, full disk that is freed again), under all interleavings, including continued use by other threads and failures during drop",
 "No test injects an I/O error; the interesting cases need a failure in the middle of a page followed by further writes from other threads or streams.",
 [SER,PROF],[("error propagation from page writes","measureme/src/serialization.rs write_page, SerializationSink::drop, StdWriteAdapter::flush"),("constructor errors","measureme/src/profiler.rs Profiler::with_counter")],
 ["panics/errors seen by the recording threads","trace file after the failure and what it decodes to"],state=[("backing storage","must not accept pages after a torn one","measureme/src/serialization.rs BackingStorage")])
p("C07","Every string id resolves to exactly the text it was given",
 "A string id obtained from an allocation, whether of plain text, of a composite of texts and references, or of an event label with arguments, resolves in the finished trace to exactly the text it was built from, for every length, placement and nesting and however threads interleave their allocations. A virtual id mapped alone or in bulk resolves to its target string (the one mapped last, if it was mapped more than once), a virtual id never mapped resolves to the \"<unknown>\" placeholder, and both ways of expanding a string agree. Event labels and argument lists whose elements are non-empty and free of control characters other than white space come back element by element as they were built.",
 ["schedules","histories","inputs"],"all interleavings of allocating and mapping threads; strings of length 0 to several pages, placed at arbitrary offsets; composites up to 16 components and deep nesting; ids over the whole virtual range",
 "Tests allocate a few short strings on one thread at the very start of a table; offsets, lengths, nesting and concurrent placement are unbounded.",
 [ST,DST,"measureme/src/event_id.rs",DEV],[("string table encoding","measureme/src/stringtable.rs StringTableBuilder"),("string expansion","decodeme/src/stringtable.rs StringRef"),("event-id grammar","measureme/src/event_id.rs, decodeme/src/event.rs")],
 ["ids returned at recording time versus texts decoded from the trace"])
p("C08","Timestamps follow the monotonic clock and nothing else",
 "The timestamp of every event equals the time elapsed on the monotonic clock since the profiler was created, read during the call that recorded it (start and finish for intervals), with nanosecond resolution and without regard to wall-clock jumps, time zones or other threads. An interval never ends before it starts, and values of 48 bits that cannot be represented are rejected by a panic rather than stored wrapped, including integer values. Decoded times are the recorded session start time plus exactly these offsets.",
 ["schedules","fault_sequences","histories","inputs"],"all clock behaviours (ties, long stalls, wall-clock jumps in either direction, offsets up to and beyond 2^48 ns) at every point of every interleaving",
 "Tests use the machine's real clock: they cannot stall it, jump the wall clock, or run for 78 hours to reach the 48-bit limit.",
 [CNT,PROF,RAW,"decodeme/src/event_payload.rs"],[("elapsed time source","measureme/src/counters.rs WallTime"),("48-bit packing and markers","measureme/src/raw_event.rs"),("time decoding","decodeme/src/event_payload.rs")],
 ["clock reads under the simulator versus payloads in the trace"])
p("C09","A call that panics leaves all other recorded data intact",
 "If a recording call panics part-way, because a caller-supplied string serializer, write callback or id iterator panics, or because its arguments are rejected, then every write before, after and concurrent with it is still stored exactly as in a run without the panicking call. Ids and addresses handed out later still resolve to their own data, nothing of the failed call shows up as an event or string, and no other thread is blocked.",
 ["fault_sequences","schedules","histories"],"panics at every callback and argument check, at every buffer fill level, interleaved with all other threads' operations",
 "No test lets a callback panic inside a write and then continues to use the same stream.",
 [SER,ST,PROF],[("callback run while the stream is locked","measureme/src/serialization.rs write_atomic"),("argument checks","measureme/src/raw_event.rs, measureme/src/stringtable.rs")],
 ["streams and decoded trace after caught panics"],state=[("buffer length versus addr","must stay in step when a callback unwinds","measureme/src/serialization.rs SerializationSinkInner")])
p("C10","All ways of reading a trace agree",
 "Forward, backward and arbitrarily mixed iteration over a trace visit every event exactly once and agree with each other, with the reported event count and remaining-length hints, and with the light-weight and full views of the same event. Loading from a path, from a path stem and from an in-memory copy gives the same data. If reading the file fails (I/O error, missing file), loading returns an error instead of partial data.",
 ["histories","fault_sequences","inputs"],"all traces produced by simulated recordings, all consumption orders from both ends, all read-fault positions",
 "Tests iterate three-event traces in a few fixed orders and never see a failing read.",
 [PD,DEC,"decodeme/src/lightweight_event.rs"],[("double-ended event iterator","analyzeme/src/profiling_data.rs ProfilerEventIterator"),("loading","analyzeme/src/profiling_data.rs ProfilingData::new, from_paged_buffer")],
 ["events and lengths reported by the reader under each consumption order"])
p("C11","Foreign, damaged or incomplete containers are refused",
 "Loading refuses, by returning an error, every file that is shorter than its header, whose file or stream magic or version differs from a supported one in any bit, in which any of the three streams is missing, or whose session metadata is absent or unreadable. A file cut short at any byte is refused, fails visibly, or yields only events that were recorded. A supported, undamaged file is never refused. (For the previous format a missing stream may also fail by a panic of the released reader that handles it.)",
 ["fault_sequences","inputs","crash_points"],"every bit flip in every header byte, every lost stream, every truncation point, over simulated recordings in both supported format versions",
 "Unit tests flip two header bytes of one stream; the quantifier is over all damage positions in all streams of all traces.",
 ["measureme/src/file_header.rs",DEC,DST,PD],[("header verification","measureme/src/file_header.rs verify_file_header, decodeme/src/lib.rs read_file_header"),("stream presence and metadata checks","decodeme/src/lib.rs EventDecoder"),("version dispatch","analyzeme/src/profiling_data.rs from_paged_buffer")],
 ["result of loading a damaged storage image"])
p("C12","Traces in the previous file format read back faithfully",
 "A trace written by the last release that used the previous (version 8) format, under any interleaving of its recording threads, loads with the current reader and yields the same events, strings, arguments, payloads, order and session metadata that were recorded. Its summary, stack profile and event listing equal those of the same session recorded in the current format.",
 ["schedules","histories","inputs"],"all simulated multi-threaded sessions recorded with the v8 writer",
 "The repository ships no v8 trace in its tests; compatibility is only compiled, not exercised over histories.",
 ["analyzeme/src/file_formats/v8.rs","analyzeme/src/file_formats/mod.rs",PD],[("v8 adapter","analyzeme/src/file_formats/v8.rs"),("version dispatch","analyzeme/src/profiling_data.rs")],
 ["events, metadata and analysis results read from v8 files"])
p("C13","The summary attributes every nanosecond and invocation correctly",
 "For every recorded history whose intervals are properly nested on each thread the analysis reports, per label, the exact total time, self time (own time minus that of directly nested intervals on the same thread), invocation, cache-hit and cache-miss counts, blocked, incremental-load and incremental-hashing time, the summed artifact sizes per label, and the total time as the sum over threads of their first-start-to-last-end span. Self times of one thread add up to the time covered by its outermost intervals, and results do not depend on how threads were interleaved in the trace. The summary tool prints these figures and writes them to its JSON file unchanged.",
 ["schedules","histories"],"all multi-threaded nesting histories with arbitrary clock advances and ties, all interleavings of the threads' events in the file",
 "Unit tests analyse a dozen hand-written traces, nearly all single-threaded; correctness has to hold for every nesting and every interleaving.",
 ["analyzeme/src/analysis.rs","summarize/src/main.rs"],[("backward pass with per-thread stacks","analyzeme/src/analysis.rs perform_analysis"),("table and JSON output","summarize/src/main.rs")],
 ["analysis results and summarize output versus a direct recomputation from the recorded history"])
p("C14","Collapsed stacks conserve time and call paths",
 "For every recorded history whose intervals are properly nested on each thread the collapsed stacks contain exactly the call paths that occurred (root frame, then the labels of the enclosing intervals of the same thread, outermost first), each with the summed self time of that path, and the root frame alone carries the gaps between outermost intervals of every thread. All values together equal the sum over threads of their first-start-to-last-end span. The stack-collapse tool writes exactly these lines and the flame graph tool draws exactly these frames.",
 ["schedules","histories"],"all multi-threaded nesting histories with arbitrary clock advances, all interleavings of the threads' events in the file",
 "Two hand-written traces are tested; the tools have no tests at all.",
 ["analyzeme/src/stack_collapse.rs","stack_collapse/src/main.rs","flamegraph/src/main.rs"],[("stack collapsing","analyzeme/src/stack_collapse.rs"),("output","stack_collapse/src/main.rs, flamegraph/src/main.rs")],
 ["collapsed stacks, out.stacks_folded, rustc.svg"])
p("C15","The Chrome export is faithful and its merged lanes never overlap",
 "The Chrome-trace export of one or several traces is valid JSON with exactly one complete event per recorded interval not shorter than the requested minimum, carrying its label, category, arguments, process id, start and duration in microseconds, plus the process metadata of each trace. Without thread collapsing thread ids are the recorded ones. With collapsing, all events of one thread share one lane and no two threads whose activity overlaps in time share a lane.",
 ["schedules","histories","configurations"],"all multi-threaded histories, thread lifetimes and option combinations",
 "The exporter has no tests; lane assignment depends on the relative lifetimes of all threads.",
 ["crox/src/main.rs"],[("event conversion","crox/src/main.rs main"),("lane assignment","crox/src/main.rs generate_thread_to_collapsed_thread_mapping")],
 ["chrome_profiler.json"])
p("C16","The event viewer lists every event exactly as recorded",
 "The viewer prints every event of a trace, or with a thread filter every event of that thread and no other, in trace order with its kind, label, arguments, thread id and payload. Times are printed in whole microseconds relative to the earliest start in the whole trace, so filtering never shifts them.",
 ["schedules","histories","configurations"],"all simulated multi-threaded traces and filter choices",
 "The viewer has no tests.",
 ["mmview/src/main.rs"],[("listing","mmview/src/main.rs")],["standard output of the viewer"])
p("C17","Comparing and aggregating profiles reports the true differences",
 "The difference of two profiles lists every label found in either, with change minus base for every time and count and for artifact sizes, negative when a label disappeared, with the largest changes of self time first, and the total time difference, equally for two traces and for two previously written JSON summaries. Comparing a profile with itself yields zero everywhere, and swapping the inputs negates the result. Aggregating repeated runs with the same event sequence reports the true smallest and largest durations and variations between neighbouring points in time, and runs with different sequences or several threads are refused.",
 ["histories","configurations","schedules"],"all pairs (and small sets) of simulated sessions, including ones where labels appear in only one of them and where clocks ran differently",
 "Only duration subtraction is unit-tested; no test compares or aggregates recorded profiles.",
 ["summarize/src/diff.rs","summarize/src/aggregate.rs","summarize/src/main.rs"],[("diff","summarize/src/diff.rs calculate_diff"),("aggregation","summarize/src/aggregate.rs"),("input selection","summarize/src/main.rs process_results")],
 ["summarize diff --json output and table, summarize aggregate output"])
p("C18","Truncating a trace keeps it valid and all its strings intact",
 "Truncating a supported (version 7 or 8) trace yields a file that loads, contains the first page of events in their original order and content, the complete string tables, and therefore the same metadata and texts. Files of other versions are refused, and the input file is never modified.",
 ["histories","schedules","inputs"],"all simulated v8 recordings, in particular those with interleaved pages of all three streams",
 "The tool has no tests.",
 ["mmedit/src/main.rs"],[("page filter","mmedit/src/main.rs truncate")],["truncated output file and its decoded content"])
p("C19","Hardware counters fail softly and count exactly what they say",
 "Asking for a counter by name on any machine, kernel or permission setting either yields a working counter or returns an error, and never panics or ends the process. This holds when any system call of the set-up fails, and while the kernel rewrites the counter's control page as it is being read: the decision follows one consistent state of that page. An error caused by a failing call names that call's reason, and no descriptor or mapping is left behind. A working counter, used on the thread that created it for as long as the kernel leaves it in its register, makes every recorded instant and interval end point equal to the number of user-space events since its creation, wherever the 48-bit register started and also when it passes zero, so values never decrease. The interrupt-corrected counters subtract exactly what the interrupt event of that CPU model counted. The trace's metadata names the counter and its unit.",
 ["fault_sequences","configurations","histories"],"all failure points of the counter set-up, all CPU models, all rewrites of the control page during set-up, all register start values and counting histories",
 "The sandbox and CI have no usable hardware counters, so none of this code runs in the tests.",
 [CNT],[("counter selection","measureme/src/counters.rs Counter::by_name"),("rdpmc read and set-up","measureme/src/counters.rs hw")],
 ["results of counter creation, open descriptors and mappings, and values recorded in events"])
p("C20","Tools never report success with missing or partial output",
 "When an output file or the standard output of any of the tools cannot be created or written completely (disk full, I/O error, at any byte), the tool exits with a failure status; if it exits successfully its output is complete and identical to that of an undisturbed run. An unreadable or invalid input likewise gives a failure status and never a seemingly complete result.",
 ["fault_sequences"],"every failing output byte offset and error kind, every failing input read, for each tool",
 "No test runs the tools against a failing disk.",
 ["crox/src/main.rs","stack_collapse/src/main.rs","flamegraph/src/main.rs","summarize/src/main.rs","mmview/src/main.rs","mmedit/src/main.rs"],[("output writing","each tool's main"),],["exit status and output files of the tools under injected I/O faults"])
p("C21","Recording never deadlocks and always makes progress",
 "Every recording, allocation, mapping, flush and drop call returns in a bounded number of steps once the other threads keep being scheduled, whatever the interleaving, even after other calls panicked or storage failed, and whatever spurious wake-ups occur. In particular no set of threads recording, flushing and dropping handles can block one another for ever.",
 ["schedules","fault_sequences"],"all interleavings of all public recording calls, with panicking callbacks, failing storage and spurious wake-ups",
 "Deadlocks need a specific interleaving of two lock acquisitions, which free-running tests practically never hit.",
 [SER,PROF,ST],[("stream lock then storage lock","measureme/src/serialization.rs")],["termination of every simulated task"],state=[("locks","stream lock and shared storage lock, always taken in this order","measureme/src/serialization.rs")])
p("C22","Session metadata survives whatever the environment looks like",
 "Every trace that a profiler produced can be opened and reports the process id, the wall-clock start time of the session to the nanosecond and the command line of the recording process, each argument in order followed by a space. This holds for arguments with quotes, backslashes, control characters, non-ASCII text, and for any number or length of arguments. Creating a profiler never fails because of the contents of the command line, and arguments that are not valid Unicode are represented with replacement characters.",
 ["inputs","configurations"],"all process ids, start times and argument vectors",
 "Tests run under the test runner's own plain command line only.",
 [PROF,DEC],[("metadata string","measureme/src/profiler.rs Profiler::with_counter"),("metadata parsing","decodeme/src/lib.rs Metadata")],["metadata reported by the reader"])
p("C23","Sessions are independent of each other and of what was there before",
 "Any number of profilers may exist in one process, at the same time or one after another, writing to different files, with threads that use several of them in turn. Each trace contains exactly what was recorded through its own profiler (events, strings and ids, in their order, with times since its own creation and its own metadata), as if it had been alone, whatever the others record, reject or drop, and even when another one's storage fails. A file that was already at the target path, of any length and content, is replaced completely, and missing parent directories are created. No file other than the traces is written.",
 ["histories","schedules","fault_sequences","configurations"],"all pairs of sessions created together, one inside the other or one after the other, all interleavings of threads that use both, all previous contents of the target, storage of one failing at any byte",
 "Each test creates one profiler at a fresh path; none has two alive at once, reuses a path or lets one of two sessions fail.",
 [PROF,SER,ST,RAW],[("per-profiler sinks and shared storage","measureme/src/profiler.rs Profiler::with_counter"),("storage creation","measureme/src/serialization.rs SerializationSinkBuilder::new_from_file; measureme/src/profiler.rs")],
 ["trace files of all sessions","list of files written"])
p("C24","A tool's result depends on nothing but its input",
 "Running any of the tools again on the same input files with the same options ends the same way and gives byte for byte the same output, whatever the hash seeds, process id, time of day, speed of the clock and the way reads and writes are split or interrupted; where crox merges a directory of traces, only the order of its entries may follow the order of the directory. No tool changes one of its input files.",
 ["configurations","fault_sequences","inputs"],"all simulated traces and summaries, all tools and options, all sources of randomness and time a process can reach",
 "A test run once cannot notice an order that comes from a random hash seed, and nearly no test runs a tool at all.",
 ["summarize/src/diff.rs","summarize/src/main.rs","summarize/src/aggregate.rs","crox/src/main.rs","flamegraph/src/main.rs","stack_collapse/src/main.rs","mmview/src/main.rs","mmedit/src/main.rs","analyzeme/src/analysis.rs","analyzeme/src/stack_collapse.rs"],[("order of rows","summarize/src/diff.rs calculate_diff; analyzeme/src/analysis.rs"),("output path","summarize/src/main.rs write_results_json")],
 ["exit status, standard output and files of repeated runs"])
p("C25","A session's footprint is bounded and released",
 "However much a session that writes to a file records, from however many threads, and however many of its calls fail, it holds no more than a fixed amount of memory (page buffers, below 2 MiB) and a multiple of the largest single call in progress per thread, and no more than a few file descriptors. Once its last handle is dropped, or its creation has failed, all of its memory and descriptors are released, whether or not its storage works and whether or not a panic is unwinding at the time.",
 ["schedules","fault_sequences","histories"],"all histories of recording calls of any length, all schedules, all storage errors, sessions one after the other",
 "A leak or a cache needs a long history, a failing call or a failing creation to become visible; the tests record a few hundred kilobytes, look at no allocation and no descriptor.",
 ["measureme/src/serialization.rs","measureme/src/stringtable.rs","measureme/src/profiler.rs"],[("page buffers","measureme/src/serialization.rs write_atomic, write_bytes_atomic, flush"),("release","measureme/src/serialization.rs Drop; measureme/src/profiler.rs with_counter")],
 ["bytes of heap in use and open descriptors during and after every call"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
