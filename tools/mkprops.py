#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Source of truth for the property texts."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["include/pluto/"+f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

TP="include/pluto/thread_pool.hpp"; LG="include/pluto/logger.hpp"
tpstate=[("m_waitingTasks","tasks accepted but not started, ordered by priority then arrival",TP),
         ("m_workers / m_targetWorkersSize / m_activeWorkersSize","worker threads owned, wanted, and running a task",TP),
         ("m_scheduledTasks","tasks waiting for their time",TP),
         ("m_isStopping / m_onStop","destruction in progress and what to do with queued work",TP)]

p("C01","Thread pool runs every accepted task exactly once",
  "A task handed to a thread pool (asynchronously, synchronously, or for a later time once that time has come) is started at most once, and is started once as soon as a worker thread is free to take it, no matter how many threads submit, resize, observe or wait at the same time. Nothing is ever run that was not submitted, no queued task is left behind while a worker that may take it sits idle, and using the pool concurrently never crashes or deadlocks it.",
  ["schedules","programs"],"every interleaving of any number of threads and tasks (including tasks that submit tasks) using any mix of the pool's operations",
  "The tests run a handful of fixed programs under whatever schedule the OS happens to give; a lost wake-up, double dequeue or race needs one particular interleaving.",
  ["thread_pool.hpp"],[("run_async/start_working",TP),("start_scheduling",TP)],tpstate,["task start/end","return of each pool call","quiescence of the process"])
p("C02","Thread pool starts tasks by priority, then submission order",
  "Whenever a worker takes a task, it takes one with the highest priority among all tasks waiting at that moment. Among waiting tasks of equal priority the one that was submitted first is taken first.",
  ["schedules","programs"],"every sequence of submissions with every priority from lowest to highest, under every interleaving of submitters and workers",
  "One test checks one fixed order with one worker; nothing varies who submits, when the queue drains, or tasks submitted by running tasks.",
  ["thread_pool.hpp"],[("ordered waiting queue",TP),("dequeue at begin()",TP)],tpstate[:1],["task start order"])
p("C03","Resizing the pool keeps tasks safe and respects the worker limit",
  "Raising the target worker count takes effect before the call returns; lowering it makes surplus workers leave once they finish the task they are running, without taking another one, and no accepted task is lost or run twice because of it. Tasks running at the same time never exceed the number of workers, the worker count settles at the target, and a pool whose target is raised again (even from zero) resumes the queued work.",
  ["schedules","programs"],"every sequence of grow and shrink requests, from clients or from tasks, interleaved with submissions and running tasks",
  "The resizing tests sample a few sizes at rest; a shrink racing a dequeue, an immediate re-grow, or a shrink from within a task is never explored.",
  ["thread_pool.hpp"],[("target_workers_size(size)",TP),("worker loop condition and self-removal",TP)],tpstate[1:2],["workers_size/target_workers_size","task start/end"])
p("C04","Pool destruction honours its stop policy and always finishes",
  "Destroying a pool lets running tasks finish and returns only when no task is running; afterwards no task ever starts. With the join policy, tasks still queued may be dropped; with the complete policy, every task waiting in the queue is run before destruction returns (provided the pool has a worker), whatever resizing happened just before. Tasks scheduled for a later time do not delay destruction.",
  ["schedules","programs","configurations"],"every state of the pool at the moment destruction begins (queue contents, running tasks, pending resize, pending scheduled tasks) and every interleaving from there",
  "The tests destroy idle pools or pools with a fixed backlog; destruction racing a resize, a scheduler wake-up or a task that submits more tasks is not reached.",
  ["thread_pool.hpp"],[("~thread_pool",TP),("start_working exit condition",TP)],tpstate[3:],["destructor return","task start/end"])
p("C05","Blocking pool calls return exactly when their condition holds",
  "A synchronous run returns only after its own task has finished; waiting for 'no tasks waiting' returns only at a moment when no task is queued; waiting for 'all tasks complete' returns only at a moment when nothing is queued and nothing is running. Each of these calls does return once its condition holds and stays true, including when workers are being removed.",
  ["schedules","programs"],"every interleaving of waiters, submitters, resizes and workers",
  "A missed or premature wake-up needs a specific interleaving of the waiter with the last dequeue, the last completion or a worker's exit.",
  ["thread_pool.hpp"],[("run_sync/wait_until_no_tasks_waiting/wait_until_all_tasks_complete",TP),("notifications in start_working",TP)],tpstate[:2],["call/return of the blocking calls"])
p("C06","Scheduled tasks run once, on time, in order and never early",
  "A task scheduled for a time (or after a delay) never becomes runnable before that time, is handed to the workers once when the time has come, and then obeys its priority like any other task; a task due earlier that was scheduled first is never overtaken by a later-due one. This holds for any number of threads scheduling concurrently, for times already past, and when the schedule repeatedly empties and refills.",
  ["schedules","programs","histories"],"every set of due times, every advance of the clock and every interleaving of scheduling threads with the thread that watches the schedule",
  "The tests schedule one task at a time with real sleeps; concurrent scheduling, the schedule emptying while another is added, and re-ordering of deadlines are never exercised.",
  ["thread_pool.hpp"],[("run_at/run_after",TP),("start_scheduling",TP)],tpstate[2:3],["task start with clock value","scheduled_tasks_size"])
p("C07","Pool size observers report one consistent moment",
  "Each size reported by the pool (workers, target workers, active, waiting, queued and scheduled tasks, stop policy) equals the true value at some single moment during the call. Composite values such as idle workers (workers minus active) and total tasks (waiting plus active) are taken at one moment, never go negative, and a task counts as queued or active from acceptance until it has finished.",
  ["schedules","histories"],"every interleaving of observers with submissions, dequeues, completions, resizes and clock advances",
  "Tests read sizes in quiescent states; torn or stale reads only show under concurrent transitions.",
  ["thread_pool.hpp"],[("*_size observers under the pool lock",TP)],tpstate,["return values of observers"])
lgstate=[("m_logFiles[..].buffer","entries accepted but not yet written, per file",LG),
         ("m_bufferMaxSize/m_bufferFlushSize/m_numDiscardedLogs","buffer bound, flush threshold, discard counter",LG),
         ("m_isLogging/m_level","accepting logs, minimum level",LG)]
p("C08","Every accepted log entry is written exactly once, in order, intact",
  "Each log entry accepted for a file (not filtered by level, not counted as discarded) appears exactly once in that file, or the files it was rotated into, by the time the logger has been destroyed, with its message, level, source information, thread and time unchanged. Entries logged by one thread to one file appear in the order they were logged, entries of different threads whose calls do not overlap appear in call order, and nothing else is written apart from headers.",
  ["schedules","programs"],"every interleaving of logging threads, the background writer, and configuration changes",
  "The tests log from one thread and wait for a flush; loss, duplication or reordering needs a log call landing between the writer's snapshot, its unlocked write, and its removal of written entries.",
  ["logger.hpp"],[("add_log_to_buffer",LG),("start_logging/write_buffer_to_file",LG)],lgstate,["file contents","num_discarded_logs"])
p("C09","The logger flushes at its threshold and its destruction terminates",
  "Whenever a file's pending entries reach the flush threshold, the background writer eventually writes them without any further call being made, including when the threshold is lowered below what is already pending; while the logger lives nothing is written for a file before its pending entries have reached the threshold. Destroying the logger always terminates and leaves every pending entry written, whatever the writer was doing at that moment.",
  ["schedules","configurations"],"every interleaving of log calls, threshold changes and destruction with the writer thread going to sleep",
  "A lost wake-up needs the notification to land in the few instructions between the writer's check and its wait.",
  ["logger.hpp"],[("notify in add_log_to_buffer/buffer_flush_size/~logger",LG),("start_logging wait",LG)],lgstate,["file contents at quiescence","destructor return"])
p("C10","Log buffers stay within their bound and discards are counted exactly",
  "With a buffer limit set, an entry is discarded only if that many entries for that file are already pending, it is never accepted beyond the limit, and with no limit nothing is discarded. The discard counter equals the number of entries discarded since it was last reset, so accepted plus discarded equals the entries logged.",
  ["schedules","programs","configurations"],"every limit and flush size (including changes at run time), every interleaving of loggers and writer",
  "The tests check one full buffer with the writer idle; the bound and the counter under concurrent loggers and mid-run changes are not sampled.",
  ["logger.hpp"],[("add_log_to_buffer bound check and counter",LG)],lgstate,["num_discarded_logs","file contents"])
p("C11","Level filtering and every logging API agree",
  "An entry is recorded if and only if its level is at or above the logger's level at the call, and each of the write, printf-style, format and stream interfaces (and their macro forms) records exactly one entry whose message is exactly what was written, formatted or streamed, for every message including empty and very long ones. A stream that is ended and then destroyed records once, and the macros evaluate their arguments only if the level is enabled.",
  ["inputs","configurations"],"every pair of logger level and entry level, every message, every API",
  "The tests sample a few messages and levels per API; the full level matrix and message shapes (empty, embedded conversions, lengths) are not covered.",
  ["logger.hpp"],[("should_log/write/writef/format/streamer",LG),("PLUTO_LOG_* macros",LG)],lgstate[2:],["file contents","should_log"])
p("C12","Log rotation keeps sizes, order, limit and headers",
  "With rotation enabled, a record is only ever written to the current file while that file is below the rotation size; otherwise the current file first becomes number 1, each older file's number grows by one, and files beyond the limit are removed. Reading the files from highest number to the current one yields the records in order with only whole oldest files missing, every file starts with exactly one header when headers are enabled (and has none otherwise), and a file left by an earlier logger is appended to, not overwritten.",
  ["programs","configurations","histories"],"every sequence of record sizes, rotation sizes, limits (including zero and changes at run time) and pre-existing files",
  "The tests rotate a few fixed files; limit changes, limit zero, pre-existing and gapped file sets and batches spanning several rotations are not explored.",
  ["logger.hpp"],[("rotate_file/write_buffer_to_file",LG)],lgstate[:1],["directory listing and file contents"])
p("C13","Log entries survive file-system failures",
  "If a log file cannot be opened, its directory cannot be created or rotation fails, no accepted entry is lost, duplicated or reordered: entries stay pending and are written once the failure goes away while the logger lives. Failure of one file does not lose or corrupt entries of another.",
  ["fault_sequences","schedules"],"every sequence of file-system failures (at open, directory creation, rename, remove) interleaved with logging and recovery",
  "No test injects a file-system error; retention and retry are never executed.",
  ["logger.hpp"],[("catch and return of the first unwritten entry in write_buffer_to_file",LG)],lgstate[:1],["file contents after recovery"])
LR="include/pluto/lru_cache.hpp"; SL="include/pluto/safe_lru_cache.hpp"
p("C14","The LRU cache is exactly least-recently-used",
  "For every sequence of operations the cache holds at most its capacity, and when room is needed evicts exactly the key that was least recently inserted, assigned or successfully read; membership tests and rejected inserts do not count as use. Every lookup, insert, assign, remove, clear and capacity change returns and leaves precisely what this model says, including capacity zero and repeated resizes.",
  ["histories","inputs"],"every finite history of operations over any keys, values and capacities",
  "The tests play a dozen short histories; the property is about all histories, and state errors (recency order, map/list disagreement) only show several operations later.",
  ["lru_cache.hpp"],[("insert/get/remove/capacity/evict_lru/move_to_front",LR)],[("m_list","keys in recency order",LR),("m_map","key to value and position",LR)],["return values","size/contains/get"])
p("C15","Copied and moved caches are independent and equivalent",
  "A copy of a cache behaves exactly like the original would from that point on, and afterwards operations on either have no effect on the other. Moving a cache transfers its full state, and assigning to a cache replaces its whole state.",
  ["histories"],"every history before the copy or move and every pair of histories after it",
  "No test copies or moves a cache at all.",
  ["lru_cache.hpp"],[("copy/move construction and assignment",LR)],[("m_map iterators into m_list","must refer to the same object's list",LR)],["return values of both caches after the copy"])
p("C16","The thread-safe LRU cache is linearizable",
  "Every concurrent history of the thread-safe cache is equivalent to some sequential history of the plain cache that respects the real-time order of non-overlapping calls, with the same results. In particular concurrent reads that update recency never corrupt the cache, race or deadlock.",
  ["schedules","histories"],"every interleaving of any number of threads performing any mix of cache operations",
  "The tests use the cache from one thread or under an uncontrolled schedule without checking results against a sequential order.",
  ["safe_lru_cache.hpp"],[("reader/writer lock around each operation",SL)],[],["call/return history with values"])
SC="include/pluto/scope.hpp"
p("C17","Scope-exit tasks run exactly once, in reverse order, safely",
  "When a scope-exit object is destroyed, every task added to it has run exactly once, the most recently added first, whether the scope is left normally, by return or by an exception. A task that throws neither escapes nor prevents the remaining tasks; empty tasks are skipped; tasks added while the tasks are being run are run too.",
  ["programs","inputs"],"every sequence of additions (including empty, throwing and self-adding tasks) and every way of leaving the scope",
  "The tests use at most a few well-behaved tasks; throwing tasks and additions during destruction are combinations they do not enumerate.",
  ["scope.hpp"],[("~on_scope_exit",SC)],[],["order of task execution"])
p("C18","Scope success and failure tasks run in exactly the right case",
  "Tasks of a scope-success object run if and only if its own scope was left without an exception propagating out of it, and tasks of a scope-failure object run if and only if its own scope was left by an exception. This also holds for scopes entered while another exception is already propagating (such as inside a destructor during unwinding) and for scopes whose exception is caught inside the scope; the tasks run once each, newest first, with their exceptions swallowed. (Scopes entered during unwinding need C++17 or later: C++14 cannot count propagating exceptions.)",
  ["programs"],"every nesting of scopes, throws, catches and destructors that themselves open scopes",
  "The tests only use guards directly in a function that throws or returns; nested unwinding is not covered.",
  ["scope.hpp"],[("~on_scope_success/~on_scope_fail",SC)],[],["which tasks ran"])
SW="include/pluto/stopwatch.hpp"
p("C19","The stopwatch measures exactly the time it was running",
  "For every sequence of start, stop, reset, restart and reads, the reported time equals the total clock time spent running since the last reset or restart; starting while running and stopping while stopped change nothing. Counts in each unit are that time truncated to the unit, and the per-unit parts recombine (with hours unbounded) to exactly that time.",
  ["histories","inputs"],"every history of operations and clock advances, every elapsed duration",
  "The tests sleep for a few milliseconds and compare approximately; they cannot distinguish off-by-one units, double counting or a rollover error.",
  ["stopwatch.hpp"],[("start/stop/reset/restart/time",SW),("count and *_part",SW)],[],["time/count/parts under a controlled clock"])
RG="include/pluto/range.hpp"
p("C20","Range comparisons form one consistent order and overlap relation",
  "For all ranges, ordering is lexicographic by begin then end and is a strict total order consistent with equality, and each comparison operator agrees with it. Two ranges overlap exactly when they start at the same point or each starts before the other ends, and for non-empty ranges the no-overlap ordering holds exactly when the ranges are ordered and do not overlap.",
  ["inputs"],"all pairs and triples of ranges, including empty and touching ones",
  "The tests compare a few hand-picked ranges; laws over pairs and triples are not checked.",
  ["range.hpp"],[("is_equal/is_less/is_overlapping/is_less_no_overlap and operators",RG)],[],["return values"])
IT="include/pluto/iterator.hpp"; CO="include/pluto/container.hpp"; ST="include/pluto/string.hpp"
p("C21","Sequence matching agrees with its definition in every form",
  "Equality, prefix, suffix, first/last occurrence of an element, of a subsequence or of a predicate match, and containment return exactly what the definition on sequences gives, including empty sequences and matches at the borders. The iterator, container and string forms give the same answer for every kind of sequence (random access or not) and for custom predicates, which are given the left element and then the right one, and never read outside the sequences.",
  ["inputs","configurations"],"all pairs of sequences over any alphabet, any container kind, any predicate, symmetric or not, each supported language standard",
  "The tests check one or two literals per function; the functions have separate code paths per iterator kind and standard that differ exactly at the borders.",
  ["iterator.hpp","container.hpp","string.hpp"],[("equals/starts_with/ends_with/find*/rfind*/contains*",IT),("container forms",CO),("string forms",ST)],[],["returned positions and booleans"])
p("C22","Container transforms and aggregates agree with their definitions",
  "Slicing follows the documented half-open, negative-from-the-end, clamped rule for every start and stop; filter keeps exactly the matching elements in order; map applies the function to each element in order and appends to the destination; sort yields the ordered permutation and reverse the reversal. Any, all, count, sum, minimum and maximum equal their mathematical definitions, with minimum and maximum returning the first extreme element.",
  ["inputs"],"all sequences, all (including out-of-range and negative) indices, all predicates and functions",
  "The tests sample a few indices and lists; clamping and negative-index combinations and ties are not enumerated.",
  ["container.hpp","iterator.hpp","value.hpp"],[("slice/filter/map/sort/reverse/any/all/count/sum/min/max",CO),("min/max/abs of values","include/pluto/value.hpp")],[],["returned containers and values"])
p("C23","Splitting and joining are exact and inverse",
  "Splitting by a separator yields the maximal pieces between its non-overlapping left-to-right occurrences (so joining the pieces with that separator restores the text), splitting by an empty separator yields the characters, splitting by whitespace or by a set of characters yields exactly the maximal non-empty runs free of them. Joining concatenates the elements with the separator strictly between neighbours, and joining with a mapping equals mapping then joining.",
  ["inputs"],"all texts and separators, including empty, overlapping, leading, trailing and repeated separators, narrow and wide",
  "The tests cover a few sentences; overlapping separators and border cases are not enumerated.",
  ["string.hpp"],[("split/split_any_of/join/map_join",ST)],[],["returned pieces"])
p("C24","Replacing and stripping change exactly what they should",
  "Replacing substitutes every non-overlapping left-to-right occurrence of the pattern once and never re-examines substituted text (an empty pattern inserts at every boundary); replacing any-of substitutes each listed character once. Stripping removes exactly the leading and/or trailing whitespace of the locale and nothing inside.",
  ["inputs"],"all texts, patterns and replacements, including empty ones and replacements containing the pattern",
  "The tests cover a few fixed texts; patterns contained in replacements, empty patterns and all-whitespace texts are border cases they sample at best once.",
  ["string.hpp"],[("replace/replace_any_of/lstrip/rstrip/strip",ST)],[],["resulting strings"])
p("C25","Number-to-text and text-to-number conversions are exact",
  "Binary, octal and hexadecimal text of an integer is its two's-complement bit pattern at the type's own width, with the right prefix, lower-case digits and no leading zeros (zero is a single 0), for every integer type and value. Converting a value to text and back gives the same value for every type whose text form is exact, and text that does not start with a value gives the type's zero value rather than an unspecified one.",
  ["inputs","configurations"],"every value of every integer width and signedness; every text",
  "The tests sample a few values per width; negative numbers, digit-group borders and empty input are not all covered.",
  ["string.hpp"],[("bin/oct/hex",ST),("str/wstr/str_to/wstr_to",ST)],[],["returned strings and values"])
p("C26","Case-insensitive operations equal case-folding then comparing",
  "Each case-insensitive comparison and each case-insensitive string operation (equal, starts, ends, find, find last, contains) gives exactly the result of the case-sensitive one after mapping both sides with the locale's upper-casing, for every element and for narrow and wide text. Upper- and lower-casing and the is-upper/is-lower tests act on every element per the locale, and a comparator stays valid for its whole lifetime whatever happens to the locale object it was made from.",
  ["inputs","configurations","histories"],"all elements and texts, any locale, static or non-static default locale, any lifetime of the locale object",
  "The tests compare a few ASCII strings with the static default locale; exhaustive element tables, wide text and locale lifetime are not covered.",
  ["compare.hpp","string.hpp","locale.hpp"],[("is_iequal.. is_igreater_equal","include/pluto/compare.hpp"),("i* and lower/upper functions",ST)],[],["return values"])
UN="include/pluto/unicode.hpp"
p("C27","Conversion between Unicode encodings preserves valid text",
  "For every sequence of Unicode scalar values, converting its UTF-8, UTF-16, UTF-32 or wide form to any other form yields exactly the standard encoding of the same sequence, and converting back restores the original. The pointer, string and named-conversion interfaces give the same result and append to, rather than overwrite, a destination passed in.",
  ["inputs"],"all sequences over all 1,112,064 scalar values, all pairs of encodings",
  "The tests convert a list of single code points; sequences, appending and borders between lengths are not enumerated together.",
  ["unicode.hpp"],[("utf8/16/32 conversions",UN),("str/wstr/u8str/u16str/u32str",UN)],[],["returned strings"])
p("C28","Malformed Unicode input is replaced, never read past or mis-decoded",
  "For every sequence of code units whatsoever, conversion to another encoding form terminates without reading outside the input, produces well-formed output, substitutes one replacement character for each unit that does not begin a valid encoding (truncated, overlong, surrogate, out of range or stray continuation), and resumes at the very next unit so that all valid encodings in the input are preserved.",
  ["inputs"],"all finite sequences of 8-, 16- and 32-bit units",
  "The tests contain a few invalid strings; the decoder's borders multiply across lead bytes, continuation bytes and truncation points.",
  ["unicode.hpp"],[("error branches of the six converters",UN)],[],["returned strings"])
p("C29","Default log rows and headers have a fixed, parseable format",
  "The default row of a log entry consists of its local time with six-digit microseconds, thread id, level title, base file name (cut to 20), line, function (cut to 20) and the message, each padded to its documented column so that it lines up with the default header; with source information hidden, the file, line and function columns are left out of both and entries carry an empty file name, line 0 and an empty function. Level names in every style are the documented ones for every level, and the base file name is the text after the last slash or backslash.",
  ["inputs","configurations"],"every time, thread id, level, path, line, function name and message",
  "The tests look at a row or two; padding, truncation, microsecond padding and stream-state leakage between rows depend on the values.",
  ["logger.hpp","platform.hpp"],[("default_log_writer/default_header_writer/log_level_to_*",LG),("file_name","include/pluto/platform.hpp")],[],["written rows"])
p("C30","Platform helpers report true times and identities",
  "local_time and gm_time give the calendar date, time of day, day of week and day of year of every time in the current time zone and in UTC, before and after 1970, on leap days and around clock changes. process_id is the id of the running process; thread_id is the operating system's id of the calling thread: the same on every call from a thread, and different between threads that run at the same time.",
  ["inputs","histories"],"every time, time zone, and set of threads",
  "The tests look at one moment and at one or two threads; calendar borders, zones and uniqueness are not sampled.",
  ["platform.hpp"],[("local_time/gm_time/process_id/thread_id","include/pluto/platform.hpp")],[],["returned values"])
p("C31","Logger settings start as configured, read back and take effect",
  "A logger starts with the documented initial settings, or with those given by the PLUTO_LOGGER_INITIAL_* macros. Every setting (level, directory creation, headers, buffer limit, flush threshold, rotation size and limit) reads back the value last set, by whichever thread, setting one changes no other and returns the logger itself, and is_logging is true until destruction. Settings are what the logger goes by from then on: no directory is created while directory creation is off (entries for a missing directory wait), the missing directories of a log file are created while it is on, and entries are written with the log writer last set.",
  ["programs","schedules","configurations"],"every sequence and interleaving of setting, reading and logging, with default and with configured initial settings",
  "The tests read each setting once after setting it, on one thread, with the default macros; crosstalk between settings, configured defaults and concurrent changes are not explored.",
  ["logger.hpp"],[("setters, getters and members initialised from PLUTO_LOGGER_INITIAL_*",LG)],lgstate[:1],["return values","file contents","directories created"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
