#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Every accepted log message reaches every sink exactly once",
 "While a log worker is initialised, each LOG/LOGF/LOG_IF statement whose level is enabled and whose condition is true produces exactly one message, and every sink attached throughout that call receives that message exactly once, with nothing lost, duplicated or invented, at the latest when the worker has been destroyed. This holds for any number of logging threads and sinks and for every interleaving of the logging threads with the background threads.",
 ["schedules", "histories"],
 "All interleavings of 1-3 logging threads (1-3 messages each) with the worker thread and 0-3 sink threads, ending in normal destruction.",
 "The tests log from real threads under whatever schedule the OS picks and only count totals; a lost wake-up or a message dropped in one interleaving stays invisible.",
 ["src/g3log.cpp", "src/logworker.cpp", "src/logcapture.cpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp", "src/g3log/sink.hpp"],
 [("LogCapture destructor hands one message to the worker's queue", "src/logcapture.cpp ~LogCapture, src/g3log.cpp saveMessage/pushMessageToLogger"), ("background fan-out to every sink", "src/logworker.cpp LogWorkerImpl::bgSave"), ("queues drained before threads join", "src/g3log/active.hpp ~Active, src/logworker.cpp ~LogWorker")],
 [("_sinks", "sinks attached to the worker", "src/g3log/logworker.hpp LogWorkerImpl"), ("mq_", "pending jobs of a background thread", "src/g3log/active.hpp")],
 ["calls received by each sink object"])

prop("C02", "Messages are delivered in logging order, the same in every sink",
 "If one log statement finished before another one started (same thread, or different threads ordered by synchronisation), every sink that receives both receives the first one first. All sinks that receive two given messages receive them in the same relative order.",
 ["schedules"],
 "All interleavings of 1-3 logging threads, program-ordered and synchronisation-ordered log pairs, with 2 sinks.",
 "Tests check at most the order of messages of one thread in one sink for one schedule.",
 ["src/g3log/shared_queue.hpp", "src/g3log/active.hpp", "src/logworker.cpp", "src/g3log/sink.hpp"],
 [("single FIFO queue per background thread", "src/g3log/shared_queue.hpp, src/g3log/active.hpp"), ("one worker thread fans out in queue order", "src/logworker.cpp bgSave")],
 [("queue_", "FIFO of jobs", "src/g3log/shared_queue.hpp")],
 ["sequence received by each sink"])

prop("C03", "Logging never waits for a sink, and a slow sink delays no other sink",
 "A non-fatal log statement returns without waiting for any sink to run: even if a sink is blocked indefinitely in its receive function, all threads can keep logging. A blocked sink does not keep messages from being delivered to the other sinks, and once it continues it still receives everything in order.",
 ["schedules"],
 "All interleavings of logging threads, worker and 2 sinks of which one is blocked in its first receive call until everything else is finished.",
 "A test with a merely slow sink cannot tell waiting from not waiting, and cannot cover all placements of the block.",
 ["src/logworker.cpp", "src/g3log/sink.hpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp"],
 [("one background thread per sink", "src/g3log/sink.hpp Sink::_bg"), ("jobs executed outside the queue lock", "src/g3log/active.hpp run, shared_queue.hpp wait_and_pop")],
 observe=["return of the log statement", "deliveries in the non-blocked sink"])

prop("C04", "Adding and removing sinks takes effect exactly at the call",
 "When addSink returns, every later log statement is delivered to that sink; when removeSink or removeAllSinks returns, the removed sinks have received every message logged before the call, will never be called again, and the sink objects have been destroyed, while sinks that were not removed are unaffected. This holds with concurrent logging (a concurrent message is delivered to the sink entirely or not at all) and with concurrent adding and removing by several threads, each of which returns.",
 ["schedules", "histories"],
 "All interleavings of add/remove/removeAll operations by up to 2 threads with a logging thread, worker thread and up to 3 sinks, and all operation sequences up to a bounded depth.",
 "The tests remove sinks at quiet moments only.",
 ["src/logworker.cpp", "src/g3log/logworker.hpp", "src/g3log/sinkhandle.hpp", "src/g3log/sink.hpp"],
 [("synchronous job on the worker thread", "src/logworker.cpp addWrappedSink/removeSink/removeAllSinks via spawn_task + wait"), ("shared_ptr ownership of the sink wrapper", "src/g3log/logworker.hpp addSink")],
 [("_sinks", "attached sinks", "LogWorkerImpl")],
 ["receive calls and destructor of each sink", "return of addSink/removeSink"])

prop("C05", "Code of one sink never runs concurrently with itself",
 "For one sink object, the receive function, all functions invoked through its handle, and its destructor never run concurrently with each other, whatever threads log or use the handle, and the effects of one invocation are visible to the next. Handle calls issued by one thread, or ordered by synchronisation, run in the order in which they were issued.",
 ["schedules"],
 "All interleavings of 2 threads using handle calls, a logging thread, worker and sink threads, and destruction.",
 "Mutual exclusion failures need a particular interleaving; no test runs handle calls against deliveries systematically.",
 ["src/g3log/sink.hpp", "src/g3log/sinkhandle.hpp", "src/g3log/active.hpp"],
 [("per-sink Active thread executes receive calls and handle calls", "src/g3log/sink.hpp send/async"), ("background thread stopped before the real sink is destroyed", "src/g3log/sink.hpp member order, ~Sink")],
 observe=["enter/leave of sink functions"])

prop("C06", "Every sink handle call runs exactly once or reports that the sink is gone",
 "A call through a sink handle while the sink is attached runs the member function exactly once on the sink's background thread with the given arguments, and its future yields the function's result or rethrows the exception it threw without disturbing logging. A call that happens after the sink was removed or its worker destroyed yields a future that reports an error and runs nothing; when the call races with removal or destruction exactly one of the two happens, and waiting on the future always terminates.",
 ["schedules", "histories"],
 "All interleavings of handle calls by 1-2 threads with sink removal and worker destruction; void, value-returning and throwing functions; calls before, during and after.",
 "The tests call on live sinks, or on sinks removed long before; the race and the never-resolving future are not reachable by sampling.",
 ["src/g3log/sinkhandle.hpp", "src/g3log/sink.hpp", "src/g3log/future.hpp", "src/g3log/active.hpp"],
 [("weak_ptr lock then async job", "src/g3log/sinkhandle.hpp call"), ("packaged task on the sink's thread", "src/g3log/future.hpp spawn_task"), ("jobs queued before destruction are executed", "src/g3log/active.hpp ~Active")],
 observe=["future result", "number of executions"])

prop("C07", "Orderly shutdown drains everything; later logging is a harmless no-op",
 "Destroying the initialised log worker returns only after every message logged before the destruction has been delivered to its sinks and the sinks have been destroyed. Logging after a shutdown or destruction, or concurrently with shutDownLogging or the handling of a fatal event, is memory safe: such a call returns normally (or waits for the process to end) and its message is delivered completely or discarded. Destroying a worker that is not the initialised one leaves the initialised one fully working, and a new worker can be initialised after a shutdown and then receives all later messages.",
 ["schedules", "histories"],
 "All interleavings of shutdown (shutDownLogging, shutDownLoggingForActiveOnly, worker destruction) with concurrent loggers, and all create/initialise/log/shutdown/destroy sequences up to a bounded depth with up to 3 workers.",
 "The tests shut down with no logging in flight and only in a handful of sequences.",
 ["src/g3log.cpp", "src/logworker.cpp", "src/g3log/active.hpp"],
 [("global active worker pointer cleared first", "src/g3log.cpp shutDownLogging/shutDownLoggingForActiveOnly"), ("worker thread drained and joined", "src/logworker.cpp ~LogWorker, src/g3log/active.hpp ~Active")],
 [("g_logger_instance", "the initialised worker", "src/g3log.cpp")],
 ["sink deliveries, sink destructor, return of LOG and of the destructor"])

prop("C08", "Logging before initialisation is safe and the first message is kept",
 "Log statements executed before any worker was ever initialised neither crash nor block, also from several threads at once. Exactly one of them (with a single thread: the first one), wrapped in a warning that quotes it, is delivered when a worker is initialised, before any message logged after initialisation; all others are discarded, and nothing is delivered twice by later re-initialisation.",
 ["schedules", "histories"],
 "All interleavings of up to 3 early logging threads; all sequences of early logs, sink additions, initialisation, shutdown and re-initialisation up to a bounded depth.",
 "One unit test covers one single-threaded sequence.",
 ["src/g3log.cpp"],
 [("once-only capture of the first uninitialised message", "src/g3log.cpp pushMessageToLogger, g_first_uninitialized_msg"), ("replay at initialisation", "src/g3log.cpp initializeLogging, g_save_first_uninitialized_msg")],
 [("g_first_uninitialized_msg", "stored early message", "src/g3log.cpp")],
 ["messages received after initialisation"])

prop("C09", "A fatal event flushes everything, then ends the process with its signal",
 "On every kind of fatal event (fatal LOG/LOGF at FATAL or a custom level above it, failed CHECK/CHECK_F, SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM raised in any application thread), every sink receives all messages logged before the event and then, as its last message, the fatal message that names the cause; sinks, including the file sink with its buffered entries, are flushed and destroyed before the process ends. The process then terminates by the corresponding signal (SIGABRT for fatal logs and failed checks) and the code after the fatal statement never runs, in any thread, for every interleaving with other threads that log or use sinks.",
 ["schedules", "inputs", "fault_sequences"],
 "All fatal kinds x number of previously logged messages x sink configurations, and all interleavings of the fatal thread with a concurrently logging thread, the worker and the sinks.",
 "The tests replace the final exit by a mock, so the real flush-then-die sequence is never executed, let alone under all schedules.",
 ["src/g3log.cpp", "src/logworker.cpp", "src/crashhandler_unix.cpp", "src/logcapture.cpp", "src/filesink.cpp"],
 [("fatal job queued behind earlier messages", "src/g3log.cpp pushFatalMessageToLogger, src/logworker.cpp LogWorker::fatal"), ("flush, destroy sinks, then re-raise", "src/logworker.cpp LogWorkerImpl::bgFatal, src/crashhandler_unix.cpp exitWithDefaultSignalHandler"), ("caller blocked until exit", "src/g3log.cpp pushFatalMessageToLogger, crashhandler_unix.cpp shouldBlockForFatalHandling")],
 observe=["sink contents, log file, wait status of the process"])

prop("C10", "Concurrent or nested fatal events still flush once and end the process",
 "If several threads hit fatal events at the same time, or a fatal event happens while another one is being handled (including inside the fatal pre-logging hook), the process still ends by a fatal signal of one of those events, within bounded time, with no code after any of the fatal statements executed. All messages logged before the first fatal event are in the sinks, the first handled fatal message reaches every sink, and the sinks are destroyed before the process ends.",
 ["schedules", "fault_sequences"],
 "All interleavings of 2 fatal threads (same and different kinds) with worker and sinks; fatal events nested in the hook.",
 "No test raises two fatal events in one real process.",
 ["src/g3log.cpp", "src/crashhandler_unix.cpp", "src/logworker.cpp"],
 [("only the first signal is handled, later ones wait", "src/crashhandler_unix.cpp signalHandler"), ("recursion counter", "src/g3log.cpp saveFatalMessage")],
 observe=["wait status", "sink contents"])

prop("C11", "The fatal hook and a custom fatal exit handler run exactly as configured",
 "A fatal pre-logging hook that is set runs exactly once, in the thread of the fatal event, before the fatal message is handed to the sinks; with no hook set nothing extra runs, and setting a hook replaces the previous one. A fatal event caused by the hook itself still ends the process, with a fatal message that is marked as recursive and carries the stack trace of the first event reaching the sinks. A replaced fatal exit handler receives exactly the fatal message once and the default flush-and-exit does not run.",
 ["schedules", "histories"],
 "All sequences of hook settings and fatal kinds up to a bounded depth, hooks that log, that throw, that crash, that are fatal; interleavings with a concurrent logger and with a second fatal thread.",
 "The tests cover a hook that counts and one recursion, in one schedule with a mocked exit.",
 ["src/g3log.cpp"],
 [("hook taken and run before push", "src/g3log.cpp saveFatalMessage"), ("exit function pointer", "src/g3log.cpp setFatalExitHandler/fatalCall")],
 [("g_fatal_pre_logging_hook", "configured hook", "src/g3log.cpp"), ("g_fatal_hook_recursive_counter", "recursion detector", "src/g3log.cpp")],
 ["hook calls, sink contents"])

prop("C12", "Signal dispositions are taken, overridden and given back faithfully",
 "After initialisation exactly the documented fatal signals (or the set chosen with overrideSetupSignals) are handled by the logger and no others; overrideSetupSignals, restoreSignalHandler and restoreFatalHandlingToDefault change exactly the dispositions they name. Restoring a signal gives back the disposition that was in place before the logger took it (the application's own handler, ignore, or default), and a fatal event ends the process by raising its signal again after the previous dispositions were given back: the process dies by that signal if its previous disposition was the default, and an application's own handler runs exactly once - for every sequence of these operations.",
 ["histories", "configurations"],
 "All sequences up to a bounded depth over {initialise, override with each of several signal sets, restore each signal, restore default, application installs its own handler, fatal event}, against a reference model of the disposition table.",
 "The tests check two or three sequences.",
 ["src/crashhandler_unix.cpp", "src/g3log/crashhandler.hpp", "src/g3log.cpp"],
 [("saved sigactions", "src/crashhandler_unix.cpp gSavedSigActions, setupSignals, restoreSignalHandler"), ("configurable set of fatal signals", "src/crashhandler_unix.cpp overrideSetupSignals/restoreFatalHandlingToDefault")],
 [("gSignals", "signals treated as fatal", "src/crashhandler_unix.cpp"), ("gSavedSigActions", "dispositions before installation", "src/crashhandler_unix.cpp")],
 ["sigaction() of every signal; wait status"])

prop("C13", "The log file holds every received message once, in order, across rotation",
 "For every sequence of messages, file changes and configuration calls, the concatenation of the file sink's files, after the sink is destroyed, consists of the header line(s) and each received message exactly once, formatted, in the order received, followed by the shutdown line; no flush interval (from 1 on) changes this content. Changing the file returns the new name and every later flush goes there; if the new file cannot be opened the old file stays in use, an empty name is returned and nothing is lost, and no existing content is ever overwritten, also when the change happens within the same second.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "All sequences up to a bounded depth over {log, log multi-line/empty/long, change file to good/bad/same directory or id, override details/header, tick the clock, destroy} x flush intervals {1,2,3,100}.",
 "The tests perform one successful and one failing rotation at fixed points.",
 ["src/filesink.cpp", "src/filesinkhelper.ipp", "src/g3log/filesink.hpp"],
 [("write buffer and flush policy", "src/filesink.cpp fileWrite/fileWriteWithoutRotate"), ("rotation", "src/filesink.cpp changeLogFile, filesinkhelper.ipp createLogFile/openLogFile")],
 [("_write_buffer", "entries not yet written", "FileSink"), ("_write_counter", "entries since last flush", "FileSink")],
 ["file contents and names in the log directory"])

prop("C14", "After a crash the log file is a prefix of the entries, within the flush bound",
 "If the process is killed at any moment, the file consists of the header followed by a prefix of the sequence of formatted entries, none duplicated, reordered or interleaved (only the last one may be torn by the interrupted write). With a flush interval of n, all entries up to the last completed multiple of n (with the interval 1: every entry whose receive call has returned) are in the file, and a fatal event or normal destruction leaves nothing behind.",
 ["crash_points", "fault_sequences", "configurations"],
 "A kill before and after, and every torn length in the middle of, every write system call of a bounded history, for several flush intervals and entry sizes, plus short writes and failing writes.",
 "No test kills the process between writes.",
 ["src/filesink.cpp", "src/filesinkhelper.ipp"],
 [("flush each x-th entry", "src/filesink.cpp fileWrite -> flush"), ("append-only stream", "src/filesinkhelper.ipp openLogFile")],
 observe=["file content after the kill"])

prop("C15", "Log files are created where and with the name that was asked for",
 "For every prefix, logger id (without separators) and directory the log file is created in the requested directory if it is usable and otherwise in the current directory, and its name is the sanitised prefix, the id if non-empty, the creation time and the suffix .log, as documented; the name reported by the sink is the name of the existing file. (The directory given to changeLogFile is used as given and must end with a separator.) The prefix is stripped of separators and white space and can never make the file leave the requested directory; a prefix with forbidden characters or that becomes empty ends in an abort with a message instead of a misplaced file.",
 ["inputs", "configurations"],
 "All prefixes and ids up to a bounded length over an alphabet of ordinary, stripped and forbidden characters x directory forms (absolute, relative, trailing separators, missing, not writable, a file).",
 "The tests use a few ordinary names.",
 ["src/filesinkhelper.ipp", "src/filesink.cpp"],
 [("prefixSanityFix/isValidFilename/pathSanityFix/addLogSuffix/createLogFileName", "src/filesinkhelper.ipp")],
 observe=["directory listing, fileName()"])

prop("C16", "A sink sees exactly what was logged, independent of the caller's memory",
 "The message a sink receives carries the text (any bytes up to an embedded NUL), level, file, line, function and thread id of its log statement, and a time stamp between the start and end of that statement, and every documented text format shows them. The sink may use it for as long as it wants: it does not depend on any memory of the logging thread, whether the text came from streaming, printf-style formatting, a fatal or a contract message, and even if the caller frees or changes that memory right after the statement.",
 ["inputs", "schedules"],
 "All message forms (stream, printf, contract, fatal) x texts over a small alphabet of special characters and lengths x all detail formats; with caller memory freed or overwritten immediately after the call in every interleaving with the background threads.",
 "The tests log literals that live forever and compare substrings.",
 ["src/logmessage.cpp", "src/g3log/logmessage.hpp", "src/logcapture.cpp", "src/g3log.cpp"],
 [("strings copied when the message is built", "src/g3log.cpp saveMessage, src/logmessage.cpp LogMessage::LogMessage"), ("format functions", "src/logmessage.cpp toString, DefaultLogDetailsToString, FullLogDetailsToString, fatal formats")],
 observe=["LogMessage accessors and toString in the sink"])

prop("C17", "Printf-style logging never overflows and marks every truncation",
 "For every format result length, the logged text of LOGF/LOGF_IF/CHECKF equals the exact formatted text when it fits the configured maximum message size and otherwise its longest fitting prefix followed by the truncation marker; no memory outside the buffer is touched, and a format error or an empty result does not crash or corrupt the message. Streamed messages are never truncated.",
 ["inputs", "configurations"],
 "Every result length from 0 to past the limit, for the fixed build and for the dynamic-size build with several limits, including zero-length arguments and mixed stream plus printf text.",
 "The tests use one text far beyond the limit and a few short ones.",
 ["src/logcapture.cpp", "src/g3log/logcapture.hpp"],
 [("bounded vsnprintf and truncation marker", "src/logcapture.cpp capturef"), ("setMaxMessageSize", "src/logcapture.cpp (dynamic size build)")],
 observe=["message text"])

prop("C18", "Run-time log levels behave like a map from level to status",
 "With run-time levels, after any sequence of add, set, enable, disable, set-highest, enable-all, disable-all and reset operations, a level is loggable exactly if it was registered and its last status is enabled, and the listing and status queries agree with that. Queries never change the set of levels, unknown levels are reported as absent and are not logged, built-in fatal levels and custom levels above them are always treated as fatal, and set-highest with a registered level enables exactly the registered levels at or above it and disables the ones below (with an unknown level it changes nothing).",
 ["histories", "configurations"],
 "All operation sequences up to a bounded depth over built-in, custom, unknown and fatal levels, against a reference map; with and without the run-time level build.",
 "The tests check isolated operations.",
 ["src/loglevels.cpp", "src/g3log/loglevels.hpp"],
 [("level map", "src/loglevels.cpp g_log_level_status / log_levels functions"), ("fatal classification", "src/loglevels.cpp internal::wasFatal")],
 [("g_log_levels", "registered levels and status", "src/loglevels.cpp")],
 ["logLevel, getAll, getStatus, to_string, wasFatal"])

prop("C19", "Levels can be switched while other threads log",
 "Enabling and disabling registered levels from one thread while other threads log or query levels is free of data races, and each log statement sees the old or the new state of its level. A log statement that is ordered after a switch by synchronisation obeys it.",
 ["schedules"],
 "All interleavings of 1-2 switching threads and 1-2 logging or querying threads, over registered and unregistered levels.",
 "No test toggles levels concurrently.",
 ["src/loglevels.cpp", "src/g3log/atomicbool.hpp", "src/g3log/loglevels.hpp"],
 [("atomic status per level", "src/g3log/atomicbool.hpp"), ("fixed map structure after initialisation", "src/loglevels.cpp")],
 observe=["delivered messages, level queries"])

prop("C20", "Log and check macros evaluate each operand exactly when they should",
 "The (boolean) condition of LOG_IF/LOGF_IF/CHECK/CHECKF is evaluated exactly once per execution, except that a disabled level suppresses the condition and all operands; the streamed operands are evaluated exactly once, left to right, and the formatted ones exactly once (in the compiler's order), if the message is accepted and not at all otherwise. Each macro is a single statement: in an if/else without braces, in loops, in the operands of another log statement and in lambdas it behaves as a function call would, and a true CHECK does nothing.",
 ["programs", "configurations", "inputs"],
 "All macros x condition values x level states x statement contexts (plain, if/else without braces, loop, nested in an operand) in the static and the run-time level build.",
 "A few tests count evaluations of one operand for a few macros.",
 ["src/g3log/g3log.hpp", "src/g3log/logcapture.hpp", "src/g3log/loglevels.hpp"],
 [("macro definitions", "src/g3log/g3log.hpp LOG, LOG_IF, LOGF, LOGF_IF, CHECK, CHECKF, CHECK_F")],
 observe=["evaluation counters, delivered messages"])

prop("C21", "Time formatting is exact for every time point and format",
 "Formatting a time point yields the strftime text of its second in the requested zone with every fraction specifier (%f, %f3, %f6, %f9) replaced by the zero-padded milli-, micro- or nanoseconds truncated, at any position and number of occurrences, from any thread. A format that is too long or cannot be rendered yields the format text itself when assertions are compiled out and a controlled assertion failure otherwise, never an overflow, an out-of-bounds access or a wrong digit.",
 ["inputs", "configurations"],
 "All formats up to a bounded number of tokens over {literals, strftime fields, fraction specifiers, escapes} x a set of boundary time points (0, 1, 999, 10^3, 10^6, 999999999 ns ...), compared with an independent reference.",
 "The tests check a few fixed strings.",
 ["src/time.cpp", "src/g3log/time.hpp"],
 [("fraction expansion and put_time", "src/time.cpp internal::localtime_formatted_fractions, put_time, localtime_formatted")],
 observe=["returned string"])

prop("C22", "The message queue is a linearizable blocking FIFO",
 "For any number of producers and consumers every pushed element is popped exactly once and the history of push, try-pop, wait-pop, empty and size is equivalent to some sequential FIFO execution that respects real-time order. A waiting consumer always wakes up when an element is available (no lost wake-up, also under spurious wake-ups), and a non-blocking pop on an empty queue fails without side effect.",
 ["schedules", "histories"],
 "All interleavings (including spurious wake-ups and any choice of the woken waiter) of 2-3 threads with 1-3 queue operations each; every recorded history checked for linearizability against a sequential FIFO.",
 "The queue has only sampled multi-threaded tests.",
 ["src/g3log/shared_queue.hpp"],
 [("mutex + condition variable", "src/g3log/shared_queue.hpp push, try_and_pop, wait_and_pop, empty, size")],
 [("queue_", "elements", "src/g3log/shared_queue.hpp")],
 ["call/return history"])

prop("C23", "Background tasks run once, in order, on one thread, and futures always resolve",
 "Each job sent to a background worker runs exactly once, on that worker's single thread, in the order in which the jobs were sent (per thread and across synchronisation), and destroying the worker returns only after all jobs sent before have run. A task spawned with a future delivers its value or its exception, exactly once, also for move-only and void results and for jobs sent while destruction is under way; spawning on no worker yields a future holding an error.",
 ["schedules", "histories"],
 "All interleavings of 1-2 sending threads with 1-3 jobs each, the worker thread and destruction; throwing tasks, jobs that send further jobs.",
 "Tests use sampled schedules and few shapes.",
 ["src/g3log/active.hpp", "src/g3log/future.hpp", "src/g3log/moveoncopy.hpp"],
 [("job queue with a final done-job", "src/g3log/active.hpp"), ("packaged task in a copyable wrapper", "src/g3log/future.hpp spawn_task, moveoncopy.hpp")],
 observe=["job executions, futures"])

prop("C24", "Messages are independent values; each sink gets its own copy",
 "Each sink receives its own copy of a message: whatever one sink does to its copy (modifying the text, overriding its format, keeping or moving it) is invisible to the other sinks and to later messages. Copying, moving, assigning and swapping messages transfers every attribute (text, level, all source location parts, time, thread id, expression and formatting behaviour) and leaves copies independent.",
 ["histories", "schedules"],
 "All sequences up to a bounded depth of construct/copy/move/assign/self-assign/swap/modify/format over 2-3 messages against a reference record; all interleavings of 2 modifying sinks.",
 "The tests exercise copy and move of the text only.",
 ["src/logmessage.cpp", "src/g3log/logmessage.hpp", "src/logworker.cpp", "src/g3log/sink.hpp"],
 [("copy per sink", "src/logworker.cpp bgSave"), ("copy/move/assignment/swap", "src/logmessage.cpp, src/g3log/logmessage.hpp")],
 observe=["message accessors and toString"])

prop("C25", "The public API is free of data races, use-after-free and deadlock",
 "Any two operations that the API allows to run concurrently (logging of every kind, adding and removing sinks, handle calls, level switching and queries, shutdown of logging, file sink operations through its handle, formatting of time and messages) can be executed by different threads without data race, access to freed memory, deadlock or lost thread, in every interleaving. Operations documented as initialisation-only are excluded.",
 ["schedules", "programs"],
 "Every unordered pair (and selected triples) from an alphabet of public operations, each pair in all interleavings with the background threads, under happens-before race detection and allocation checking.",
 "The tests run without a race detector and on sampled schedules.",
 ["src/g3log.cpp", "src/logworker.cpp", "src/loglevels.cpp", "src/logcapture.cpp", "src/logmessage.cpp", "src/filesink.cpp", "src/time.cpp", "src/g3log/sinkhandle.hpp", "src/g3log/active.hpp", "src/g3log/shared_queue.hpp"],
 [("mutexes, atomics and single-threaded ownership", "all of the above")],
 observe=["race detector, allocation state, termination"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
if __name__ == "__main__":
    print(len(P), "properties")
