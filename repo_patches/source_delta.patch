From 01c24b0621e3956f9167162e98c4e80f9012a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 01/17] fix: SinkHandle::sink() must not hold a temporary
 reference to the sink

A temporary shared_ptr inside sink() (also used by removeSink) could become
the last owner, so that removeAllSinks in another thread returned while the
sink was still alive.
---
 src/g3log/sinkhandle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log/sinkhandle.hpp b/src/g3log/sinkhandle.hpp
index 34848d2..7b4fdde 100644
--- a/src/g3log/sinkhandle.hpp
+++ b/src/g3log/sinkhandle.hpp
@@ -52,7 +52,7 @@ namespace g3 {
       /// auto p = sink(); auto ptr = p.lock(); if (ptr) { .... }
       /// ref: https://en.cppreference.com/w/cpp/memory/weak_ptr/lock
       std::weak_ptr<internal::Sink<T>> sink() {
-         return _sink.lock();
+         return _sink;
       }
    };
 
-- 
2.43.0


From ab11acd289f97474fa238b83404a7cfbfece462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:22 +0000
Subject: [PATCH 02/17] fix: data race on the pointer to the active log worker

shutDownLogging (also run by the background thread on a fatal event) wrote the
plain pointer while logging threads read it twice (check, then use). Make it
atomic and load it once per call.
---
 src/g3log.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..fedd3e4 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,8 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   // instantiated and OWNED somewhere else (main). Read by every logging thread, also while it is being shut down
+   std::atomic<g3::LogWorker*> g_logger_instance{nullptr};
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -127,7 +128,8 @@ namespace g3 {
        * @return true if the correct worker was given,. and shutDownLogging was called
        */
       bool shutDownLoggingForActiveOnly(LogWorker* active) {
-         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance)) {
+         LogWorker* current = g_logger_instance;
+         if (nullptr != current && nullptr != active && (active != current)) {
             LOG(WARNING) << "\n\t\tAttempted to shut down logging, but the ID of the Logger is not the one that is active."
                          << "\n\t\tHaving multiple instances of the g3::LogWorker is likely a BUG"
                          << "\n\t\tEither way, this call to shutDownLogging was ignored"
@@ -192,7 +194,8 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -205,7 +208,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -214,7 +217,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -223,7 +227,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From d8baa9f31979b4b42477e973bc06338402b05d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 03/17] fix: die by the fatal signal also when no log worker is
 active

exitWithDefaultSignalHandler, called from within the signal handler, raised a
signal that is blocked until the handler returns, so that the process ended
with a normal exit(signo) instead of the signal.
---
 src/crashhandler_unix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..8acad43 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -232,6 +232,12 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // when called from within the signal handler the signal is blocked until the handler returns
+         sigset_t fatal_signal;
+         sigemptyset(&fatal_signal);
+         sigaddset(&fatal_signal, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &fatal_signal, nullptr);
+
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0


From c3fc4689b208ff70a173e49fe6b6c2d77b87b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 04/17] fix: data race on the fatal pre-logging hook, which
 could also run twice

saveFatalMessage copied the hook without the lock that guards it, and reset it
in a second step. Before the first initializeLogging it was an empty function
that threw std::bad_function_call.
---
 src/g3log.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index fedd3e4..a460648 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,7 +42,8 @@ namespace {
    std::once_flag g_set_first_uninitialized_flag;
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
-   std::function<void(void)> g_fatal_pre_logging_hook;
+   std::mutex g_fatal_hook_mutex;
+   std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
@@ -90,8 +91,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -157,10 +157,14 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
-         // In case the fatal_pre logging actually will cause a crash in its turn
-         // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         std::function<void(void)> fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            // In case the fatal_pre logging actually will cause a crash in its turn
+            // let's not do recursive crashing! Taken in one step: with two threads
+            // crashing at the same time only one of them runs the hook.
+            std::lock_guard<std::mutex> lock(g_fatal_hook_mutex);
+            std::swap(fatalhook, g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From 359178d3d857b8ff18f67fe8a969a8b48e80ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 05/17] fix: a crash in the fatal pre-logging hook of a fatal
 signal hung the process

The signal handler lets only the first signal pass and puts every other one to
sleep, also a second one of the very thread that handles the first one.
---
 src/crashhandler_unix.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 8acad43..2f8ad6b 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -63,8 +63,12 @@ namespace {
 
       using namespace g3::internal;
 
-      // Only one signal will be allowed past this point
-      if (false == shouldDoExit()) {
+      // Only one signal will be allowed past this point, plus any crash while that one is
+      // being handled (by the same thread, for example in the fatal pre-logging hook)
+      static thread_local bool handling_signal = false;
+      const bool recursive_signal = handling_signal;
+      handling_signal = true;
+      if (false == shouldDoExit() && false == recursive_signal) {
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
@@ -80,6 +84,7 @@ namespace {
          LogCapture trigger(FATAL_SIGNAL, static_cast<g3::SignalType>(signal_number), dump.c_str());
          trigger.stream() << fatal_stream.str();
       }  // message sent to g3LogWorker
+      handling_signal = recursive_signal;
       // wait to die
    }
 
-- 
2.43.0


From e1bc05832f03608b756666d3e1a386921313a87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 06/17] fix: data race when two threads end the process at the
 same time

Two fatal events without an active log worker both restored the signal handlers
from the unprotected map of saved signal actions.
---
 src/crashhandler_unix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 2f8ad6b..67e20b3 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -227,6 +227,16 @@ namespace g3 {
       void exitWithDefaultSignalHandler(const LEVELS& level, g3::SignalType fatal_signal_id) {
          const int signal_number = static_cast<int>(fatal_signal_id);
 
+         // Only one thread ends the process, any other one waits for that
+         static std::atomic<bool> exiting{false};
+         static thread_local bool exiting_by_this_thread = false;
+         if (false == exiting_by_this_thread && exiting.exchange(true)) {
+            while (shouldBlockForFatalHandling()) {
+               std::this_thread::sleep_for(std::chrono::seconds(1));
+            }
+         }
+         exiting_by_this_thread = true;
+
          // Restore all saved signal handlers. If handling a signal which causes exiting
          // than let the original signal handlers to handle other signals.
          for (const auto& sig : gSignals) {
-- 
2.43.0


From 3154a37e540ac4d71b9c429365817d9db3f82431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 07/17] fix: a second fatal event ended the process before the
 first one was flushed

The background thread shuts the logging down before it flushes the sinks. The
fatal event of another thread took that for 'not initialized' and ended the
process right away, and the log content was lost.
---
 src/g3log.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a460648..b7ff3b2 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -46,6 +46,7 @@ namespace {
    std::function<void(void)> g_fatal_pre_logging_hook = g_pre_fatal_hook_that_does_nothing;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
+   std::atomic<bool> g_fatal_message_sent{false};
 }  // namespace
 
 namespace g3 {
@@ -223,6 +224,11 @@ namespace g3 {
       void pushFatalMessageToLogger(FatalMessagePtr message) {
          LogWorker* logger = g_logger_instance;
          if (nullptr == logger) {
+            // Logging was shut down because the fatal event of another thread is being handled?
+            // Then do not end the process before the log content is flushed.
+            for (int seconds = 0; g_fatal_message_sent && seconds < 10 && shouldBlockForFatalHandling(); ++seconds) {
+               std::this_thread::sleep_for(std::chrono::seconds(1));
+            }
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -231,6 +237,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
+         g_fatal_message_sent = true;
          logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
-- 
2.43.0


From eccbfb7e4e175c3ac23678565a8fbb8e772059cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 08/17] fix: a printf-style message one character too long was
 cut without the truncation marker

vsnprintf returns the length without the terminating null; a result of exactly
the buffer size has lost its last character.
---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From 6059734fd5f28fcf1f29e4471f2d3e21e14406b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 09/17] fix: asking whether an unregistered level is enabled
 registered it

logLevel() used operator[], so a LOG of a level that was never added inserted an
unnamed, disabled entry into the level map: it showed up in log_levels::getAll()
and, as the map changed shape, raced with every other thread that logged.
---
 src/loglevels.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..3a7b967 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -118,9 +118,8 @@ namespace g3 {
 
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
-      int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      const auto it = internal::g_log_levels.find(log_level.value);
+      return internal::g_log_levels.end() != it && it->second.status.value();
 #else
       return true;
 #endif
-- 
2.43.0


From 19303e65d3b3f6864e2ac439618ee6a89ea2252f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 10/17] fix: enabling or disabling a level rewrote the level's
 name

log_levels::set() assigned the whole LoggingLevel, including its std::string text,
while other threads may read it (getAll, to_string). Only the atomic status changes.
---
 src/loglevels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index 3a7b967..5f28bf9 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -63,7 +63,7 @@ namespace g3 {
       void set(LEVELS level, bool enabled) {
          auto it = internal::g_log_levels.find(level.value);
          if (it != internal::g_log_levels.end()) {
-            internal::g_log_levels[level.value] = {level, enabled};
+            it->second.status = enabled;
          }
       }
 
-- 
2.43.0


From a8256ec1a533b3cc019ad7eb213b20c64e453703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 11/17] fix: assigning or swapping messages lost the file path
 and the format

swap() left out _file_path and _logDetailsToStringFunc, so operator= (which is
built on it) kept the ones of the target.
---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From 5733431b204864453b5143b87091474a8d67c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 12/17] fix: installing the crash handler again lost the
 original signal dispositions

overrideSetupSignals() before initializeLogging(), or installCrashHandler() twice,
saved g3log's own handler as the one to restore. A fatal event then hung the process.
---
 src/crashhandler_unix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 67e20b3..3e77858 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -107,7 +107,8 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (old_action.sa_sigaction != &signalHandler) {
+            // if it was already installed then keep what was there before it
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From 2291b9cc4f7f2031661cc4d4955fe465bfe5a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 13/17] fix: a log file created in the same second overwrote
 the previous one

changeLogFile() within the second in which the current file was created, or a new sink
with the same prefix and id, got the same file name and truncated the file.
---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..875301a 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -99,7 +99,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app; // the file name has a resolution of seconds: never overwrite an earlier log
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From 69a3b39b715f5d2dad7eb93e180acfa224f97419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 14/17] fix: formatting a time before 1970 with a fraction
 threw or was a second off

The fraction was negative (std::length_error for its padding) and the seconds were
rounded up instead of down.
---
 src/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..40b3966 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -50,7 +50,7 @@ namespace g3 {
       // 1 ns --> 000000001
       std::string to_string(const g3::system_time_point& ts, Fractional fractional) {
          auto duration = ts.time_since_epoch();
-         auto sec_duration = std::chrono::duration_cast<std::chrono::seconds>(duration);
+         auto sec_duration = std::chrono::floor<std::chrono::seconds>(duration);
          duration -= sec_duration;
          auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
 
@@ -144,7 +144,7 @@ namespace g3 {
 
    std::string localtime_formatted(const g3::system_time_point& ts, const std::string& time_format) {
       auto format_buffer = internal::localtime_formatted_fractions(ts, time_format);
-      auto time_point = std::chrono::system_clock::to_time_t(ts);
+      auto time_point = std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(ts));
       std::tm t = localtime(time_point);
       return g3::put_time(&t, format_buffer.c_str());  // format example: //"%Y/%m/%d %H:%M:%S");
    }
-- 
2.43.0


From 37428ccb9152b3c8cf41b15e5a5c980c6b0f836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 15/17] fix: an escaped percent sign before f in a time format
 was replaced by a fraction

"%%f" became "%123456789", an invalid or very wide conversion for strftime.
---
 src/time.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/time.cpp b/src/time.cpp
index 40b3966..efb36da 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -85,6 +85,12 @@ namespace g3 {
          for (size_t pos = 0;
               (pos = format_buffer.find(g3::internal::kFractionalIdentier, pos)) != std::string::npos;
               pos += g3::internal::kFractionalIdentierSize + identifierExtraSize) {
+            // an escaped percent sign is no identifier: "%%f" is the text "%f"
+            const auto last_other = format_buffer.find_last_not_of('%', pos);
+            const auto percent_signs = pos - (last_other == std::string::npos ? 0 : last_other + 1);
+            if (percent_signs % 2 != 0) {
+               continue;
+            }
             // figuring out whether this is nano, micro or milli identifier
             auto type = g3::internal::getFractional(format_buffer, pos);
             auto value = g3::internal::to_string(ts, type);
-- 
2.43.0


From 781009a49e52788a5cfab0841884301417e21352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 16/17] fix: an empty time format failed an assertion

---
 src/time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.cpp b/src/time.cpp
index efb36da..e5f3681 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -130,7 +130,7 @@ namespace g3 {
       //
       // In Production mode
       // the assert will do nothing but the format string will instead be returned
-      if (0 == success) {
+      if (0 == success && '\0' != *c_time_format) {  // an empty format gives an empty text
          assert((0 != success) && "strftime fails with illegal formatting");
          return c_time_format;
       }
-- 
2.43.0


From c695bfde6c82fe94f1d4b5734dc9259610c6acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 17/17] fix: a log file for the root directory was created in
 the current directory

---
 src/filesinkhelper.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 875301a..bd0fe79 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -56,6 +56,8 @@ namespace g3 {
          // on at least win7 + ubuntu. All bets are off for older windows
          std::replace(path.begin(), path.end(), '\\', '/');
 
+         const bool is_root = !path.empty() && path[0] == '/' && path.find_first_not_of("/ ") == std::string::npos;
+
          // clean up in case of multiples
          auto contains_end = [&](std::string & in) -> bool {
             size_t size = in.size();
@@ -68,7 +70,7 @@ namespace g3 {
             path.erase(path.size() - 1);
          }
 
-         if (!path.empty()) {
+         if (!path.empty() || is_root) {
             path.insert(path.end(), '/');
          }
 
-- 
2.43.0

