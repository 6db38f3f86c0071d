#pragma once
#include "seq.h"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/filesink.hpp>
#include <g3log/crashhandler.hpp>
#include <g3log/time.hpp>
#include <atomic>
#include <csignal>
#include <mutex>
#include <thread>
// a sink that keeps (copies of) what it gets
struct Kept {
   std::string text, str, level, file, path, line, func, expr, tid;
   int value;
   g3::high_resolution_time_point ts;
};
struct KeepSink {
   std::vector<Kept>* out;
   explicit KeepSink(std::vector<Kept>* o) : out(o) {}
   void receive(g3::LogMessageMover m) {
      auto& g = m.get();
      out->push_back(Kept{g.message(), g.toString(), g.level(), g.file(), g.file_path(), g.line(), g.function(), g.expression(), g.threadID(), g._level.value, g._timestamp});
   }
};
// a worker with one keeping sink; finish() drains it
struct Logger {
   std::vector<Kept> got;
   std::unique_ptr<g3::LogWorker> w;
   Logger() : w(g3::LogWorker::createLogWorker()) {
      w->addSink(std::make_unique<KeepSink>(&got), &KeepSink::receive);
      g3::initializeLogging(w.get());
   }
   std::vector<Kept>& finish() { w.reset(); return got; }
};
