// Captures what the library logs (safe under simulated threads: fibers of one OS thread, so counters are exact).
#pragma once
#include "common.hpp"
namespace drv {
class LogWriter : public htool::IObjectWriter {
  public:
    int errors = 0, others = 0;
    string last;
    std::map<int, int> by_fiber;    // errors logged by each fiber
    std::map<int, int> no_partition; // reports of partitions that cannot be made
    void set_log_level(htool::LogLevel) override {}
    void write(htool::LogLevel l, const string &m) override {
        sim::Quiet q;
        if (m.find("Cluster tree reached maximal depth") != string::npos)
            others++, no_partition[sim::fiber_id()]++; // about the requested clustering, which the checks examine themselves
        else if (l <= htool::LogLevel::ERROR)
            errors++, by_fiber[sim::fiber_id()]++, last = m;
        else
            others++;
    }
};
struct LogCapture {
    std::shared_ptr<LogWriter> w = std::make_shared<LogWriter>();
    int &errors;
    LogCapture() : errors(w->errors) { htool::Logger::get_instance().set_current_writer(w); }
    ~LogCapture() { htool::Logger::get_instance().set_current_writer(std::make_shared<htool::StandartOutputWriter>()); }
    void clear() { w->errors = w->others = 0; }
};
} // namespace drv
