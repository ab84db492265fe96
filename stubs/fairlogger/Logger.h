// Stand-in for FairLogger (not installed in the sandbox).
// Only what FairMQ's sources name.  It formats lines and hands them to an optional sink; it decides nothing.
#ifndef FAIR_LOGGER_STUB_H
#define FAIR_LOGGER_STUB_H

#include <atomic>
#include <fstream>
#include <functional>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>

namespace fair {

enum class Severity : int { nolog = 0, trace, debug4, debug3, debug2, debug1, debug, detail, info, state, warn, important, alarm, error, critical, fatal };
enum class Verbosity : int { verylow = 0, low, medium, high, veryhigh, user1, user2, user3, user4 };

struct VerbositySpec
{
    enum class Info : int { hostname = 1, process_name, timestamp_s, timestamp_us, severity, file, file_line, file_line_function };
    template<typename... Ts>
    static VerbositySpec Make(Ts...) { return {}; }
};

inline const char* SevName(Severity s)
{
    static const char* n[] = {"nolog", "trace", "debug4", "debug3", "debug2", "debug1", "debug", "detail", "info", "state", "warn", "important", "alarm", "error", "critical", "fatal"};
    return n[static_cast<int>(s)];
}

class Logger
{
  public:
    // minimum severity that is formatted at all (nolog: nothing)
    static std::atomic<int>& Level() { static std::atomic<int> l{static_cast<int>(Severity::warn)}; return l; }
    static std::function<void(Severity, const std::string&)>& Sink() { static std::function<void(Severity, const std::string&)> f; return f; }
    static std::mutex& Mtx() { static std::mutex m; return m; }
    // every configuration call is recorded here as "call=arg"
    static std::string& LastConfig() { static std::string s; return s; }

    static bool Logging(Severity s) { int l = Level().load(std::memory_order_relaxed); return l != 0 && static_cast<int>(s) >= l; }

    static void SetConsoleSeverity(Severity s) { Note("console-severity", SevName(s)); }
    static void SetConsoleSeverity(const std::string& s) { Note("console-severity", s); }
    static void SetFileSeverity(const std::string& s) { Note("file-severity", s); }
    static void SetFileSeverity(Severity s) { Note("file-severity", SevName(s)); }
    static void SetVerbosity(const std::string& s) { Note("verbosity", s); }
    static void SetVerbosity(Verbosity) { Note("verbosity", "enum"); }
    static void DefineVerbosity(Verbosity, VerbositySpec) {}
    static void SetConsoleColor(bool c) { Note("color", c ? "1" : "0"); }
    static std::string InitFileSink(const std::string& sev, const std::string& name, bool = true) { Note("file-sink", sev + ":" + name); return name; }
    static void CycleConsoleSeverityUp() { Note("cycle-severity", "up"); }
    static void CycleConsoleSeverityDown() { Note("cycle-severity", "down"); }
    static void CycleVerbosityUp() { Note("cycle-verbosity", "up"); }
    static void CycleVerbosityDown() { Note("cycle-verbosity", "down"); }

  private:
    static void Note(const std::string& k, const std::string& v) { std::lock_guard<std::mutex> l(Mtx()); LastConfig() += k + "=" + v + ";"; }
};

class LogLine
{
  public:
    explicit LogLine(Severity s) : fSev(s) {}
    ~LogLine()
    {
        std::lock_guard<std::mutex> l(Logger::Mtx());
        if (Logger::Sink()) { Logger::Sink()(fSev, fOut.str()); }
    }
    std::ostream& Stream() { return fOut; }
  private:
    Severity fSev;
    std::ostringstream fOut;
};

}   // namespace fair

#define LOG(severity) \
    for (bool fairLOggerunLikelyvariable = ::fair::Logger::Logging(::fair::Severity::severity); fairLOggerunLikelyvariable; fairLOggerunLikelyvariable = false) \
        ::fair::LogLine(::fair::Severity::severity).Stream()
#define LOGV(severity, verbosity) LOG(severity)
#define LOGP(severity, ...) LOG(severity)

#endif
