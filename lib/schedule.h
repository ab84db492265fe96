// A scheduler for threads that synchronise through mutexes and condition variables: one thread runs at a time, and at
// every lock, unlock, wait, notify and sleep the next one is drawn from the case's choices.  Schedules are thus generated,
// replayed and shrunk like any other input.  Waits may end spuriously and timeouts may expire at any point, as POSIX allows.
#ifndef VERIF_SCHEDULE_H
#define VERIF_SCHEDULE_H

#include "harness.h"

namespace vsched {

struct Thread;

class Scheduler
{
  public:
    explicit Scheduler(pbt::Src& s, unsigned switchPercent = 35, bool spurious = true);
    ~Scheduler();
    Scheduler(const Scheduler&) = delete;

    // a thread of the program under test; starts when run() is called (or at once, when called from a controlled thread)
    size_t spawn(std::function<void()> f);
    // runs until all threads have ended; a deadlock is a Failure, as is a Failure in any thread
    void run();
    // a further point at which other threads may be scheduled
    static void yield();
    // blocks until the condition holds (checked whenever the thread could be scheduled); for harness use
    static void waitUntil(const std::function<bool()>& cond);

    size_t switches() const { return fSwitches; }
    size_t steps() const { return fSteps; }
    // text of the schedule, for replay files
    std::string trace() const { return fTrace; }

  private:
    friend struct Thread;
    friend struct Access;
    void resume(Thread* t);
    bool candidate(Thread* t, bool& viaTimeout);

    pbt::Src& fSrc;
    unsigned fSwitchPercent;
    bool fSpurious;
    std::vector<std::unique_ptr<Thread>> fThreads;
    Thread* fCurrent = nullptr;
    size_t fSwitches = 0;
    size_t fSteps = 0;
    bool fRunning = false;
    std::string fTrace;
};

}   // namespace vsched

#endif
