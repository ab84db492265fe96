// Drives a device in this process through its life cycle.
#ifndef VERIF_DEVWORLD_H
#define VERIF_DEVWORLD_H
#include "msgworld.h"
#include <condition_variable>
#include <fairmq/Device.h>
#include <thread>

namespace dw {
using namespace mw;
using S = State;
using T = Transition;

class Driver
{
  public:
    explicit Driver(Device& d)
        : fD(d)
    {
        fD.SubscribeToStateChange("driver", [this](S s) {
            std::lock_guard<std::mutex> l(fM);
            fStates.push_back(s);
            fCV.notify_all();
        });
        fThread = std::thread([this] {
            try {
                fD.RunStateMachine();
            } catch (const std::exception& e) {
                fWhat = e.what();
                fThrew = true;
            } catch (...) {
                fThrew = true;
            }
            std::lock_guard<std::mutex> l(fM);
            fEnded = true;
            fCV.notify_all();
        });
        Wait(S::Idle);
    }
    ~Driver()
    {
        for (int64_t t0 = pbt::NowMs();;) {
            if (pbt::NowMs() - t0 > 5000) {
                fprintf(stderr, "the device hangs in %s\n", fD.GetCurrentStateName().c_str());
                abort();
            }
            {
                std::unique_lock<std::mutex> l(fM);
                if (fCV.wait_for(l, std::chrono::milliseconds(5), [this] { return fEnded; })) { break; }
            }
            (void)fD.ChangeState(T::ErrorFound);
        }
        if (fThread.joinable()) { fThread.join(); }
        fD.UnsubscribeFromStateChange("driver");
    }
    // asks for a transition and waits for the state it leads to (by itself)
    void To(T t, S s)
    {
        Clear();
        REQ(fD.ChangeState(t), "the transition " << t << " was refused in " << fD.GetCurrentStateName());
        Wait(s);
    }
    void Clear()
    {
        std::lock_guard<std::mutex> l(fM);
        fStates.clear();
    }
    void Wait(S s, int ms = 15000)
    {
        std::unique_lock<std::mutex> l(fM);
        const bool ok = fCV.wait_for(l, std::chrono::milliseconds(ms), [&] { return fEnded || std::find(fStates.begin(), fStates.end(), s) != fStates.end(); });
        if (std::find(fStates.begin(), fStates.end(), s) != fStates.end()) { return; }
        REQ(!fEnded, "the device ended" << (fThrew ? " with an exception: " + fWhat : string()) << " instead of reaching " << s);
        REQ(ok, "the device does not reach " << s << ", it is in " << fD.GetCurrentStateName());
    }
    // was the state reached meanwhile?
    bool Reached(S s)
    {
        std::lock_guard<std::mutex> l(fM);
        return std::find(fStates.begin(), fStates.end(), s) != fStates.end();
    }
    bool Ended()
    {
        std::lock_guard<std::mutex> l(fM);
        return fEnded;
    }
    bool WaitEnd(int ms = 15000)
    {
        std::unique_lock<std::mutex> l(fM);
        return fCV.wait_for(l, std::chrono::milliseconds(ms), [&] { return fEnded; });
    }
    bool Threw() const { return fThrew; }
    void ToReady()
    {
        To(T::InitDevice, S::InitializingDevice);
        To(T::CompleteInit, S::Initialized);
        To(T::Bind, S::Bound);
        To(T::Connect, S::DeviceReady);
        To(T::InitTask, S::Ready);
    }
    // from Ready
    void Down()
    {
        To(T::ResetTask, S::DeviceReady);
        To(T::ResetDevice, S::Idle);
    }
    void Finish()
    {
        To(T::End, S::Exiting);
        REQ(WaitEnd(), "the state machine does not end");
        REQ(!fThrew, "the state machine ended with an exception: " << fWhat);
    }

  private:
    Device& fD;
    std::thread fThread;
    std::mutex fM;
    std::condition_variable fCV;
    std::vector<S> fStates;
    bool fEnded = false;
    std::atomic<bool> fThrew{false};
    string fWhat;
};

// removes what the session of a case left
struct SessionGuard
{
    string session = NewSession();
    ~SessionGuard()
    {
        RemoveShm(shmem::makeShmIdStr(session));
        std::remove(SessionFile().c_str());
    }
};

inline string Ipc(const string& name) { return "ipc://" + pbt::Scratch() + "/w" + std::to_string(pbt::WorkerId()) + "_" + name; }

// a message: parts with contents; the first bytes tell who sent it
struct Load
{
    std::vector<string> parts;
    bool operator==(const Load& o) const { return parts == o.parts; }
};
inline Load MakeLoad(pbt::Src& s, const string& tag, bool multi)
{
    Load l;
    const size_t n = multi ? 1 + s.draw(4) : 1;
    for (size_t i = 0; i < n; ++i) {
        string p = i == 0 ? tag : "";
        const size_t extra = s.weighted({50, 30, 15, 5});
        const size_t len = extra == 0 ? 0 : extra == 1 ? 1 + s.draw(10) : extra == 2 ? s.draw(300) : s.draw(30000);
        for (size_t k = 0; k < len; ++k) { p += static_cast<char>('a' + (k * 7 + i + len) % 26); }
        l.parts.push_back(p);
    }
    return l;
}
inline string Show(const Load& l)
{
    string o;
    for (auto& p : l.parts) { o += "(" + (p.size() > 40 ? p.substr(0, 40) + "..." : p) + ":" + std::to_string(p.size()) + ")"; }
    return o;
}
inline Load FromParts(Parts& p)
{
    Load l;
    for (auto& m : p) { l.parts.emplace_back(static_cast<char*>(m->GetData()), m->GetSize()); }
    return l;
}
inline Load FromMsg(MessagePtr& m) { return Load{{string(static_cast<char*>(m->GetData()), m->GetSize())}}; }
// sends a load in one of the two forms
inline int64_t SendLoad(Channel& ch, const Load& l, bool asParts, int timeout)
{
    auto make = [&](const string& t) {
        auto m = ch.NewMessage(t.size());
        if (!t.empty()) { memcpy(m->GetData(), t.data(), t.size()); }
        return m;
    };
    if (!asParts) {
        auto m = make(l.parts.at(0));
        return ch.Send(m, timeout);
    }
    Parts p;
    for (auto& t : l.parts) { p.AddPart(make(t)); }
    return ch.Send(p, timeout);
}
// receives a load; false: nothing within the time
inline bool ReceiveLoad(Channel& ch, Load& l, bool asParts, int timeout)
{
    if (!asParts) {
        auto m = ch.NewMessage();
        if (ch.Receive(m, timeout) < 0) { return false; }
        l = FromMsg(m);
        return true;
    }
    Parts p;
    if (ch.Receive(p, timeout) < 0) { return false; }
    l = FromParts(p);
    return true;
}
}   // namespace dw
#endif
