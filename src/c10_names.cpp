// C10: names of states, transitions, transports and error codes
#include "harness.h"
#include <fairmq/Error.h>
#include <fairmq/States.h>
#include <vector>
#include <fairmq/Transports.h>
#include <fairmq/tools/Strings.h>

using namespace fair::mq;

namespace {

// the documented names (docs/Device.md, states of a device)
const std::vector<std::pair<State, std::string>> kStates{
    {State::Undefined, "UNDEFINED"}, {State::Ok, "OK"}, {State::Error, "ERROR"}, {State::Idle, "IDLE"},
    {State::InitializingDevice, "INITIALIZING DEVICE"}, {State::Initialized, "INITIALIZED"}, {State::Binding, "BINDING"},
    {State::Bound, "BOUND"}, {State::Connecting, "CONNECTING"}, {State::DeviceReady, "DEVICE READY"},
    {State::InitializingTask, "INITIALIZING TASK"}, {State::Ready, "READY"}, {State::Running, "RUNNING"},
    {State::ResettingTask, "RESETTING TASK"}, {State::ResettingDevice, "RESETTING DEVICE"}, {State::Exiting, "EXITING"}};
const std::vector<std::pair<Transition, std::string>> kTransitions{
    {Transition::Auto, "AUTO"}, {Transition::InitDevice, "INIT DEVICE"}, {Transition::CompleteInit, "COMPLETE INIT"},
    {Transition::Bind, "BIND"}, {Transition::Connect, "CONNECT"}, {Transition::InitTask, "INIT TASK"}, {Transition::Run, "RUN"},
    {Transition::Stop, "STOP"}, {Transition::ResetTask, "RESET TASK"}, {Transition::ResetDevice, "RESET DEVICE"},
    {Transition::End, "END"}, {Transition::ErrorFound, "ERROR FOUND"}};
const std::vector<std::pair<Transport, std::string>> kTransports{
    {Transport::DEFAULT, "default"}, {Transport::ZMQ, "zeromq"}, {Transport::SHM, "shmem"}};
const std::vector<std::pair<ErrorCode, std::string>> kErrors{
    {ErrorCode::OperationInProgress, "async operation already in progress"},
    {ErrorCode::OperationTimeout, "async operation timed out"},
    {ErrorCode::OperationCanceled, "async operation canceled"},
    {ErrorCode::DeviceChangeStateFailed, "failed to change state of a fairmq device"},
    {ErrorCode::DeviceGetPropertiesFailed, "failed to get fairmq device properties"},
    {ErrorCode::DeviceSetPropertiesFailed, "failed to set fairmq device properties"}};

template<typename T>
std::string Streamed(T t)
{
    std::ostringstream o;
    o << t;
    return o.str();
}

// exact names, near misses and arbitrary text
std::string Text(pbt::Src& s)
{
    std::vector<std::string> names;
    for (auto& p : kStates) { names.push_back(p.second); }
    for (auto& p : kTransitions) { names.push_back(p.second); }
    for (auto& p : kTransports) { names.push_back(p.second); }
    for (const char* e : {"InitDevice", "DeviceReady", "INIT_DEVICE", "ERROR_FOUND", "DEVICE_READY", "INITIALIZING", "RESETTING", "nanomsg", "ofi", "zmq", "shm", "DEFAULT", "undefined", "idle", ""}) {
        names.push_back(e);
    }
    std::string t = s.pick(names);
    size_t edits = s.weighted({6, 3, 2, 1});
    for (size_t i = 0; i < edits; ++i) {
        switch (s.draw(8)) {
            case 0: if (!t.empty()) { t.erase(s.draw(t.size()), 1); } break;
            case 1: t.insert(s.draw(t.size() + 1), 1, static_cast<char>(s.draw(256))); break;
            case 2: if (!t.empty()) { auto& ch = t[s.draw(t.size())]; ch = static_cast<char>(ch ^ 32); } break;
            case 3: t += ' '; break;
            case 4: t += s.pick(names); break;
            case 5: t = t.substr(0, s.draw(t.size() + 1)); break;
            case 6: std::replace(t.begin(), t.end(), ' ', '_'); break;
            default: t = s.str("ABCDEFGHIJKLMNOPQRSTUVWXYZ abcdefghijklmnopqrstuvwxyz", 0, 20);
        }
    }
    return t;
}

}   // namespace

static void RoundTrip(pbt::Src& s, pbt::Case& c)
{
    uint64_t i = s.draw(kStates.size() + kTransitions.size() + kTransports.size() + kErrors.size());
    c.nontrivial();
    if (i < kStates.size()) {
        auto& p = kStates[i];
        c << "state " << p.second;
        REQ_EQ(GetStateName(p.first), p.second, "name of the state");
        REQ(GetState(p.second) == p.first, "state of the name " << p.second);
        REQ_EQ(Streamed(p.first), p.second, "printed state");
        return;
    }
    i -= kStates.size();
    if (i < kTransitions.size()) {
        auto& p = kTransitions[i];
        c << "transition " << p.second;
        REQ_EQ(GetTransitionName(p.first), p.second, "name of the transition");
        REQ(GetTransition(p.second) == p.first, "transition of the name " << p.second);
        REQ_EQ(Streamed(p.first), p.second, "printed transition");
        return;
    }
    i -= kTransitions.size();
    if (i < kTransports.size()) {
        auto& p = kTransports[i];
        c << "transport " << p.second;
        REQ_EQ(TransportName(p.first), p.second, "name of the transport");
        REQ(TransportType(p.second) == p.first, "transport of the name " << p.second);
        REQ_EQ(Streamed(p.first), p.second, "printed transport");
        auto en = GetEnabledTransports();
        REQ_EQ(std::count(en.begin(), en.end(), p.first), p.first == Transport::DEFAULT ? 0 : 1, "enabled transports with " << p.second);
        return;
    }
    i -= kTransports.size();
    auto& p = kErrors[i];
    c << "error " << p.second;
    auto e = MakeErrorCode(p.first);
    REQ_EQ(e.message(), p.second, "message of the error code");
    REQ_EQ(e.value(), static_cast<int>(p.first), "value of the error code");
    REQ_EQ(e.value(), 10 + static_cast<int>(i), "documented value of the error code");
    REQ_EQ(std::string(e.category().name()), "fairmq", "category");
    REQ(static_cast<bool>(e), "an error code is an error");
    for (auto& q : kErrors) { REQ((MakeErrorCode(q.first) == e) == (q.first == p.first), "error codes compare by value"); }
}
static pbt::Register r1{pbt::Sub{"round_trip", 1, RoundTrip, 30000, false, 16 + 12 + 3 + 6}};

CASE(text, 6)
{
    std::string t = Text(s);
    c << "\"" << t << "\"";
    bool known = false;
    auto st = std::find_if(kStates.begin(), kStates.end(), [&](auto& p) { return p.second == t; });
    if (st != kStates.end()) {
        known = true;
        REQ(GetState(t) == st->first, "state of the name");
    } else {
        REQ_THROWS(std::out_of_range, GetState(t), "no state has this name");
    }
    auto tr = std::find_if(kTransitions.begin(), kTransitions.end(), [&](auto& p) { return p.second == t; });
    if (tr != kTransitions.end()) {
        known = true;
        REQ(GetTransition(t) == tr->first, "transition of the name");
    } else {
        REQ_THROWS(std::out_of_range, GetTransition(t), "no transition has this name");
    }
    auto tp = std::find_if(kTransports.begin(), kTransports.end(), [&](auto& p) { return p.second == t; });
    if (tp != kTransports.end()) {
        known = true;
        REQ(TransportType(t) == tp->first, "transport of the name");
    } else {
        REQ_THROWS(TransportError, TransportType(t), "no transport has this name");
        try {
            TransportType(t);
        } catch (const TransportError& e) {
            REQ(std::string(e.what()).find(t.c_str()) != std::string::npos, "the error names the text: " << e.what());
        }
    }
    c.label(known ? "a name" : "not a name");
    c.nontrivial();
}

// values outside the enumerations have no name
CASE(values, 1)
{
    int64_t v = s.flip() ? s.range(-40, 40) : s.edgy(-2147483647, 2147483647);
    c << v;
    if (v < 0 || v >= 16) { REQ_THROWS(std::out_of_range, GetStateName(static_cast<State>(v)), "no such state"); }
    else { REQ_EQ(GetStateName(static_cast<State>(v)), kStates[static_cast<size_t>(v)].second, "state " << v); }
    if (v < 0 || v >= 12) { REQ_THROWS(std::out_of_range, GetTransitionName(static_cast<Transition>(v)), "no such transition"); }
    else { REQ_EQ(GetTransitionName(static_cast<Transition>(v)), kTransitions[static_cast<size_t>(v)].second, "transition " << v); }
    if (v < 0 || v >= 3) { REQ_THROWS(std::out_of_range, TransportName(static_cast<Transport>(v)), "no such transport"); }
    else { REQ_EQ(TransportName(static_cast<Transport>(v)), kTransports[static_cast<size_t>(v)].second, "transport " << v); }
    if (v < 10 || v > 15) { REQ_EQ(MakeErrorCode(static_cast<ErrorCode>(v)).message(), "(unrecognized error)", "no such error"); }
    else { REQ_EQ(MakeErrorCode(static_cast<ErrorCode>(v)).message(), kErrors[static_cast<size_t>(v - 10)].second, "error " << v); }
    c.nontrivial();
}
