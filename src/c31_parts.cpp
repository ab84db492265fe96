// C31: Parts against a vector of message ids
#include "harness.h"
#include <fairmq/Parts.h>

using namespace fair::mq;

namespace {

struct Ledger
{
    std::map<int, int> destroyed;
    int made = 0;
};

struct Msg final : Message
{
    Msg(Ledger& l) : led(l), id(l.made++) {}
    ~Msg() override { led.destroyed[id]++; }
    void Rebuild() override {}
    void Rebuild(Alignment) override {}
    void Rebuild(size_t) override {}
    void Rebuild(size_t, Alignment) override {}
    void Rebuild(void*, size_t, FreeFn*, void*) override {}
    void* GetData() const override { return const_cast<int*>(&id); }
    size_t GetSize() const override { return sizeof(int); }
    bool SetUsedSize(size_t, Alignment) override { return true; }
    Transport GetType() const override { return Transport::DEFAULT; }
    void Copy(const Message&) override {}
    Ledger& led;
    int id;
};

int Id(const Message& m) { return *static_cast<const int*>(m.GetData()); }

struct Model
{
    std::vector<int> ids;   // -1: null pointer
};

void Compare(Parts& p, const Model& m, const Ledger& led, const char* after)
{
    REQ_EQ(p.Size(), m.ids.size(), "size after " << after);
    REQ_EQ(p.Empty(), m.ids.empty(), "emptiness after " << after);
    const Parts& cp = p;
    size_t i = 0;
    for (auto& x : p) {
        REQ(i < m.ids.size(), "iteration runs past the end after " << after);
        REQ_EQ((x ? Id(*x) : -1), m.ids[i], "part " << i << " by iteration after " << after);
        if (x) {
            REQ(led.destroyed.count(m.ids[i]) == 0, "part " << i << " is destroyed after " << after);
            REQ_EQ(Id(p[i]), m.ids[i], "part " << i << " by index after " << after);
            REQ_EQ(Id(cp[i]), m.ids[i], "part " << i << " by const index after " << after);
            REQ(&p[i] == x.get() && p.At(i).get() == x.get() && cp.At(i).get() == x.get() && &p.AtRef(i) == x.get(), "the accessors agree after " << after);
        }
        ++i;
    }
    REQ_EQ(i, m.ids.size(), "parts by iteration after " << after);
    REQ_EQ(std::distance(cp.begin(), cp.end()), static_cast<std::ptrdiff_t>(m.ids.size()), "const range after " << after);
    REQ_EQ(std::distance(cp.cbegin(), cp.cend()), static_cast<std::ptrdiff_t>(m.ids.size()), "const range after " << after);
    REQ_THROWS(std::out_of_range, p.At(m.ids.size()), "access past the end");
    REQ_THROWS(std::out_of_range, cp.At(m.ids.size() + 3), "access past the end");
    REQ_THROWS(std::out_of_range, p.AtRef(m.ids.size()), "access past the end");
}

}   // namespace

CASE(history, 1)
{
    Ledger led;
    size_t steps = 0;
    bool moved = false, multi = false;
    {
        constexpr size_t N = 3;
        std::vector<Parts> parts(N);
        Model model[N];
        std::vector<std::pair<MessagePtr, int>> out;   // taken out of a container
        auto fresh = [&](int& id) {
            auto m = std::make_unique<Msg>(led);
            id = m->id;
            return MessagePtr(std::move(m));
        };
        while (s.draw(20) != 0) {
            ++steps;
            size_t a = s.draw(N);
            size_t b = s.draw(N);
            Parts& p = parts[a];
            Model& m = model[a];
            const char* what = "";
            switch (s.draw(14)) {
                case 0: { what = "AddPart(msg)"; int id; auto x = fresh(id); p.AddPart(std::move(x)); REQ(!x, "the pointer was taken"); m.ids.push_back(id); break; }
                case 1: { what = "AddPart(raw)"; auto* x = new Msg(led); p.AddPart(static_cast<Message*>(x)); m.ids.push_back(x->id); break; }
                case 2: {
                    what = "AddPart(3 msgs)"; multi = true;
                    int i, j, k; auto x = fresh(i); auto y = fresh(j); auto z = fresh(k);
                    p.AddPart(std::move(x), std::move(y), std::move(z));
                    m.ids.insert(m.ids.end(), {i, j, k});
                    break;
                }
                case 3: {
                    what = "AddPart(msg, parts)"; multi = true;
                    if (a == b) { break; }
                    int i; auto x = fresh(i);
                    p.AddPart(std::move(x), std::move(parts[b]));
                    m.ids.push_back(i);
                    m.ids.insert(m.ids.end(), model[b].ids.begin(), model[b].ids.end());
                    model[b].ids.clear(); parts[b].Clear(); moved = true;
                    break;
                }
                case 4: case 5: {
                    what = "AddPart(parts)";
                    if (a == b) { break; }
                    p.AddPart(std::move(parts[b]));
                    m.ids.insert(m.ids.end(), model[b].ids.begin(), model[b].ids.end());
                    REQ(parts[b].Empty() || !parts[b].At(0), "the parts were taken");
                    model[b].ids.clear(); parts[b].Clear(); moved = true;
                    break;
                }
                case 6: {
                    what = "move assignment";
                    if (a == b) { break; }
                    p = std::move(parts[b]);
                    m.ids = model[b].ids; model[b].ids.clear(); parts[b].Clear(); moved = true;
                    break;
                }
                case 7: {
                    what = "move construction";
                    Parts q(std::move(p));
                    Compare(q, m, led, what);
                    p = Parts();
                    p = std::move(q);
                    moved = true;
                    break;
                }
                case 8: {
                    what = "construction from messages"; multi = true;
                    int i, j; auto x = fresh(i); auto y = fresh(j);
                    p = Parts(std::move(x), std::move(y));
                    m.ids = {i, j};
                    break;
                }
                case 9: {
                    what = "construction from a message and parts"; multi = true;
                    if (a == b) { break; }
                    int i; auto x = fresh(i);
                    Parts q(std::move(x), std::move(parts[b]));
                    m.ids = {i};
                    m.ids.insert(m.ids.end(), model[b].ids.begin(), model[b].ids.end());
                    model[b].ids.clear(); parts[b].Clear();
                    p = std::move(q); moved = true;
                    break;
                }
                case 10: { what = "Clear"; p.Clear(); m.ids.clear(); break; }
                case 11: {
                    what = "taking a part out";
                    if (m.ids.empty()) { break; }
                    size_t i = s.draw(m.ids.size());
                    int id = m.ids[i];
                    out.emplace_back(std::move(p.At(i)), id);
                    m.ids[i] = -1;
                    break;
                }
                case 12: {
                    what = "replacing a part";
                    if (m.ids.empty()) { break; }
                    size_t i = s.draw(m.ids.size());
                    int id; p.At(i) = fresh(id);
                    m.ids[i] = id;
                    break;
                }
                default: {
                    what = "AddPart(null)";
                    p.AddPart(MessagePtr());
                    m.ids.push_back(-1);
                }
            }
            c << what << " " << a << "," << b << "; ";
            // exactly the messages in no container are destroyed
            std::set<int> live;
            for (auto& x : model) { for (int id : x.ids) { if (id >= 0) { live.insert(id); } } }
            for (auto& o : out) { if (o.first) { live.insert(o.second); } }
            for (int id = 0; id < led.made; ++id) {
                int d = led.destroyed.count(id) ? led.destroyed[id] : 0;
                REQ_EQ(d, live.count(id) ? 0 : 1, "destructions of message " << id << " after " << what);
            }
            for (size_t i = 0; i < N; ++i) { Compare(parts[i], model[i], led, what); }
            for (auto& o : out) { REQ(o.second < 0 ? !o.first : (o.first && Id(*o.first) == o.second), "a part taken out is still there"); }
        }
    }
    for (int id = 0; id < led.made; ++id) { REQ_EQ(led.destroyed[id], 1, "destructions of message " << id << " in the end"); }
    c.label("moved", moved);
    c.label("several parts at once", multi);
    c.nontrivial(steps >= 3 && led.made >= 2);
}
