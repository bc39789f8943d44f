// C11: the in-memory database under concurrency (built with ThreadSanitizer)
#include "glue.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include <atomic>
#include <mutex>
#include <thread>

using namespace glue;
using pbt::Ctx;
using ref::Req;

namespace {

struct Gate   // releases all threads together
{
    std::atomic<int> ready{0};
    std::atomic<bool> go{false};
    void wait() { ++ready; while(!go.load()) std::this_thread::yield(); }
    void open(int n) { while(ready.load() < n) std::this_thread::yield(); go = true; }
};

enum Kind { SetAll, Increment, ReadAll, ReadRequest, WriteRequest, WriteCoils, Add, Throw, Watch, Kinds };
struct Abandoned {};

void c11(Ctx& c)
{
    auto& s = c.src;
    auto db = std::make_shared<modbus::InMemoryDatabase>();
    modbus::IServerSession& session = *db;
    // registers and coils that always change together
    const int width = s.chance(1, 12) ? (int)s.range(25, 123) : (int)s.range(2, 24);
    const uint16_t base = (uint16_t)s.below(65536 - 300);
    const uint16_t counter = (uint16_t)(base + 130);
    for(int i = 0; i < width; ++i)
    {
        db->add_holding_register((uint16_t)(base + i), 0);
        db->add_input_register((uint16_t)(base + i), 0);
        db->add_coil((uint16_t)(base + i), false);
        db->add_discrete_input((uint16_t)(base + i), false);
    }
    db->add_holding_register(counter, 0);
    const int nt = (int)s.range(2, 6);
    struct Op { Kind k; int arg; };
    std::vector<std::vector<Op>> plan((size_t)nt);
    std::vector<int> kinds(Kinds, 0);
    for(auto& p : plan)
    {
        pbt::Group g(s);
        for(int n = (int)s.range(4, 40); n--;)
        {
            Op o{(Kind)s.below(Kinds), (int)s.below(16)};
            ++kinds[o.k];
            p.push_back(o);
        }
    }
    c.note("%d threads, width %d, base %u; set=%d inc=%d read=%d readreq=%d writereq=%d coils=%d add=%d", nt, width, base, kinds[0], kinds[1], kinds[2], kinds[3], kinds[4], kinds[5], kinds[6]);
    std::mutex mu;
    std::string bad;
    auto complain = [&](const std::string& m) { std::lock_guard<std::mutex> l(mu); if(bad.empty()) bad = m; };
    std::atomic<int> increments{0}, nested{0};
    std::atomic<int> added[16];
    for(auto& a : added) a = 0;
    int inside = 0;          // guarded by nothing but the transaction itself: a race here means overlapping transactions
    Gate gate;
    std::vector<std::thread> threads;
    for(int t = 0; t < nt; ++t)
        threads.emplace_back([&, t]() {
            gate.wait();
            int n = 0;
            uint16_t seen = 0;
            for(auto& o : plan[(size_t)t])
            {
                const uint16_t v = (uint16_t)(t * 5000 + ++n);
                switch(o.k)
                {
                case SetAll:
                    db->execute_transaction([&](modbus::IDatabase& d) {
                        if(++inside != 1) complain("two transactions at the same time");
                        for(int i = 0; i < width; ++i)
                        {
                            d.set_holding_register((uint16_t)(base + i), v);
                            d.set_input_register((uint16_t)(base + i), v);
                            d.set_coil((uint16_t)(base + i), v & 1);
                            d.set_discrete_input((uint16_t)(base + i), v & 1);
                        }
                        --inside;
                    });
                    break;
                case Increment:
                    db->execute_transaction([&](modbus::IDatabase& d) {
                        if(++inside != 1) complain("two transactions at the same time");
                        uint16_t x = 0;
                        if(!d.get_holding_register(counter, x) || !d.set_holding_register(counter, (uint16_t)(x + 1))) complain("counter lost");
                        --inside;
                        if(x < seen) complain(pbt::fmt("a transaction read the counter as %u after %u", x, seen));
                        seen = (uint16_t)(x + 1);
                    });
                    ++increments;
                    break;
                case ReadAll:
                    db->execute_transaction([&](modbus::IDatabase& d) {
                        if(++inside != 1) complain("two transactions at the same time");
                        uint16_t h0 = 0, i0 = 0; bool c0 = false, d0 = false;
                        d.get_holding_register(base, h0); d.get_input_register(base, i0); d.get_coil(base, c0); d.get_discrete_input(base, d0);
                        for(int i = 1; i < width; ++i)
                        {
                            uint16_t h = 0, r = 0; bool b = false, di = false;
                            d.get_holding_register((uint16_t)(base + i), h); d.get_input_register((uint16_t)(base + i), r);
                            d.get_coil((uint16_t)(base + i), b); d.get_discrete_input((uint16_t)(base + i), di);
                            if(h != h0 || r != i0 || b != c0 || di != d0) complain("a transaction saw a mixture of two updates");
                        }
                        if(d0 != (i0 & 1)) complain("a transaction saw half of another transaction");
                        --inside;
                    });
                    break;
                case ReadRequest:
                {
                    Req q; q.fc = 1 + o.arg % 4; q.addr = base; q.qty = (uint16_t)width;
                    with_fc(q.fc, [&](auto fc) {
                        constexpr int FC = decltype(fc)::value;
                        auto r = outcome_of<FC>(session.on_request(T<FC>::make(q)));
                        if(r.kind != Outcome::Value) { complain("a read request failed: " + r.str()); return; }
                        for(auto& p : r.resp.points) if(p.value != r.resp.points[0].value) { complain("a read request returned a mixture of two updates"); return; }
                    });
                    break;
                }
                case WriteRequest:
                {
                    Req q; q.fc = 0x10; q.addr = base; q.regs.assign((size_t)width, v);
                    auto r = outcome_of<0x10>(session.on_request(T<0x10>::make(q)));
                    if(r.kind != Outcome::Value) complain("a write request failed: " + r.str());
                    // single writes to existing points run concurrently with everything else
                    if(o.arg == 3) { Req x; x.fc = 6; x.addr = (uint16_t)(base + 200); x.reg = v; outcome_of<6>(session.on_request(T<6>::make(x))); }
                    break;
                }
                case WriteCoils:
                {
                    Req q; q.fc = 0x0F; q.addr = base; q.bits.assign((size_t)width, v & 1);
                    auto r = outcome_of<0x0F>(session.on_request(T<0x0F>::make(q)));
                    if(r.kind != Outcome::Value) complain("a write request failed: " + r.str());
                    if(o.arg == 3) { Req x; x.fc = 5; x.addr = (uint16_t)(base + 200); x.coil = true; outcome_of<5>(session.on_request(T<5>::make(x))); }
                    break;
                }
                case Throw:      // a transaction that is left by an exception does not block anything
                {
                    bool ok = false;
                    try
                    {
                        db->execute_transaction([&](modbus::IDatabase& d) {
                            if(++inside != 1) complain("two transactions at the same time");
                            uint16_t x = 0;
                            d.get_holding_register(counter, x);
                            --inside;
                            throw Abandoned{};
                        });
                    }
                    catch(const Abandoned&) { ok = true; }
                    if(!ok) complain("the exception of a transaction was lost");
                    break;
                }
                case Watch:      // what was seen once is not unseen later
                {
                    uint16_t x = 0;
                    if(o.arg & 1) db->execute_transaction([&](modbus::IDatabase& d) { d.get_holding_register(counter, x); });
                    else
                    {
                        Req q; q.fc = 3; q.addr = counter; q.qty = 1;
                        auto r = outcome_of<3>(session.on_request(T<3>::make(q)));
                        if(r.kind != Outcome::Value || r.resp.points.size() != 1) { complain("a read request failed: " + r.str()); break; }
                        x = (uint16_t)r.resp.points[0].value;
                    }
                    if(x < seen) complain(pbt::fmt("the counter was read as %u after %u", x, seen));
                    seen = x;
                    break;
                }
                default:
                {
                    const uint16_t a = (uint16_t)(base + 140 + o.arg);
                    bool r;
                    switch(o.arg % 4)
                    {
                    case 0: r = db->add_coil(a, true); break;
                    case 1: r = db->add_discrete_input(a, true); break;
                    case 2: r = db->add_holding_register(a, v); break;
                    default: r = db->add_input_register(a, v);
                    }
                    if(r) ++added[o.arg];
                }
                }
            }
        });
    gate.open(nt);
    for(auto& t : threads) t.join();
    if(!bad.empty()) c.fail("C11/atomicity", "%s", bad.c_str());
    uint16_t x = 0;
    db->execute_transaction([&](modbus::IDatabase& d) { d.get_holding_register(counter, x); });
    if(x != (uint16_t)increments.load()) c.fail("C11/lost-update", "%d increments left the counter at %u", increments.load(), x);
    for(int a = 0; a < 16; ++a) if(added[a] > 1) c.fail("C11/add", "%d threads added the same point", added[a].load());
    const char* names[] = {"set", "increment", "read", "read request", "write request", "write coils", "add", "abandoned", "watch"};
    for(int k = 0; k < Kinds; ++k) if(kinds[k]) c.label(names[k]);
    if(kinds[SetAll] + kinds[WriteRequest] + kinds[Increment] > 3) c.nontrivial();
}

pbt::Register r11([] {
    pbt::Property p;
    p.id = "C11";
    p.rule = "2-6 threads run random mixes of transactions (set many points of all four kinds, read them, increment a counter, are abandoned by an exception), read and write requests and additions on one database; groups of points written together must be read together, no increment may be lost, each point is added once, no thread sees a counter going back. Runs under ThreadSanitizer, which also judges the data races. Non-trivial = more than three writers.";
    p.run = c11; p.quick_cases = 40000; p.thorough_cases = 600000;
    p.workers = 6;
    p.assumptions = {"interleavings are those the scheduler produces; ThreadSanitizer finds unordered accesses independently of the exact interleaving"};
    p.required_labels = {"set", "increment", "read", "read request", "write request", "write coils", "add", "abandoned", "watch"};
    return p;
}());

} // namespace
