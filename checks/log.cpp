// C28: logging
#include <mutex>
#include <spdlog/sinks/base_sink.h>
#include "history.h"
#include "net.h"
#include "modbus/IModbusManager.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/logging/LoggingLevel.h"

using namespace glue;
using pbt::Ctx;
using ref::Bytes;
using ref::Req;
using modbus::Logger;
using modbus::LoggerFactory;
using modbus::LoggingLevel;

namespace {

const LoggingLevel LEVELS[] = {LoggingLevel::Trace, LoggingLevel::Debug, LoggingLevel::Info, LoggingLevel::Warn, LoggingLevel::Error, LoggingLevel::Critical};
const spdlog::level::level_enum SPD[] = {spdlog::level::trace, spdlog::level::debug, spdlog::level::info, spdlog::level::warn, spdlog::level::err, spdlog::level::critical};
const char* LNAME[] = {"trace", "debug", "info", "warn", "error", "critical"};

struct Entry
{
    int level;
    std::string name, text;
    bool operator==(const Entry& o) const { return level == o.level && name == o.name && text == o.text; }
    std::string str() const { return "[" + name + "] " + LNAME[level] + ": " + text; }
};
class CapSink : public spdlog::sinks::base_sink<std::mutex>
{
public:
    std::vector<Entry> entries;
    std::vector<Entry> get(size_t from = 0) { std::lock_guard<std::mutex> l(mutex_); return std::vector<Entry>(entries.begin() + (long)from, entries.end()); }
protected:
    void sink_it_(const spdlog::details::log_msg& m) override
    {
        int l = 0;
        while(l < 5 && SPD[l] != m.level) ++l;
        entries.push_back({l, std::string(m.logger_name.data(), m.logger_name.size()), std::string(m.payload.data(), m.payload.size())});
    }
    void flush_() override {}
};

std::string gen_name(pbt::Src& s)
{
    static const char* n[] = {"plc", "Channel 1", "", "{}", "a{0}b", "%n%v", "x\ny", "a very long name of a channel that goes on and on and on", "\xc3\xa9t\xc3\xa9"};
    return n[s.below(9)];
}
// emits a message through one of the forms of the interface, returns its text
std::string emit(Logger& l, int level, pbt::Src& s)
{
    const int form = (int)s.below(5);
    const uint32_t a = (uint32_t)s.below(100000);
    std::string str = s.pick(std::vector<std::string>{"text", "{} braces {0}", "", "per % cent"});
    if(s.chance(1, 12)) { const size_t n = (size_t)s.pick(std::vector<int>{100, 250, 512, 1030, 5000, 70000}); while(str.size() < n) str += (char)('a' + str.size() % 26); }
    const modbus::UnitIdentifier unit((uint8_t)a);
#define FORMS(F)                                                                                          \
    switch(form)                                                                                          \
    {                                                                                                     \
    case 0: l.F("literal"); return "literal";                                                             \
    case 1: l.F(str); return str;                                                                         \
    case 2: l.F("one {}.", a); return pbt::fmt("one %u.", a);                                             \
    case 3: l.F("two {}, {}", str, (int)a); return pbt::fmt("two %s, %d", str.c_str(), (int)a);           \
    default: l.F("unit {} of {} {} {}", unit, a, "c", 'd'); return pbt::fmt("unit 0x%02X of %u c d", (unsigned)(uint8_t)a, a); \
    }
    switch(level)
    {
    case 0: FORMS(trace)
    case 1: FORMS(debug)
    case 2: FORMS(info)
    case 3: FORMS(warn)
    case 4: FORMS(error)
    default: FORMS(critical)
    }
#undef FORMS
}

// a tree of loggers on one or two sinks
void tree(Ctx& c)
{
    auto& s = c.src;
    std::vector<std::shared_ptr<CapSink>> sinks;
    std::vector<int> sink_level;
    for(size_t n = (size_t)s.range(1, 2); n; --n)
    {
        sinks.push_back(std::make_shared<CapSink>());
        sink_level.push_back(s.chance(1, 2) ? (int)s.below(6) : 0);
        sinks.back()->set_level(SPD[sink_level.back()]);
    }
    struct L { std::shared_ptr<Logger> p; std::string name; int level; };   // level -1: not specified
    std::vector<L> ls;
    std::vector<std::vector<Entry>> want(sinks.size());
    const bool many = c.index % 500 == 0;
    const size_t n = (size_t)(many ? s.range(300, 1500) : s.range(2, 30));
    if(many) c.label("hundreds of messages");
    std::vector<size_t> seen(sinks.size(), 0);
    for(size_t k = 0; k < n; ++k)
    {
        pbt::Group g(s);
        const size_t i = ls.empty() ? 0 : s.below(ls.size());
        switch(ls.empty() ? 0 : s.weighted({1, 3, 1, 10}))
        {
        case 0:
        {
            const auto name = gen_name(s);
            const int l = (int)s.below(6), before = (int)s.below(6);
            auto spd = std::make_shared<spdlog::logger>(name, sinks.begin(), sinks.end());
            spd->set_level(SPD[before]);
            const bool def = s.chance(1, 4);
            c.note("logger %zu: '%s' at %s, was %s", ls.size(), name.c_str(), def ? "default" : LNAME[l], LNAME[before]);
            ls.push_back({def ? LoggerFactory::create_custom_logger(spd) : LoggerFactory::create_custom_logger(spd, LEVELS[l]), name, def ? 2 : l});
            break;
        }
        case 1:
        {
            const auto name = gen_name(s);
            const int l = (int)s.below(6);
            c.note("logger %zu: '%s' at %s, child of %zu", ls.size(), name.c_str(), LNAME[l], i);
            ls.push_back({ls[i].p->clone(name, LEVELS[l]), name, l});
            c.label("child logger");
            break;
        }
        case 2:
        {
            const auto name = gen_name(s);
            c.note("logger %zu: '%s', child of %zu without a level", ls.size(), name.c_str(), i);
            ls.push_back({ls[i].p->clone(name), name, -1});
            break;
        }
        default:
        {
            const int l = (int)s.below(6);
            auto& x = ls[i];
            if(x.level < 0) break;      // what a child without a level of its own emits is not specified
            const auto text = emit(*x.p, l, s);
            c.note("logger %zu: %s '%s'", i, LNAME[l], text.c_str());
            if(l >= x.level) { for(size_t k = 0; k < sinks.size(); ++k) if(l >= sink_level[k]) want[k].push_back({l, x.name, text}); c.label("emitted"); }
            else c.label("suppressed");
        }
        }
        if(!ls.back().p) c.fail("C28/null", "no logger was created");
        for(size_t k = 0; k < sinks.size(); ++k)
        {
            const auto got = sinks[k]->get(seen[k]);
            const std::vector<Entry> due(want[k].begin() + (long)seen[k], want[k].end());
            for(size_t m = 0; m < std::max(got.size(), due.size()); ++m)
                if(m >= got.size()) c.fail("C28/lost", "a message was not emitted: %s", due[m].str().c_str());
                else if(m >= due.size()) c.fail("C28/extra", "a message was emitted: %s", got[m].str().c_str());
                else if(!(got[m] == due[m])) c.fail("C28/text", "emitted %s instead of %s", got[m].str().c_str(), due[m].str().c_str());
            seen[k] = want[k].size();
        }
    }
    if(ls.size() >= 2) c.nontrivial();
}

// the console logger writes to the standard output
void console(Ctx& c)
{
    auto& s = c.src;
    const int level = (int)s.below(6);
    const std::string name = pbt::fmt("console-%llu", (unsigned long long)s.below(1000000));
    std::vector<Entry> want;
    fflush(stdout);
    char path[] = "/tmp/vlogXXXXXX";
    const int fd = mkstemp(path), keep = dup(1);
    unlink(path);
    dup2(fd, 1);
    {
        auto l = LoggerFactory::create_console_logger(name, LEVELS[level]);
        for(size_t n = (size_t)s.range(1, 12); n; --n)
        {
            const int k = (int)s.below(6);
            const auto t = pbt::fmt("message %llu!", (unsigned long long)s.below(1000000000));
            switch(k)
            {
            case 0: l->trace(t); break;
            case 1: l->debug(t); break;
            case 2: l->info(t); break;
            case 3: l->warn(t); break;
            case 4: l->error(t); break;
            default: l->critical(t);
            }
            if(k >= level) want.push_back({k, name, t});
        }
    }
    spdlog::drop(name);
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    std::string out;
    lseek(fd, 0, SEEK_SET);
    char buf[4096];
    for(ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) out.append(buf, (size_t)n);
    close(fd);
    c.note("console logger '%s' at %s, %zu messages of that level or above", name.c_str(), LNAME[level], want.size());
    size_t lines = 0, pos = 0;
    for(char x : out) lines += x == '\n';
    if(lines != want.size()) c.fail("C28/console", "the console shows %zu lines instead of %zu: %s", lines, want.size(), out.c_str());
    for(auto& e : want)
    {
        const size_t end = out.find('\n', pos);
        const std::string line = out.substr(pos, end - pos);
        if(line.find(e.name) == std::string::npos || line.find(e.text) == std::string::npos) c.fail("C28/console", "the console shows \"%s\" instead of %s", line.c_str(), e.str().c_str());
        pos = end + 1;
    }
    c.label("console");
}

void compare_logs(Ctx& c, const char* what, int level, const std::vector<Entry>& all, const std::vector<Entry>& got, const std::string& name)
{
    std::vector<Entry> want;
    for(auto& e : all) if(e.level >= level) want.push_back(e);
    for(size_t m = 0; m < std::max(got.size(), want.size()); ++m)
        if(m >= got.size()) c.fail("C28/lost", "%s at level %s does not emit %s", what, LNAME[level], want[m].str().c_str());
        else if(m >= want.size()) c.fail("C28/extra", "%s at level %s emits %s", what, LNAME[level], got[m].str().c_str());
        else if(!(got[m] == want[m])) c.fail("C28/text", "%s at level %s emits %s instead of %s", what, LNAME[level], got[m].str().c_str(), want[m].str().c_str());
    for(auto& e : all) if(e.name.find(name) == std::string::npos) c.fail("C28/name", "%s: the message %s does not name '%s'", what, e.str().c_str(), name.c_str());
}

// the same history on a client channel at two levels
void client_history(Ctx& c)
{
    auto& s = c.src;
    const auto name = gen_name(s);
    const int base = (int)s.below(6), level = (int)s.range(1, 5);
    const uint64_t seed = s.below(1ull << 40);
    c.note("client channel '%s' at trace and at %s, history %llu", name.c_str(), LNAME[level], (unsigned long long)seed);
    struct R { std::vector<Entry> log; std::vector<RecConn::Sent> sent; std::vector<std::shared_ptr<hist::HReq>> reqs; };
    auto run = [&](int l) {
        R r;
        auto sink = std::make_shared<CapSink>();
        auto parent = LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("parent", sink), LEVELS[base]);
        pbt::Src src(seed);
        Ctx ctx(src, 1, false, false);
        hist::Options o;
        o.w_error = 2;
        hist::History h(ctx, o, l < 0 ? LoggerFactory::create_null_logger("null") : parent->clone(name, LEVELS[l]));
        h.run();
        r.log = sink->get();
        r.sent = h.w.conn->sent;
        r.reqs = h.reqs;
        return r;
    };
    const R a = run(0), b = run(level), d = run(-1);
    compare_logs(c, "a client channel", level, a.log, b.log, name);
    for(auto* x : {&b, &d})
    {
        const char* l = x == &b ? LNAME[level] : "the null logger";
        bool same = a.sent.size() == x->sent.size() && a.reqs.size() == x->reqs.size();
        for(size_t i = 0; same && i < a.sent.size(); ++i) same = a.sent[i].bytes == x->sent[i].bytes && a.sent[i].time == x->sent[i].time;
        for(size_t i = 0; same && i < a.reqs.size(); ++i) same = a.reqs[i]->outcomes == x->reqs[i]->outcomes;
        if(!same) c.fail("C28/behaviour", "a client channel behaves differently at trace and with %s", l);
    }
    std::set<int> seen;
    for(auto& e : a.log) seen.insert(e.level);
    for(int l : seen) c.label(std::string("client message: ") + LNAME[l]);
    if(seen.size() >= 3) c.nontrivial();
}

// the same bytes to a server channel at two levels
void server_history(Ctx& c)
{
    auto& s = c.src;
    const auto name = gen_name(s);
    const int base = (int)s.below(6), level = (int)s.range(1, 5);
    Bytes in;
    for(size_t n = (size_t)s.range(1, 12); n; --n)
    {
        pbt::Group g(s);
        const Req q = ref::gen_request(s);
        Bytes pdu = ref::encode(q);
        switch(s.weighted({5, 2, 2, 1}))
        {
        case 0: break;
        case 1: pdu.resize(s.below(pdu.size())); break;
        case 2: pdu[0] = s.byte(); break;
        default: pdu.push_back(s.byte());
        }
        const auto f = ref::frame(s.u16(), (uint8_t)s.range(1, 3), pdu);
        in.insert(in.end(), f.begin(), f.end());
    }
    const auto chunks = split(s, in, (int)s.below(4));
    c.note("server channel '%s' at trace and at %s, %zu bytes", name.c_str(), LNAME[level], in.size());
    struct R { std::vector<Entry> log; Bytes out; };
    auto run = [&](int l) {
        R r;
        auto sink = std::make_shared<CapSink>();
        auto parent = LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("parent", sink), LEVELS[base]);
        ServerWorld w(l < 0 ? LoggerFactory::create_null_logger("null") : parent->clone(name, LEVELS[l]));
        auto session = std::make_shared<ScriptSession>();
        session->handler = [](const Req& q) {
            Answer a;
            if(q.addr & 1) { a.kind = Outcome::Modbus; a.code = 2; return a; }
            a.resp.fc = q.fc;
            if(q.fc <= 4) for(unsigned i = 0; i < q.qty; ++i) a.resp.points.push_back({(uint16_t)(q.addr + i), (uint16_t)(i & 1)});
            else if(q.fc == 5) a.resp.points.push_back({q.addr, (uint16_t)q.coil});
            else if(q.fc == 6) a.resp.points.push_back({q.addr, q.reg});
            else { a.resp.addr = q.addr; a.resp.qty = (uint16_t)q.count(); }
            return a;
        };
        w.channel->add_session(modbus::UnitIdentifier{1}, session);
        w.channel->add_session(modbus::UnitIdentifier{2}, session);
        w.channel->start();
        w.exec->drain();
        auto conn = w.connect();
        if(!conn) c.fail("C28/behaviour", "a server channel did not start");
        for(auto& b : chunks) { w.post_receive(conn, b); w.exec->drain(); }
        w.channel->shutdown();
        w.exec->drain();
        r.log = sink->get();
        r.out = conn->out;
        return r;
    };
    const R a = run(0), b = run(level), d = run(-1);
    compare_logs(c, "a server channel", level, a.log, b.log, name);
    if(a.out != b.out || a.out != d.out) c.fail("C28/behaviour", "a server channel answers differently at different levels");
    std::set<int> seen;
    for(auto& e : a.log) seen.insert(e.level);
    for(int l : seen) c.label(std::string("server message: ") + LNAME[l]);
    if(seen.size() >= 2) c.nontrivial();
}

// channels of a real manager
struct Real { std::vector<Entry> log; std::vector<std::string> outcomes; };
Real real_run(Ctx& c, int manager, const int* level, const std::string* name, unsigned threads, bool default_level)
{
    Real r;
    auto sink = std::make_shared<CapSink>();
    auto custom = std::make_shared<spdlog::logger>("base", sink);
    const std::string ip = net::own_address();
    uint16_t port = net::next_port();
    {
        auto m = modbus::IModbusManager::create(LoggerFactory::create_custom_logger(custom, LEVELS[manager]), threads);
        std::shared_ptr<modbus::IServerChannel> server;
        for(int i = 0; !server && i < 50; ++i)
        {
            try { server = m->create_server_tcp_channel(name[0], modbus::Ipv4Endpoint{ip, port}, 5, LEVELS[level[0]]); }
            catch(const std::exception&) { port = net::next_port(); }
        }
        if(!server) c.inconclusive("no port to listen on");
        auto session = std::make_shared<ScriptSession>();
        session->handler = [](const Req& q) { Answer a; a.resp.fc = q.fc; for(unsigned i = 0; i < q.qty; ++i) a.resp.points.push_back({(uint16_t)(q.addr + i), (uint16_t)(i + 7)}); return a; };
        server->add_session(modbus::UnitIdentifier{1}, session);
        server->start();
        auto client = default_level ? m->create_client_tcp_channel(name[1], modbus::Ipv4Endpoint{ip, port}, "") : m->create_client_tcp_channel(name[1], modbus::Ipv4Endpoint{ip, port}, "", LEVELS[level[1]]);
        auto failing = m->create_client_tcp_channel(name[2], modbus::Ipv4Endpoint{net::own_address(1), 1}, "", LEVELS[level[2]]);
        auto ask = [&](std::shared_ptr<modbus::IClientChannel> ch, uint8_t unit, int ms) {
            auto se = ch->create_session(modbus::UnitIdentifier{unit}, std::chrono::milliseconds(ms));
            Req q;
            q.fc = 3; q.addr = 5; q.qty = 3;
            std::mutex mx;
            std::condition_variable cv;
            std::string got;
            issue(*se, q, nullptr, [&](const Outcome& o) { std::lock_guard<std::mutex> l(mx); got = o.kind == Outcome::Connection ? "connection error" : o.str(); cv.notify_all(); });
            std::unique_lock<std::mutex> l(mx);
            if(!cv.wait_for(l, std::chrono::seconds(20), [&] { return !got.empty(); })) { l.unlock(); m.reset(); c.fail_soft("C28/behaviour", "a request on channel '%s' got no outcome", ch == failing ? "failing" : "client"); }
            r.outcomes.push_back(got);
        };
        ask(client, 1, 15000);
        ask(client, 9, 30);         // no session of this unit: the server warns, the client times out
        ask(failing, 1, 15000);
    }
    r.log = sink->get();
    return r;
}
void real(Ctx& c)
{
    auto& s = c.src;
    const std::string name[3] = {"srv" + gen_name(s), "cli" + gen_name(s), "bad" + gen_name(s)};
    int level[3] = {(int)s.below(6), (int)s.below(6), (int)s.below(6)};
    const int manager = (int)s.below(6), zero[3] = {0, 0, 0};
    const unsigned threads = (unsigned)s.range(1, 3);
    const bool def = s.chance(1, 4);
    if(def) level[1] = 2;    // the documented default is Info
    c.note("manager at %s, server '%s' at %s, client '%s' at %s%s, client '%s' at %s, %u threads", LNAME[manager], name[0].c_str(), LNAME[level[0]], name[1].c_str(), LNAME[level[1]], def ? " (default)" : "", name[2].c_str(), LNAME[level[2]], threads);
    const Real a = real_run(c, manager, zero, name, threads, false), b = real_run(c, manager, level, name, threads, def);
    if(a.outcomes != b.outcomes)
        c.fail_soft("C28/behaviour", "requests end differently at different levels: %s, %s, %s and %s, %s, %s", a.outcomes[0].c_str(), a.outcomes[1].c_str(), a.outcomes[2].c_str(), b.outcomes[0].c_str(), b.outcomes[1].c_str(), b.outcomes[2].c_str());
    for(auto& e : b.log)
    {
        int k = -1;
        for(int i = 0; i < 3; ++i) if(e.name.find(name[i]) != std::string::npos) k = i;
        if(k < 0) c.fail("C28/name", "the message %s names no channel", e.str().c_str());
        if(e.level < level[k]) c.fail("C28/extra", "channel '%s' at level %s emits %s", name[k].c_str(), LNAME[level[k]], e.str().c_str());
    }
    // kinds of messages this workload always produces
    static const int core[][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 1}, {1, 2}, {2, 4}};
    for(auto& x : core)
    {
        auto has = [&](const Real& r) { for(auto& e : r.log) if(e.level == x[1] && e.name.find(name[x[0]]) != std::string::npos) return true; return false; };
        if(has(a)) c.label(pbt::fmt("real message: %d %s", x[0], LNAME[x[1]]));
        if(x[1] >= level[x[0]] && has(a) && !has(b)) c.fail_soft("C28/lost", "channel '%s' at level %s emits no message of level %s", name[x[0]].c_str(), LNAME[level[x[0]]], LNAME[x[1]]);
    }
    c.label("real manager");
    c.nontrivial();
}

void c28(Ctx& c)
{
    if(c.index % 100 == 50) { real(c); return; }
    switch(c.src.weighted({4, 6, 4, 1}))
    {
    case 0: tree(c); break;
    case 1: client_history(c); break;
    case 2: server_history(c); break;
    default: console(c);
    }
}

pbt::Register r28([] {
    pbt::Property p;
    p.id = "C28";
    p.run = c28;
    p.quick_cases = 40000;
    p.thorough_cases = 400000;
    p.rule = "four kinds of cases: random trees of loggers on capturing sinks with levels of their own, each message compared with the model; console loggers whose standard output is captured; the same random client history and the same bytes to a server channel run at trace, at a random level and with the null logger in virtual time, where the messages must be exactly the trace messages of that level or above, name the channel, and frames and outcomes must be identical; "
             "and (every hundredth case) channels of a real manager with levels of their own, once at trace and once at random levels. Non-trivial = at least two loggers, messages of at least two severities, or a real manager.";
    p.assumptions = {"what a child logger created without a level of its own emits is not specified",
                     "ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)"};
    p.required_labels = {"child logger", "emitted", "suppressed", "console", "client message: debug", "client message: info", "client message: warn", "client message: error",
                         "server message: warn", "real manager", "hundreds of messages"};
    return p;
}());

} // namespace
