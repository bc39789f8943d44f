// C07, C08: dispatch on the server and independence of its connections
#include "client_world.h"
#include "net.h"
#include "server_world.h"
#include "modbus/IModbusManager.h"
#include <set>

using namespace glue;
using pbt::Ctx;
using ref::Bytes;
using ref::Req;
using ref::Resp;

namespace {

Bytes cat(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }

// The answer of session `sid` to its k-th call, as a pure function
Answer scripted(uint64_t salt, int sid, uint64_t k, const Req& q, bool errors)
{
    uint64_t h = pbt::mix(salt, (uint64_t)sid * 1000003 + k);
    for(uint8_t b : ref::encode(q)) h = pbt::mix(h, b);
    Answer a;
    const unsigned kind = (unsigned)(h % 16);
    if(errors && kind < 4)
    {
        static const int codes[] = {1, 2, 3, 4, 5, 6, 8, 10, 11};
        a.kind = Outcome::Modbus;
        a.code = codes[(h >> 8) % 9];
        return a;
    }
    if(errors && kind == 4) { a.kind = Outcome::Timeout; return a; }
    if(errors && kind == 5) { a.kind = Outcome::MalformedRequest; return a; }
    if(errors && kind == 6) { a.kind = Outcome::Other; return a; }
    a.resp.fc = q.fc;
    uint64_t x = h;
    if(q.fc <= 4)
        for(unsigned i = 0; i < q.qty; ++i)
        {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            uint16_t v = (uint16_t)(x >> 44);
            a.resp.points.push_back({(uint16_t)(q.addr + i), (uint16_t)(ref::is_read_bits(q.fc) ? v & 1 : v)});
        }
    else if(q.fc == 5) a.resp.points.push_back({q.addr, (uint16_t)q.coil});
    else if(q.fc == 6) a.resp.points.push_back({q.addr, q.reg});
    else { a.resp.addr = q.addr; a.resp.qty = (uint16_t)q.count(); }
    return a;
}
// The reply PDU to be sent for an answer; empty = none
Bytes reply_pdu(const Req& q, const Answer& a)
{
    if(a.kind == Outcome::Value) return ref::encode(a.resp);
    if(a.kind == Outcome::Modbus) return ref::encode_exception(q.fc, (uint8_t)a.code);
    return {};
}
Req small_request(pbt::Src& s)
{
    Req r = ref::gen_request(s);
    if(s.chance(3, 4))
    {
        if(r.fc <= 4) r.qty = (uint16_t)s.range(1, 20);
        if(r.bits.size() > 20) r.bits.resize((size_t)s.range(1, 20));
        if(r.regs.size() > 10) r.regs.resize((size_t)s.range(1, 10));
    }
    return r;
}
// One frame for a server; unit drawn from `units`
Bytes gen_frame(Ctx& c, const std::vector<uint8_t>& units, bool in_sync_only = false)
{
    auto& s = c.src;
    const uint16_t tid = s.u16_i();
    const uint8_t unit = s.chance(1, 8) ? s.byte_i() : s.pick(units);
    switch(s.weighted({8, 2, 2, 1, 1, 1}))
    {
    case 0: c.label("frame: valid"); return ref::frame(tid, unit, ref::encode(small_request(s)));
    case 1: { c.label("frame: malformed"); Bytes b = ref::encode(small_request(s)); if(s.chance(1, 2)) b.resize((size_t)s.range(1, (int64_t)b.size() - 1)); else for(int n = (int)s.range(1, 3); n--;) b.push_back(s.byte()); return ref::frame(tid, unit, b); }
    case 2: { c.label("frame: unsupported"); int fc; do fc = (int)s.below(256); while(ref::supported(fc)); Bytes b = s.bytes((size_t)s.range(0, 12)); b.insert(b.begin(), (uint8_t)fc); return ref::frame(tid, unit, b); }
    case 3: c.label("frame: no payload"); return ref::frame(tid, unit, {});
    case 4: c.label("frame: foreign protocol"); return ref::frame(tid, unit, ref::encode(small_request(s)), (uint16_t)(1 + s.below(65535)));
    default:
        if(in_sync_only) return ref::frame(tid, unit, ref::encode(small_request(s)));
        c.label("frame: over-long");
        Bytes b = ref::encode(small_request(s));
        size_t n = (size_t)s.range(254, 700);
        while(b.size() < n) b.push_back((uint8_t)b.size());
        return ref::frame(tid, unit, b);
    }
}

// Reference server: what a stream of frames calls for
struct Call { int sid; Req q; };
struct RefServer
{
    std::map<uint8_t, int> units;                    // unit -> session
    std::map<int, uint64_t> calls_of;
    std::vector<Call> calls;
    bool down = false;
    uint64_t salt = 0;
    bool errors = true;
    bool stateless = false;
    // appends the reply to `out`
    void on_frame(const ref::Frame& f, Bytes& out)
    {
        if(down) return;
        auto it = units.find(f.unit);
        if(it == units.end() || f.pdu.empty()) return;
        const int fc = f.pdu[0];
        Bytes r;
        if(!ref::supported(fc)) r = ref::encode_exception((uint8_t)fc, 1);
        else
        {
            Req q;
            switch(ref::decode_request(fc, f.pdu, q))
            {
            case ref::DReq::Ok:
                calls.push_back({it->second, q});
                r = reply_pdu(q, scripted(salt, it->second, stateless ? 0 : calls_of[it->second]++, q, errors));
                break;
            case ref::DReq::IllegalValue: r = ref::encode_exception((uint8_t)fc, 3); break;
            case ref::DReq::Either: ambiguous = true; break;
            case ref::DReq::Malformed: break;
            }
        }
        if(!r.empty()) { out = cat(out, ref::frame(f.tid, f.unit, r)); ++replies; }
    }
    bool ambiguous = false;
    size_t replies = 0;
};

// ---------------------------------------------------------------------------------------- C07
void c07(Ctx& c)
{
    auto& s = c.src;
    ServerWorld w;
    RefServer m;
    m.salt = s.below(1u << 30);
    struct Conn { std::shared_ptr<OutConn> c; Bytes in; size_t framed = 0; Bytes out; };
    std::vector<std::shared_ptr<Conn>> conns;
    std::vector<Call> calls;
    std::map<int, uint64_t> calls_of;
    std::vector<std::shared_ptr<ScriptSession>> sessions;
    const std::vector<uint8_t> units{(uint8_t)s.byte_i(), (uint8_t)s.byte_i(), 1, 0, 255};

    std::function<void(uint8_t, int)> add;
    auto make_session = [&]() {
        const int sid = (int)sessions.size();
        auto sess = std::make_shared<ScriptSession>();
        sess->handler = [&, sid](const Req& q) {
            calls.push_back({sid, q});
            // sometimes a session replaces itself, or registers another unit, while answering
            if(q.addr % 23 == 7 && (int)sessions.size() > sid + 1) add(units[q.addr % units.size()], sid + 1);
            return scripted(m.salt, sid, calls_of[sid]++, q, true);
        };
        sessions.push_back(sess);
        return sid;
    };
    add = [&](uint8_t unit, int sid) {
        w.channel->add_session(modbus::UnitIdentifier{unit}, sessions[sid]);
        w.exec->post([&m, unit, sid]() { if(!m.down) m.units[unit] = sid; });
    };
    for(int i = 0; i < 5; ++i) make_session();

    auto open_conn = [&]() {
        w.exec->drain();
        auto k = std::make_shared<Conn>();
        k->c = w.connect();
        if(k->c) conns.push_back(k);
    };
    for(int i = 0; i < 3; ++i) if(s.chance(2, 3)) { add(units[i], i); c.note("add_session(unit %u, session %d) before start", units[i], i); }
    w.channel->start();
    c.note("start");
    open_conn();
    if(conns.empty()) c.fail("C07/start", "start() did not start the server");

    const size_t n = (size_t)s.range(1, c.thorough ? 30 : 14);
    size_t replaced = 0, frames = 0;
    for(size_t i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        switch(s.weighted({10, 3, 1, 2, 1}))
        {
        case 0:
        {
            auto k = conns[s.below(conns.size())];
            Bytes data;
            for(int f = (int)s.range(1, 3); f--;) { data = cat(data, gen_frame(c, units)); ++frames; }
            c.note("receive[%zu] %s", data.size(), pbt::hex(data, 80).c_str());
            for(auto& ch : split(s, data, (int)s.weighted({4, 0, 1, 2})))
            {
                w.post_receive(k->c, ch);
                w.exec->post([k, ch, &m]() {
                    k->in = cat(k->in, ch);
                    auto all = ref::deframe(k->in);
                    for(; k->framed < all.size(); ++k->framed) m.on_frame(all[k->framed], k->out);
                });
                if(s.chance(1, 6)) w.exec->run_one();
            }
            break;
        }
        case 1:
        {
            const uint8_t u = s.pick(units);
            const int sid = (int)s.below(sessions.size());
            c.note("add_session(unit %u, session %d)", u, sid);
            if(m.units.count(u)) ++replaced;
            add(u, sid);
            break;
        }
        case 2: if(conns.size() < 4) { c.note("new connection"); open_conn(); } break;
        case 3: c.note("run"); w.exec->drain(); break;
        default:
            if(s.chance(1, 4))
            {
                c.note("shutdown");
                w.channel->shutdown();
                w.exec->post([&m]() { m.down = true; m.units.clear(); });
                c.label("shutdown");
            }
        }
        if(m.ambiguous) throw pbt::Discard{};
    }
    w.exec->drain();
    if(m.ambiguous) throw pbt::Discard{};
    if(replaced) c.label("session replaced");
    if(m.replies >= 2) c.nontrivial();
    for(size_t i = 0; i < std::max(calls.size(), m.calls.size()); ++i)
    {
        if(i >= calls.size()) c.fail("C07/calls", "request %s was never passed to session %d", m.calls[i].q.str().c_str(), m.calls[i].sid);
        if(i >= m.calls.size()) c.fail("C07/calls", "session %d was called with %s, expected no such call", calls[i].sid, calls[i].q.str().c_str());
        if(calls[i].sid != m.calls[i].sid || !(calls[i].q == m.calls[i].q))
            c.fail("C07/calls", "call %zu: session %d got %s, expected session %d to get %s", i, calls[i].sid, calls[i].q.str().c_str(), m.calls[i].sid, m.calls[i].q.str().c_str());
    }
    for(auto& k : conns)
        if(k->c->out != k->out) c.fail("C07/replies", "replies %s, expected %s", pbt::hex(k->c->out, 300).c_str(), pbt::hex(k->out, 300).c_str());
    w.channel->shutdown();
    w.exec->drain();
}

// Thousands of frames, hundreds of connections, every unit: far more than any ordinary history has
void large(Ctx& c, const char* id)
{
    auto& s = c.src;
    ServerWorld w;
    RefServer m;
    m.stateless = true;
    m.salt = s.below(1u << 30);
    size_t ncalls = 0;
    std::vector<Call> calls;
    std::vector<std::shared_ptr<ScriptSession>> sessions;
    const int nsess = (int)s.pick(std::vector<int>{3, 40, 256, 300});
    for(int i = 0; i < nsess; ++i)
    {
        auto sess = std::make_shared<ScriptSession>();
        sess->handler = [&, i](const Req& q) { calls.push_back({i, q}); return scripted(m.salt, i, 0, q, true); };
        sessions.push_back(sess);
    }
    auto add = [&](uint8_t u, int sid) { w.channel->add_session(modbus::UnitIdentifier{u}, sessions[(size_t)sid]); w.exec->post([&m, u, sid] { m.units[u] = sid; }); };
    const int nunits = (int)s.pick(std::vector<int>{3, 33, 130, 256});
    for(int u = 0; u < nunits; ++u) add((uint8_t)(u * 7), (int)s.below((uint64_t)nsess));
    w.channel->start();
    w.exec->drain();
    struct Conn { std::shared_ptr<OutConn> c; size_t seen = 0, frames = 0; Bytes rest; };
    std::vector<Conn> conns;
    const size_t most = (size_t)s.pick(std::vector<int>{1, 5, 40, 150});
    const size_t churn = (size_t)s.pick(std::vector<int>{0, 5, 50});
    const size_t n = (size_t)s.range(1500, c.thorough ? 40000 : 5000);
    uint64_t h = s.below(1ull << 60);
    c.note("large: %d sessions, %d units, up to %zu connections, %zu frames", nsess, nunits, most, n);
    size_t opened = 0;
    const std::vector<uint8_t> all_units = [] { std::vector<uint8_t> v; for(int i = 0; i < 256; ++i) v.push_back((uint8_t)i); return v; }();
    for(size_t i = 0; i < n; ++i)
    {
        h = pbt::mix(h, i);
        if(conns.size() < most && (conns.empty() || h % 8 == 0))
        {
            Conn k;
            k.c = w.connect();
            if(!k.c) c.fail(id, "the server was not started");
            conns.push_back(k);
            ++opened;
        }
        auto& k = conns[(h >> 8) % conns.size()];
        // the frame is a function of h alone, so that a long case has a short description
        pbt::Src fs(h);

        Req q = small_request(fs);
        Bytes pdu = ref::encode(q);
        const uint8_t unit = (uint8_t)(((h >> 16) % (unsigned)(nunits + 1)) * 7);
        if((h >> 24) % 16 == 0) pdu.resize(1 + (h >> 32) % pdu.size());
        if((h >> 24) % 16 == 1) pdu[0] = (uint8_t)(h >> 32);
        const Bytes f = ref::frame((uint16_t)(h >> 40), unit, pdu);
        const size_t cut = (h >> 28) % 4 == 0 ? 1 + (h >> 33) % (f.size() - 1) : f.size();
        w.post_receive(k.c, Bytes(f.begin(), f.begin() + (long)cut));
        if(cut < f.size()) w.post_receive(k.c, Bytes(f.begin() + (long)cut, f.end()));
        w.exec->drain();
        ++k.frames;
        Bytes want;
        m.calls.clear();
        m.ambiguous = false;
        const auto parsed = ref::deframe(f);
        for(auto& x : parsed) m.on_frame(x, want);
        if(m.ambiguous || parsed.size() != 1) { calls.clear(); k.seen = k.c->out.size(); continue; }
        const Bytes got(k.c->out.begin() + (long)k.seen, k.c->out.end());
        k.seen = k.c->out.size();
        if(got != want) c.fail(id, "frame %zu of %zu, the %zu. on its connection, %s: replies %s, expected %s", i, n, k.frames, pbt::hex(f, 60).c_str(), pbt::hex(got, 100).c_str(), pbt::hex(want, 100).c_str());
        if(calls.size() != m.calls.size() || (!calls.empty() && (calls[0].sid != m.calls[0].sid || !(calls[0].q == m.calls[0].q))))
            c.fail(id, "frame %zu of %zu (%s): %zu calls, expected %zu", i, n, pbt::hex(f, 60).c_str(), calls.size(), m.calls.size());
        ncalls += calls.size();
        calls.clear();
        if(churn && (h >> 48) % 1000 < churn)
        {
            const size_t j = (h >> 50) % conns.size();
            auto conn = conns[j].c;
            w.exec->post([conn]() { conn->listener->on_error("lost"); });
            conns.erase(conns.begin() + (long)j);
        }
        if((h >> 20) % 64 == 0) add((uint8_t)(((h >> 44) % (unsigned)nunits) * 7), (int)((h >> 52) % (unsigned)nsess));
        if(conns.empty()) { w.exec->drain(); continue; }
    }
    c.label("thousands of frames");
    if(opened > 30) c.label("more than 30 connections");
    if(ncalls > 100) c.nontrivial();
    w.channel->shutdown();
    w.exec->drain();
}

// ---------------------------------------------------------------------------------------- C08
// Recorded connections on a virtual executor
void c08_virtual(Ctx& c)
{
    auto& s = c.src;
    ServerWorld w;
    RefServer m;
    m.stateless = true;
    m.salt = s.below(1u << 30);
    const std::vector<uint8_t> units{1, 2, 3};
    std::vector<std::shared_ptr<ScriptSession>> sessions;
    for(int i = 0; i < 2; ++i)
    {
        auto sess = std::make_shared<ScriptSession>();
        sess->handler = [&m, i](const Req& q) { return scripted(m.salt, i, 0, q, true); };
        sessions.push_back(sess);
        w.channel->add_session(modbus::UnitIdentifier{units[i]}, sess);
        m.units[units[i]] = i;
    }
    w.channel->start();
    w.exec->drain();
    struct Conn { std::shared_ptr<OutConn> c; Bytes stream; size_t pos = 0; bool dead = false; };
    std::vector<Conn> conns((size_t)s.range(2, 5));
    for(auto& k : conns)
    {
        pbt::Group g(s);
        k.c = w.connect();
        if(!k.c) c.fail("C08/start", "the server was not started");
        for(int n = (int)s.range(1, c.thorough ? 8 : 4); n--;) k.stream = cat(k.stream, gen_frame(c, units));
        if(s.chance(1, 4)) { k.stream = cat(k.stream, s.bytes((size_t)s.range(1, 40))); c.label("garbage"); }
        if(s.chance(1, 4)) { k.stream.resize(k.stream.size() - s.below(std::min<size_t>(k.stream.size(), 15))); c.label("partial frame"); }
        c.note("stream[%zu] %s", k.stream.size(), pbt::hex(k.stream, 100).c_str());
    }
    size_t switches = 0, last = 99;
    for(size_t steps = 0; steps < 400; ++steps)
    {
        pbt::Group g(s);
        std::vector<size_t> live;
        for(size_t i = 0; i < conns.size(); ++i) if(!conns[i].dead && conns[i].pos < conns[i].stream.size()) live.push_back(i);
        if(live.empty()) break;
        const size_t i = live[s.below(live.size())];
        auto& k = conns[i];
        if(i != last) ++switches;
        last = i;
        if(s.chance(1, 40))
        {
            c.note("connection %zu is lost after %zu bytes", i, k.pos);
            k.dead = true;
            auto conn = k.c;
            w.exec->post([conn]() { conn->listener->on_error("lost"); });
            c.label("lost");
            if(s.chance(1, 2)) w.exec->drain();
            continue;
        }
        const size_t n = std::min<size_t>((size_t)s.range(1, 40), k.stream.size() - k.pos);
        w.post_receive(k.c, Bytes(k.stream.begin() + k.pos, k.stream.begin() + k.pos + n));
        k.pos += n;
        c.note("connection %zu: %zu bytes", i, n);
        if(s.chance(1, 3)) w.exec->drain();
    }
    w.exec->drain();
    for(size_t i = 0; i < conns.size(); ++i)
    {
        auto& k = conns[i];
        Bytes want;
        m.ambiguous = false;
        for(auto& f : ref::deframe(Bytes(k.stream.begin(), k.stream.begin() + k.pos))) m.on_frame(f, want);
        if(m.ambiguous) { c.label("ambiguous"); continue; }
        if(k.c->out != want) c.fail("C08/replies", "connection %zu got %s, its own bytes call for %s", i, pbt::hex(k.c->out, 300).c_str(), pbt::hex(want, 300).c_str());
    }
    c.label("virtual");
    if(switches >= 4 && m.replies >= 3) c.nontrivial();
    w.channel->shutdown();
    w.exec->drain();
}
// Real sockets
void c08_sockets(Ctx& c)
{
    auto& s = c.src;
    auto salt = s.below(1u << 30);
    RefServer m;
    m.stateless = true;
    m.salt = salt;
    const std::vector<uint8_t> units{1, 2, 3};
    auto manager = modbus::IModbusManager::create(modbus::LoggerFactory::create_null_logger("t"), (unsigned)s.range(1, 4));
    const std::string ip = net::own_address();
    const uint16_t port = net::next_port();
    std::shared_ptr<modbus::IServerChannel> server;
    try { server = manager->create_server_tcp_channel("s", modbus::Ipv4Endpoint{ip, port}, 64); }
    catch(const std::exception& e) { c.inconclusive(std::string("cannot listen: ") + e.what()); }
    for(int i = 0; i < 2; ++i)
    {
        auto sess = std::make_shared<ScriptSession>();
        sess->handler = [salt, i](const Req& q) { return scripted(salt, i, 0, q, true); };
        server->add_session(modbus::UnitIdentifier{units[i]}, sess);
        m.units[units[i]] = i;
    }
    server->start();
    struct Conn { net::Sock k; Bytes stream; size_t pos = 0; Bytes got; bool dead = false; };
    std::vector<Conn> conns((size_t)s.range(2, 6));
    const int WAIT = 15000;
    for(auto& k : conns)
    {
        pbt::Group g(s);
        k.k = net::connect_to(ip, port);
        if(!k.k) c.fail_soft("C08/connect", "the server does not accept connections");
        for(int n = (int)s.range(1, c.thorough ? 12 : 6); n--;) k.stream = cat(k.stream, gen_frame(c, units));
        if(s.chance(1, 5)) { k.stream = cat(k.stream, s.bytes((size_t)s.range(1, 40))); c.label("garbage"); }
        if(s.chance(1, 4)) { k.stream.resize(k.stream.size() - s.below(std::min<size_t>(k.stream.size(), 15))); c.label("partial frame"); }
        c.note("stream[%zu] %s", k.stream.size(), pbt::hex(k.stream, 100).c_str());
    }
    for(size_t steps = 0; steps < 300; ++steps)
    {
        pbt::Group g(s);
        std::vector<size_t> live;
        for(size_t i = 0; i < conns.size(); ++i) if(!conns[i].dead && conns[i].pos < conns[i].stream.size()) live.push_back(i);
        if(live.empty()) break;
        const size_t i = live[s.below(live.size())];
        auto& k = conns[i];
        if(s.chance(1, 30))
        {
            c.note("connection %zu dies after %zu bytes", i, k.pos);
            k.dead = true;
            if(s.chance(1, 2)) k.k.reset(); else k.k.close();
            c.label("lost");
            continue;
        }
        const size_t n = std::min<size_t>((size_t)s.range(1, 60), k.stream.size() - k.pos);
        if(!net::send_all(k.k.fd, k.stream.data() + k.pos, n)) c.fail_soft("C08/closed", "connection %zu was closed by the server", i);
        k.pos += n;
        c.note("connection %zu: %zu bytes", i, n);
    }
    size_t checked = 0;
    for(size_t i = 0; i < conns.size(); ++i)
    {
        auto& k = conns[i];
        if(k.dead) continue;
        Bytes want;
        m.ambiguous = false;
        for(auto& f : ref::deframe(Bytes(k.stream.begin(), k.stream.begin() + k.pos))) m.on_frame(f, want);
        if(m.ambiguous) { c.label("ambiguous"); continue; }
        auto r = net::read_until(k.k.fd, k.got, want.size(), WAIT);
        if(k.got.size() < want.size() && std::equal(k.got.begin(), k.got.end(), want.begin()))
            c.fail_soft("C08/missing", "connection %zu got %zu of %zu bytes (%s)", i, k.got.size(), want.size(), r == net::Rd::Again ? "no more came" : "connection closed");
        // what else comes until the server notices the end of the stream
        ::shutdown(k.k.fd, SHUT_WR);
        net::read_until(k.k.fd, k.got, (size_t)-1, WAIT);
        if(k.got != want) c.fail("C08/socket-replies", "connection %zu got %s, its own bytes call for %s", i, pbt::hex(k.got, 300).c_str(), pbt::hex(want, 300).c_str());
        ++checked;
    }
    c.label("sockets");
    if(checked >= 2 && m.replies >= 3) c.nontrivial();
    manager->shutdown();
}

std::vector<std::string> base_assumptions()
{
    return {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)"};
}

pbt::Register r07([] {
    pbt::Property p;
    p.id = "C07";
    p.rule = "histories of add_session (before and after start, on free and used units, also from inside a session), frames of all kinds in random segments on several recorded connections, and shutdown, on a FIFO executor; calls of scripted sessions and bytes sent are compared with a reference server. Non-trivial = at least two replies called for.";
    p.run = [](Ctx& c) { if(c.index % 4000 == 0) large(c, "C07/large"); else c07(c); }; p.quick_cases = 250000; p.thorough_cases = 1500000; p.assumptions = base_assumptions();
    p.required_labels = {"session replaced", "frame: valid", "frame: malformed", "frame: unsupported", "frame: no payload", "shutdown", "thousands of frames", "more than 30 connections"};
    return p;
}());
pbt::Register r08([] {
    pbt::Property p;
    p.id = "C08";
    p.rule = "2-6 connections with independent random streams (valid, malformed, over-long, foreign, garbage, cut) delivered in random interleavings of small chunks, some connections lost on the way; every connection's replies compared with the reference server run on its own bytes alone. Most cases use recorded connections on a virtual executor, one in twelve real sockets. Non-trivial = interleaved and at least three replies called for.";
    p.run = [](Ctx& c) { if(c.index % 2500 == 0) large(c, "C08/large"); else if(c.src.below(12) == 11) c08_sockets(c); else c08_virtual(c); };
    p.quick_cases = 100000; p.thorough_cases = 1500000; p.assumptions = base_assumptions();
    p.required_labels = {"virtual", "sockets", "lost", "garbage", "partial frame", "thousands of frames"};
    return p;
}());

} // namespace
