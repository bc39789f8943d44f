// C09, C10: the in-memory database against plain maps
#include "client_world.h"
#include "dbmodel.h"
#include "server_world.h"
#include "modbus/server/db/BitDatabase.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/server/db/RegisterDatabase.h"
#include <map>

using namespace glue;
using namespace dbmodel;
using pbt::Ctx;
using ref::Bytes;
using ref::Req;
using ref::Resp;

namespace {

// Addresses cluster around a few bases so that ranges hit, touch and miss blocks
uint16_t gen_addr(pbt::Src& s, const std::vector<int>& bases)
{
    if(s.chance(1, 20)) return s.u16_i();
    return (uint16_t)(s.pick(bases) + s.range(0, 12));
}
std::vector<int> gen_bases(pbt::Src& s)
{
    std::vector<int> b{0, 65524};
    b.push_back((int)s.u16());
    if(s.chance(1, 2)) b.push_back(32760);
    return b;
}

// ---------------------------------------------------------------------------------------- C09
void c09(Ctx& c)
{
    auto& s = c.src;
    auto db = std::make_shared<modbus::InMemoryDatabase>();
    Model m;
    const auto bases = gen_bases(s);
    const bool wire = s.chance(1, 3);
    ServerWorld w;
    std::shared_ptr<OutConn> conn;
    const uint8_t unit = s.byte_i();
    if(wire)
    {
        w.channel->add_session(modbus::UnitIdentifier{unit}, db);
        w.channel->start();
        w.exec->drain();
        conn = w.connect();
        c.label("through server channel");
    }
    // initial content: blocks with occasional holes, sometimes as large as a request can be
    for(int t = 0; t < 4; ++t)
    {
        pbt::Group g(s);
        if(s.chance(1, 20))
        {
            const int n = (int)s.range(1, t < 2 ? 2010 : 130), b = (int)s.below(65536 - (unsigned)n + 1), k = (int)s.below(7);
            for(int i = 0; i < n; ++i) { int v = t < 2 ? (i * 5 + k) % 3 == 0 : i * 257 + k; db_add(*db, t, (uint16_t)(b + i), v); m.t[t][b + i] = v; }
            c.note("%ss %d..%d", TN[t], b, b + n - 1);
            c.label("large block");
        }
        for(int n = (int)s.range(0, 4); n--;)
        {
            const int b = gen_addr(s, bases), len = (int)s.range(1, 10);
            for(int i = 0; i < len && b + i < 65536; ++i)
            {
                const int v = gen_value(s, t);
                const bool ok = db_add(*db, t, (uint16_t)(b + i), v), want = m.t[t].insert({b + i, v}).second;
                if(ok != want) c.fail("C09/add", "add %s %d returned %d", TN[t], b + i, ok);
            }
            c.note("%ss %d..%d", TN[t], b, std::min(b + len - 1, 65535));
        }
    }
    auto probe = [&](int t, uint16_t a) {
        Req q; q.fc = t == 0 ? 1 : t == 1 ? 2 : t == 2 ? 3 : 4; q.addr = a; q.qty = 1;
        const Outcome got = call(*db, q), want = m.request(q);
        if(!(got == want)) c.fail("C09/state", "%s %u: %s, expected %s", TN[t], a, got.str().c_str(), want.str().c_str());
    };
    size_t hits = 0, errors = 0;
    std::vector<std::pair<int, uint16_t>> touched;
    const bool endurance = c.index % 3000 == 3;
    const size_t n = (size_t)(endurance ? s.range(500, 3000) : s.range(1, c.thorough ? 40 : 16));
    if(endurance) c.label("long history");
    for(size_t i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        switch(s.weighted({8, 2, 2}))
        {
        case 0:
        {
            Req q = ref::gen_request(s);
            const int t = Model::table(q.fc);
            if(s.chance(7, 8))
            {
                q.addr = gen_addr(s, bases);
                const unsigned len = (unsigned)s.range(1, 14);
                if(q.fc <= 4) q.qty = (uint16_t)len;
                if(q.fc == 0x0F) q.bits.resize(len);
                if(q.fc == 0x10) q.regs.resize(len, 77);
            }
            else if(!m.t[t].empty() && s.chance(3, 4))
            {
                // a range as long as the block it starts in, plus or minus one
                auto it = m.t[t].lower_bound(q.addr);
                if(it == m.t[t].end()) it = m.t[t].begin();
                q.addr = (uint16_t)it->first;
                unsigned len = 0;
                while(m.t[t].count(q.addr + (int)len) && len < ref::max_qty(q.fc)) ++len;
                len = (unsigned)std::max<int64_t>(1, std::min<int64_t>(ref::max_qty(q.fc), (int64_t)len + s.range(-1, 1)));
                if(q.fc <= 4) q.qty = (uint16_t)len;
                if(q.fc == 0x0F) q.bits.resize(len, true);
                if(q.fc == 0x10) q.regs.resize(len, 0xABCD);
            }
            c.note("request %s", q.str().c_str());
            if(!q.valid()) continue;
            const Outcome want = m.request(q);
            Outcome got;
            if(wire)
            {
                const uint16_t tid = s.u16();
                conn->out.clear();
                w.post_receive(conn, ref::frame(tid, unit, ref::encode(q)));
                w.exec->drain();
                auto f = ref::deframe(conn->out);
                if(f.size() != 1 || f[0].tid != tid || f[0].unit != unit) c.fail("C09/reply", "%zu replies to %s", f.size(), q.str().c_str());
                got = expected_outcome(q, f[0].pdu);
            }
            else got = call(*db, q);
            if(!(got == want)) c.fail("C09/request", "%s: %s, expected %s", q.str().c_str(), got.str().c_str(), want.str().c_str());
            (want.kind == Outcome::Value ? hits : errors)++;
            if(q.addr + q.count() > 65536) c.label("range past 65535");
            for(int k : {-1, 0, (int)q.count() - 1, (int)q.count()}) touched.push_back({t, (uint16_t)(q.addr + k)});
            break;
        }
        case 1:
        {
            const int t = (int)s.below(4), v = gen_value(s, t);
            const uint16_t a = gen_addr(s, bases);
            c.note("add %s %u = %d", TN[t], a, v);
            const bool got = db_add(*db, t, a, v), want = m.t[t].insert({a, v}).second;
            if(got != want) c.fail("C09/add", "add %s %u returned %d, expected %d", TN[t], a, got, want);
            touched.push_back({t, a});
            break;
        }
        default:
        {
            c.note("transaction");
            c.label("transaction");
            bool ran = false;
            struct Op { bool set; int t; uint16_t a; int v; };
            std::vector<Op> ops;
            for(int k = (int)s.range(1, 6); k--;)
            {
                pbt::Group gg(s);
                Op o; o.set = s.chance(1, 2); o.t = (int)s.below(4); o.a = gen_addr(s, bases); o.v = gen_value(s, o.t);
                ops.push_back(o);
            }
            db->execute_transaction([&](modbus::IDatabase& d) {
                ran = true;
                for(auto& o : ops)
                {
                    auto it = m.t[o.t].find(o.a);
                    const bool want = it != m.t[o.t].end();
                    if(o.set)
                    {
                        const bool got = db_set(d, o.t, o.a, o.v);
                        if(got != want) c.fail("C09/set", "set %s %u returned %d, expected %d", TN[o.t], o.a, got, want);
                        if(want) it->second = o.v;
                    }
                    else
                    {
                        int v = o.v;
                        const bool got = db_get(d, o.t, o.a, v);
                        if(got != want || (want && v != it->second)) c.fail("C09/get", "get %s %u: %d value %d, expected %d value %d", TN[o.t], o.a, got, v, want, want ? it->second : -1);
                    }
                    touched.push_back({o.t, o.a});
                }
            });
            if(!ran) c.fail("C09/transaction", "the transaction was not executed");
        }
        }
        // a point at the end of the last change
        if(!touched.empty()) probe(touched.back().first, touched.back().second);
    }
    // complete content
    db->execute_transaction([&](modbus::IDatabase& d) {
        for(auto& x : touched) for(int t = 0; t < 4; ++t)
        {
            int v = 0;
            auto it = m.t[t].find(x.second);
            const bool want = it != m.t[t].end();
            if(db_get(d, t, x.second, v) != want || (want && v != it->second)) c.fail("C09/content", "%s %u holds %d, expected %s", TN[t], x.second, v, want ? std::to_string(it->second).c_str() : "nothing");
        }
        for(int t = 0; t < 4; ++t) for(auto& kv : m.t[t])
        {
            int v = kv.second ^ 1;
            if(!db_get(d, t, (uint16_t)kv.first, v) || v != kv.second) c.fail("C09/content", "%s %d holds %d, expected %d", TN[t], kv.first, v, kv.second);
            v = 0;
            if(kv.first < 65535 && !m.t[t].count(kv.first + 1) && db_get(d, t, (uint16_t)(kv.first + 1), v)) c.fail("C09/content", "%s %d came into being", TN[t], kv.first + 1);
        }
    });
    if(hits >= 2) c.label("several successful requests");
    if(errors) c.label("illegal data address");
    if(hits && errors) c.nontrivial();
}

// ---------------------------------------------------------------------------------------- C10
template <class DB, class V> void c10_run(Ctx& c, bool bits)
{
    auto& s = c.src;
    DB db;
    Map m;
    const auto bases = gen_bases(s);
    auto val = [&]() { return bits ? (int)s.below(2) : (int)s.u16_i(); };
    const bool endurance = c.index % 3000 == 11;
    const size_t n = (size_t)(endurance ? s.range(1000, 8000) : s.range(1, c.thorough ? 120 : 50));
    if(endurance) c.label("long history");
    size_t ok_ranges = 0, bad_ranges = 0;
    if(s.chance(1, 8))
    {
        const int len = (int)s.range(1, s.chance(1, 20) ? 40000 : 2100), b = (int)s.below(65536u - (unsigned)len + 1);
        for(int i = 0; i < len; ++i) { int v = bits ? i % 3 == 0 : i * 7; if(!db.add_value((uint16_t)(b + i), (V)v)) c.fail("C10/add", "add refused"); m[b + i] = v; }
        c.note("block %d..%d", b, b + len - 1);
    }
    if(c.thorough ? s.chance(1, 400) : c.index % 2000 == 7)
    {
        // every address there is
        for(int i = 0; i < 65536; ++i) { db.add_value((uint16_t)i, (V)(bits ? i & 1 : i)); m.insert({i, bits ? i & 1 : i}); }
        c.label("full");
        c.note("all 65536 addresses");
    }
    auto range = [&](uint16_t& a, size_t& len) {
        a = gen_addr(s, bases);
        len = (size_t)s.range(1, 16);
        if(s.chance(1, 10)) len = (size_t)s.range(1, 66000);
        if(!m.empty() && s.chance(1, 3))
        {
            auto it = m.lower_bound(a);
            if(it == m.end()) it = m.begin();
            a = (uint16_t)it->first;
            size_t k = 0;
            while(m.count(a + (int)k)) ++k;
            len = (size_t)std::max<int64_t>(1, (int64_t)k + s.range(-1, 1));
            // a length that looks right in its low bits
            if(s.chance(1, 30)) { len += s.chance(1, 2) ? 65536 : s.chance(1, 2) ? 256 : 32768; c.label("length with matching low bits"); }
        }
    };
    for(size_t i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        switch(s.weighted({5, 2, 2, 2, 2, 1, 2, 3}))
        {
        case 0: { uint16_t a = gen_addr(s, bases); int v = val(); c.note("add %u = %d", a, v);
            bool got = db.add_value(a, (V)v), want = m.insert({a, v}).second;
            if(got != want) c.fail("C10/add", "add_value(%u) returned %d, expected %d", a, got, want); break; }
        case 1: { uint16_t a = gen_addr(s, bases); int v = val(); c.note("set %u = %d", a, v);
            bool got = db.set_value(a, (V)v), want = m.count(a); if(want) m[a] = v;
            if(got != want) c.fail("C10/set", "set_value(%u) returned %d, expected %d", a, got, want); break; }
        case 2: { uint16_t a = gen_addr(s, bases); c.note("get %u", a); V out = (V)val(); const V before = out;
            bool got = db.get_value(a, out), want = m.count(a);
            if(got != want || (want && out != (V)m[a])) c.fail("C10/get", "get_value(%u) returned %d with %d, expected %d with %d", a, got, (int)out, want, want ? m[a] : 0);
            if(!want && out != before) c.fail("C10/get", "failed get_value(%u) changed the output", a); break; }
        case 3: { uint16_t a; size_t len; range(a, len); std::vector<V> v(len); for(size_t k = 0; k < len; ++k) v[k] = (V)(bits ? (k * 3 + i) % 2 : k * 31 + i);
            c.note("set %u +%zu", a, len);
            bool got = db.set_values(a, v), want = has_range(m, a, len);
            if(want) for(size_t k = 0; k < len; ++k) m[a + (int)k] = v[k];
            if(got != want) c.fail("C10/set-range", "set_values(%u, %zu values) returned %d, expected %d", a, len, got, want);
            (want ? ok_ranges : bad_ranges)++; break; }
        case 4: { uint16_t a; size_t len; range(a, len); c.note("get %u +%zu", a, len); std::vector<V> v(len), before; for(size_t k = 0; k < len; ++k) v[k] = (V)(k % 2); before = v;
            bool got = db.get_values(a, v), want = has_range(m, a, len);
            if(got != want) c.fail("C10/get-range", "get_values(%u, %zu values) returned %d, expected %d", a, len, got, want);
            if(v.size() != len) c.fail("C10/get-range", "get_values(%u, %zu values) resized the output", a, len);
            if(want) { for(size_t k = 0; k < len; ++k) if(v[k] != (V)m[a + (int)k]) c.fail("C10/get-range", "get_values(%u, %zu values): value %zu is %d, expected %d", a, len, k, (int)v[k], m[a + (int)k]); }
            else if(v != before) c.fail("C10/get-range", "failed get_values(%u, %zu values) changed the output", a, len);
            (want ? ok_ranges : bad_ranges)++; break; }
        case 5: { uint16_t a = gen_addr(s, bases); c.note("valid %u", a); bool got = db.is_valid(a), want = m.count(a);
            if(got != want) c.fail("C10/valid", "is_valid(%u) is %d, expected %d", a, got, want); break; }
        case 6: { uint16_t a; size_t len; range(a, len); c.note("valid %u +%zu", a, len); bool got = db.is_valid_range(a, len), want = has_range(m, a, len);
            if(got != want) c.fail("C10/valid-range", "is_valid_range(%u, %zu) is %d, expected %d", a, len, got, want);
            if((size_t)a + len > 65536) c.label("range past 65535");
            (want ? ok_ranges : bad_ranges)++; break; }
        default: { int a = gen_addr(s, bases), len = (int)s.range(1, 8); c.note("add %d +%d", a, len);
            for(int k = 0; k < len && a + k < 65536; ++k) { int v = val(); bool got = db.add_value((uint16_t)(a + k), (V)v), want = m.insert({a + k, v}).second; if(got != want) c.fail("C10/add", "add_value(%d) returned %d, expected %d", a + k, got, want); } }
        }
    }
    // final state, point by point
    for(auto& kv : m)
    {
        V out{};
        if(!db.get_value((uint16_t)kv.first, out) || out != (V)kv.second) c.fail("C10/state", "address %d holds %d, expected %d", kv.first, (int)out, kv.second);
        for(int d : {-1, 1}) if(kv.first + d >= 0 && kv.first + d < 65536 && db.is_valid((uint16_t)(kv.first + d)) != (m.count(kv.first + d) != 0)) c.fail("C10/state", "is_valid(%d) is wrong", kv.first + d);
    }
    if(ok_ranges && bad_ranges) c.nontrivial();
    c.label(bits ? "bits" : "registers");
}
void c10(Ctx& c)
{
    if(c.src.chance(1, 2)) c10_run<modbus::BitDatabase, bool>(c, true);
    else c10_run<modbus::RegisterDatabase, uint16_t>(c, false);
}

pbt::Register r09([] {
    pbt::Property p;
    p.id = "C09";
    p.rule = "random initial content (blocks with holes, up to a full-size request, at both ends of the address space) followed by random histories of requests, additions and transactions; every answer and, after every step and at the end, the content are compared with four std::maps. A third of the cases sends the requests as frames through a server channel. Non-trivial = at least one successful and one refused request.";
    p.run = c09; p.quick_cases = 100000; p.thorough_cases = 1500000;
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)"};
    p.required_labels = {"through server channel", "large block", "transaction", "illegal data address", "range past 65535", "several successful requests", "long history"};
    return p;
}());
pbt::Register r10([] {
    pbt::Property p;
    p.id = "C10";
    p.rule = "random histories of all operations on bit and register databases with addresses clustered around blocks, holes and both ends of the address space; every result and the final content compared with a std::map. Ranges have at least one address. Non-trivial = at least one range operation that succeeds and one that fails.";
    p.run = c10; p.quick_cases = 120000; p.thorough_cases = 2500000;
    p.required_labels = {"bits", "registers", "range past 65535", "full", "length with matching low bits", "long history"};
    return p;
}());

} // namespace
