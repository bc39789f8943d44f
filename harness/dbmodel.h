// A reference model of the in-memory database, and access to the real one by table number
#pragma once
#include "glue.h"
#include "modbus/server/IServerSession.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include <map>

namespace dbmodel {

using glue::Outcome;
using ref::Req;

using Map = std::map<int, int>;
inline bool has_range(const Map& m, int start, size_t n)
{
    for(size_t i = 0; i < n; ++i) if(!m.count(start + (int)i)) return false;   // 65536 and above never exist
    return true;
}
struct Model
{
    Map t[4];    // coils, discrete inputs, holding, input registers
    static int table(int fc) { return fc == 1 || fc == 5 || fc == 0x0F ? 0 : fc == 2 ? 1 : fc == 4 ? 3 : 2; }
    Outcome request(const Req& q)
    {
        Outcome o;
        auto& m = t[table(q.fc)];
        if(!has_range(m, q.addr, q.count())) { o.kind = Outcome::Modbus; o.code = 2; return o; }
        o.kind = Outcome::Value;
        o.resp.fc = q.fc;
        switch(q.fc)
        {
        case 5: m[q.addr] = q.coil; o.resp.points.push_back({q.addr, (uint16_t)q.coil}); break;
        case 6: m[q.addr] = q.reg; o.resp.points.push_back({q.addr, q.reg}); break;
        case 0x0F: for(size_t i = 0; i < q.bits.size(); ++i) m[q.addr + (int)i] = q.bits[i]; o.resp.addr = q.addr; o.resp.qty = (uint16_t)q.bits.size(); break;
        case 0x10: for(size_t i = 0; i < q.regs.size(); ++i) m[q.addr + (int)i] = q.regs[i]; o.resp.addr = q.addr; o.resp.qty = (uint16_t)q.regs.size(); break;
        default: for(int i = 0; i < q.qty; ++i) o.resp.points.push_back({(uint16_t)(q.addr + i), (uint16_t)m[q.addr + i]});
        }
        return o;
    }
};
inline Outcome call(modbus::IServerSession& db, const Req& q)
{
    return glue::with_fc(q.fc, [&](auto fc) {
        constexpr int FC = decltype(fc)::value;
        return glue::outcome_of<FC>(db.on_request(glue::T<FC>::make(q)));
    });
}
static const char* const TN[] = {"coil", "discrete input", "holding register", "input register"};

inline bool db_get(modbus::IDatabase& d, int table, uint16_t a, int& v)
{
    bool b = v != 0; uint16_t r = (uint16_t)v; bool ok;
    switch(table)
    {
    case 0: ok = d.get_coil(a, b); break;
    case 1: ok = d.get_discrete_input(a, b); break;
    case 2: ok = d.get_holding_register(a, r); break;
    default: ok = d.get_input_register(a, r);
    }
    v = table < 2 ? (int)b : (int)r;
    return ok;
}
inline bool db_set(modbus::IDatabase& d, int table, uint16_t a, int v)
{
    switch(table)
    {
    case 0: return d.set_coil(a, v != 0);
    case 1: return d.set_discrete_input(a, v != 0);
    case 2: return d.set_holding_register(a, (uint16_t)v);
    default: return d.set_input_register(a, (uint16_t)v);
    }
}
inline bool db_add(modbus::InMemoryDatabase& d, int table, uint16_t a, int v)
{
    switch(table)
    {
    case 0: return d.add_coil(a, v != 0);
    case 1: return d.add_discrete_input(a, v != 0);
    case 2: return d.add_holding_register(a, (uint16_t)v);
    default: return d.add_input_register(a, (uint16_t)v);
    }
}
inline int gen_value(pbt::Src& s, int table) { return table < 2 ? (int)s.below(2) : (int)s.u16_i(); }

} // namespace dbmodel
