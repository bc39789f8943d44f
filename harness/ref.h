// Independent reference model of the Modbus PDUs and the MBAP framing, written from the MODBUS
// Application Protocol V1.1b3 and Messaging on TCP/IP V1.0b specifications. Uses nothing of modbus-cpp.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "pbt.h"

namespace ref {

using Bytes = std::vector<uint8_t>;

constexpr int FCS[8] = {0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x0F, 0x10};
inline bool is_read_bits(int fc) { return fc == 1 || fc == 2; }
inline bool is_read_regs(int fc) { return fc == 3 || fc == 4; }
inline bool supported(int fc) { for(int f : FCS) if(f == fc) return true; return false; }
inline unsigned max_qty(int fc)
{
    switch(fc) { case 1: case 2: return 2000; case 3: case 4: return 125; case 0x0F: return 1968; case 0x10: return 123; default: return 1; }
}

struct Req
{
    int fc = 1;
    uint16_t addr = 0;
    uint16_t qty = 0;              // reads
    bool coil = false;             // 05
    uint16_t reg = 0;              // 06
    std::vector<bool> bits;        // 0F
    std::vector<uint16_t> regs;    // 10
    bool operator==(const Req& o) const { return fc == o.fc && addr == o.addr && qty == o.qty && coil == o.coil && reg == o.reg && bits == o.bits && regs == o.regs; }
    bool valid() const
    {
        if(is_read_bits(fc) || is_read_regs(fc)) return qty >= 1 && qty <= max_qty(fc);
        if(fc == 0x0F) return bits.size() >= 1 && bits.size() <= 1968;
        if(fc == 0x10) return regs.size() >= 1 && regs.size() <= 123;
        return true;
    }
    unsigned count() const { return fc == 0x0F ? (unsigned)bits.size() : fc == 0x10 ? (unsigned)regs.size() : fc == 5 || fc == 6 ? 1 : qty; }
    std::string str() const
    {
        std::string s = pbt::fmt("fc=%02x addr=%u", fc, addr);
        if(fc <= 4) s += pbt::fmt(" qty=%u", qty);
        if(fc == 5) s += pbt::fmt(" coil=%d", coil);
        if(fc == 6) s += pbt::fmt(" reg=%u", reg);
        if(fc == 0x0F) { s += pbt::fmt(" bits[%zu]=", bits.size()); for(size_t i = 0; i < bits.size() && i < 24; ++i) s += bits[i] ? '1' : '0'; }
        if(fc == 0x10) { s += pbt::fmt(" regs[%zu]=", regs.size()); for(size_t i = 0; i < regs.size() && i < 6; ++i) s += pbt::fmt("%u,", regs[i]); }
        return s;
    }
};

struct Point { uint16_t addr; uint16_t value; bool operator==(const Point& o) const { return addr == o.addr && value == o.value; } };

// Normal response. Reads: points with their addresses. Writes: the echoed address and value/quantity.
struct Resp
{
    int fc = 1;
    std::vector<Point> points;     // 01..04, and the one echoed by 05/06 (05: value 0/1)
    uint16_t addr = 0, qty = 0;    // 0F, 10
    bool operator==(const Resp& o) const { return fc == o.fc && points == o.points && addr == o.addr && qty == o.qty; }
    std::string str() const
    {
        std::string s = pbt::fmt("fc=%02x", fc);
        if(fc >= 0x0F) s += pbt::fmt(" addr=%u qty=%u", addr, qty);
        else { s += pbt::fmt(" points[%zu]=", points.size()); for(size_t i = 0; i < points.size() && i < 12; ++i) s += pbt::fmt("%u:%u ", points[i].addr, points[i].value); }
        return s;
    }
};

inline void p16(Bytes& b, unsigned v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
inline uint16_t g16(const Bytes& b, size_t i) { return (uint16_t)((b[i] << 8) | b[i + 1]); }
inline Bytes pack(const std::vector<bool>& bits)
{
    Bytes r((bits.size() + 7) / 8, 0);
    for(size_t i = 0; i < bits.size(); ++i) if(bits[i]) r[i / 8] = (uint8_t)(r[i / 8] + (1 << (i % 8)));
    return r;
}

inline Bytes encode(const Req& r)
{
    Bytes b{(uint8_t)r.fc};
    p16(b, r.addr);
    switch(r.fc)
    {
    case 5: p16(b, r.coil ? 0xFF00 : 0x0000); break;
    case 6: p16(b, r.reg); break;
    case 0x0F: { auto d = pack(r.bits); p16(b, (unsigned)r.bits.size()); b.push_back((uint8_t)d.size()); b.insert(b.end(), d.begin(), d.end()); break; }
    case 0x10: p16(b, (unsigned)r.regs.size()); b.push_back((uint8_t)(2 * r.regs.size())); for(auto v : r.regs) p16(b, v); break;
    default: p16(b, r.qty);
    }
    return b;
}

enum class DReq { Ok, IllegalValue, Malformed, Either /* illegal value or malformed, at the server's choice */ };

// Decodes a request PDU whose first byte is a supported function code `fc`
inline DReq decode_request(int fc, const Bytes& b, Req& out)
{
    out = Req();
    out.fc = fc;
    if(b.empty() || b[0] != fc) return DReq::Malformed;
    if(fc <= 6)
    {
        if(b.size() != 5) return DReq::Malformed;
        out.addr = g16(b, 1);
        const uint16_t v = g16(b, 3);
        if(fc == 5) { if(v != 0xFF00 && v != 0) return DReq::IllegalValue; out.coil = v == 0xFF00; }
        else if(fc == 6) out.reg = v;
        else { if(v < 1 || v > max_qty(fc)) return DReq::IllegalValue; out.qty = v; }
        return DReq::Ok;
    }
    if(b.size() < 6) return DReq::Malformed;
    out.addr = g16(b, 1);
    const unsigned qty = g16(b, 3), bc = b[5];
    const unsigned expected = fc == 0x0F ? (qty + 7) / 8 : 2 * qty;
    const bool complete = b.size() == 6u + bc;
    if(qty < 1 || qty > max_qty(fc) || bc != expected) return complete ? DReq::IllegalValue : DReq::Either;
    if(!complete) return DReq::Malformed;
    for(unsigned i = 0; i < qty; ++i)
    {
        if(fc == 0x0F) out.bits.push_back((b[6 + i / 8] >> (i % 8)) & 1);
        else out.regs.push_back(g16(b, 6 + 2 * i));
    }
    return DReq::Ok;
}

inline Bytes encode(const Resp& r)
{
    Bytes b{(uint8_t)r.fc};
    if(is_read_bits(r.fc))
    {
        std::vector<bool> v;
        for(auto& p : r.points) v.push_back(p.value != 0);
        auto d = pack(v);
        b.push_back((uint8_t)d.size());
        b.insert(b.end(), d.begin(), d.end());
    }
    else if(is_read_regs(r.fc))
    {
        b.push_back((uint8_t)(2 * r.points.size()));
        for(auto& p : r.points) p16(b, p.value);
    }
    else if(r.fc == 5) { p16(b, r.points[0].addr); p16(b, r.points[0].value ? 0xFF00 : 0); }
    else if(r.fc == 6) { p16(b, r.points[0].addr); p16(b, r.points[0].value); }
    else { p16(b, r.addr); p16(b, r.qty); }
    return b;
}
inline Bytes encode_exception(int fc, uint8_t code) { return Bytes{(uint8_t)(fc | 0x80), code}; }

enum class DResp { Ok, Exception, Malformed };

// Decodes a response PDU in the context of the request it answers
inline DResp decode_response(const Req& q, const Bytes& b, Resp& out, uint8_t& code)
{
    out = Resp();
    out.fc = q.fc;
    if(b.empty()) return DResp::Malformed;
    if(b[0] == (q.fc | 0x80))
    {
        if(b.size() != 2) return DResp::Malformed;
        code = b[1];
        return DResp::Exception;
    }
    if(b[0] != q.fc) return DResp::Malformed;
    if(q.fc <= 4)
    {
        const unsigned n = is_read_bits(q.fc) ? (q.qty + 7u) / 8 : 2u * q.qty;
        if(b.size() < 2 || b[1] != n || b.size() != 2 + n) return DResp::Malformed;
        for(unsigned i = 0; i < q.qty; ++i)
            out.points.push_back({(uint16_t)(q.addr + i), is_read_bits(q.fc) ? (uint16_t)((b[2 + i / 8] >> (i % 8)) & 1) : g16(b, 2 + 2 * i)});
        return DResp::Ok;
    }
    if(b.size() != 5) return DResp::Malformed;
    const uint16_t a = g16(b, 1), v = g16(b, 3);
    if(q.fc == 5) { if(v != 0xFF00 && v != 0) return DResp::Malformed; out.points.push_back({a, (uint16_t)(v == 0xFF00)}); }
    else if(q.fc == 6) out.points.push_back({a, v});
    else { out.addr = a; out.qty = v; }
    return DResp::Ok;
}

// The nine standard exception codes
constexpr int STD_CODES[9] = {1, 2, 3, 4, 5, 6, 8, 0x0A, 0x0B};

inline Bytes frame(uint16_t tid, uint8_t unit, const Bytes& pdu, uint16_t protocol = 0, int length_override = -1)
{
    Bytes b;
    p16(b, tid); p16(b, protocol); p16(b, length_override >= 0 ? (unsigned)length_override : (unsigned)(pdu.size() + 1));
    b.push_back(unit);
    b.insert(b.end(), pdu.begin(), pdu.end());
    return b;
}

struct Frame
{
    uint16_t tid; uint8_t unit; Bytes pdu;
    bool operator==(const Frame& o) const { return tid == o.tid && unit == o.unit && pdu == o.pdu; }
    std::string str() const { return pbt::fmt("tid=%04x unit=%02x pdu[%zu]=", tid, unit, pdu.size()) + pbt::hex(pdu, 40); }
};

// Parses a complete stream into frames; `rest` gets the unfinished tail
inline std::vector<Frame> deframe(const Bytes& s, Bytes* rest = nullptr)
{
    std::vector<Frame> out;
    size_t i = 0;
    while(s.size() - i >= 7)
    {
        const unsigned proto = g16(s, i + 2), len = g16(s, i + 4);
        if(len == 0) { i += 7; continue; }
        if(s.size() - i < 6u + len) break;
        if(proto == 0)
        {
            const unsigned n = len - 1 > 253 ? 253 : len - 1;
            out.push_back({g16(s, i), s[i + 6], Bytes(s.begin() + i + 7, s.begin() + i + 7 + n)});
        }
        i += 6 + len;
    }
    if(rest) *rest = Bytes(s.begin() + i, s.end());
    return out;
}

// -- generators ----------------------------------------------------------------------------------
inline uint16_t gen_count(pbt::Src& s, unsigned max)
{
    switch(s.weighted({4, 3, 2, 2}))
    {
    case 0: return (uint16_t)s.range(1, std::min(max, 20u));
    case 1: return (uint16_t)s.range(1, max);
    case 2: return (uint16_t)(max - s.below(std::min(max, 10u)));
    default: { unsigned k = 8 * (unsigned)s.range(1, std::max(1u, max / 8)); int d = (int)s.range(-1, 1); int v = (int)k + d; return (uint16_t)(v < 1 ? 1 : v > (int)max ? max : v); }
    }
}
inline Req gen_request(pbt::Src& s, int fc = 0)
{
    Req r;
    r.fc = fc ? fc : FCS[s.below(8)];
    r.addr = s.u16_i();
    switch(r.fc)
    {
    case 5: r.coil = s.chance(1, 2); break;
    case 6: r.reg = s.u16_i(); break;
    case 0x0F: { unsigned n = gen_count(s, 1968); unsigned style = (unsigned)s.below(4); r.bits.resize(n);
        if(style == 0) for(unsigned i = 0; i < n; ++i) r.bits[i] = false;
        else if(style == 1) for(unsigned i = 0; i < n; ++i) r.bits[i] = true;
        else if(style == 2) { unsigned m = (unsigned)s.range(2, 9), o = (unsigned)s.below(9); for(unsigned i = 0; i < n; ++i) r.bits[i] = (i + o) % m == 0; }
        else { uint64_t x = s.below(UINT64_MAX); for(unsigned i = 0; i < n; ++i) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; r.bits[i] = (x >> 40) & 1; } }
        break; }
    case 0x10: { unsigned n = gen_count(s, 123); r.regs.resize(n); for(auto& v : r.regs) v = s.u16_i(); break; }
    default: r.qty = gen_count(s, max_qty(r.fc));
    }
    return r;
}
// A response the server could give to `q`
inline Resp gen_response(pbt::Src& s, const Req& q)
{
    Resp r;
    r.fc = q.fc;
    if(q.fc <= 4)
    {
        const unsigned style = (unsigned)s.below(4);
        uint64_t x = s.below(UINT64_MAX);
        const unsigned m = 2 + (unsigned)(x % 9);
        for(unsigned i = 0; i < q.qty; ++i)
        {
            x = x * 6364136223846793005ULL + 1442695040888963407ULL;
            uint16_t v = (uint16_t)(x >> 40);
            if(style == 0) v = 0;
            else if(style == 1) v = 0xFFFF;
            else if(style == 2) v = (uint16_t)(i % m == 0 ? i + 1 : 0);
            if(is_read_bits(q.fc)) v = style == 3 ? (v & 1) : v != 0;
            r.points.push_back({(uint16_t)(q.addr + i), v});
        }
    }
    else if(q.fc == 5) r.points.push_back({q.addr, (uint16_t)q.coil});
    else if(q.fc == 6) r.points.push_back({q.addr, q.reg});
    else { r.addr = q.addr; r.qty = (uint16_t)q.count(); }
    return r;
}

} // namespace ref
