// C01 .. C06: messages and framing
#include "impl_glue.h"
#include "client_world.h"
#include "server_world.h"
#include "modbus/exceptions/ModbusException.h"
#include <sstream>

using namespace glue;
using pbt::Ctx;
using ref::Bytes;
using ref::Req;
using ref::Resp;

namespace {

const auto TIMEOUT = std::chrono::seconds(5);

std::string reqs(const Req& r) { return r.str(); }

// The first cases enumerate every legal count of every counted function; later ones are random
Req request_for(Ctx& c)
{
    uint64_t i = c.index;
    for(int fc : {1, 2, 3, 4, 0x0F, 0x10})
    {
        const unsigned max = ref::max_qty(fc);
        if(i < max)
        {
            Req r = ref::gen_request(c.src, fc);
            const unsigned n = (unsigned)i + 1;
            if(fc <= 4) r.qty = (uint16_t)n;
            else if(fc == 0x0F) { r.bits.resize(n); for(auto&& b : r.bits) b = c.src.chance(1, 2); }
            else { r.regs.resize(n); for(auto& v : r.regs) v = c.src.u16_i(); }
            c.label("every count");
            return r;
        }
        i -= max;
    }
    return ref::gen_request(c.src);
}

Bytes build_adu(uint8_t unit, uint16_t tid, const modbus::IMessage& m, uint8_t fill, size_t* left = nullptr)
{
    std::unique_ptr<uint8_t[]> buf(new uint8_t[260]);
    memset(buf.get(), fill, 260);
    ser4cpp::wseq_t w(buf.get(), 260);
    auto r = modbus::MbapMessage::build_message(modbus::UnitIdentifier{unit}, modbus::TransactionIdentifier{tid}, m, w);
    if(left) *left = w.length();
    return to_bytes(r);
}

// ---------------------------------------------------------------------------------------- C01
void c01(Ctx& c)
{
    auto& s = c.src;
    const int mode = c.index < 7000 ? (int)s.below(2) : (int)s.below(3);
    if(mode < 2)
    {
        const Req r = request_for(c);
        const uint8_t unit = s.byte_i();
        const uint16_t tid = s.u16_i();
        c.note("direct unit=%02x tid=%04x %s", unit, tid, reqs(r).c_str());
        c.label(pbt::fmt("fc%02x", r.fc));
        c.nontrivial();
        const Bytes pdu = ref::encode(r), want = ref::frame(tid, unit, pdu);
        with_fc(r.fc, [&](auto fc) {
            constexpr int FC = decltype(fc)::value;
            typename I<FC>::Q impl{T<FC>::make(r)};
            std::unique_ptr<modbus::IMessage> copy;
            const modbus::IMessage* m = &impl;
            if(mode == 1) { copy = impl.clone(); m = copy.get(); }
            if(!m->is_valid()) c.fail("C01/valid", "a legal request is reported as invalid: %s", reqs(r).c_str());
            if(m->get_message_length() != pdu.size()) c.fail("C01/length", "message length %zu, expected %zu for %s", m->get_message_length(), pdu.size(), reqs(r).c_str());
            size_t left = 0;
            const Bytes got = build_adu(unit, tid, *m, s.byte(), &left);
            if(got != want) c.fail("C01/bytes", "frame %s, expected %s for %s", pbt::hex(got).c_str(), pbt::hex(want).c_str(), reqs(r).c_str());
            // parse back at a server
            Exact e(Bytes(got.begin() + 7, got.end()));
            auto back = I<FC>::Q::parse(e.seq());
            if(!back.is_valid()) c.fail("C01/roundtrip", "own frame is refused: %s", reqs(r).c_str());
            const Req q = T<FC>::from(back.get());
            if(!(q == r)) c.fail("C01/roundtrip", "sent %s, decoded %s", reqs(r).c_str(), reqs(q).c_str());
            if(!(T<FC>::from(impl.get_request()) == r)) c.fail("C01/request", "the stored request changed: %s", reqs(r).c_str());
        });
        return;
    }
    // through sessions and channel
    ClientWorld w;
    const size_t n = (size_t)s.range(1, 5);
    std::vector<std::shared_ptr<modbus::IClientSession>> sess;
    std::vector<uint8_t> units;
    const size_t ns = (size_t)s.range(1, 3);
    for(size_t i = 0; i < ns; ++i)
    {
        units.push_back(s.byte_i());
        sess.push_back(w.channel->create_session(modbus::UnitIdentifier{units.back()}, TIMEOUT));
    }
    std::vector<Req> rs;
    std::vector<uint8_t> us;
    for(size_t i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        size_t k = s.below(ns);
        rs.push_back(ref::gen_request(s));
        us.push_back(units[k]);
        c.note("session unit=%02x %s", units[k], reqs(rs.back()).c_str());
        modbus::duration_t t = std::chrono::seconds(3);
        issue(*sess[k], rs.back(), s.chance(1, 2) ? &t : nullptr, [](const Outcome&) {});
    }
    for(size_t i = 0; i < n; ++i)
    {
        w.exec->drain();
        if(w.conn->sent.size() != i + 1) c.fail("C01/session-count", "%zu frames on the wire after %zu answered requests", w.conn->sent.size(), i);
        const Bytes& got = w.conn->sent[i].bytes;
        const uint16_t tid = got.size() > 1 ? ref::g16(got, 0) : 0;
        const Bytes want = ref::frame(tid, us[i], ref::encode(rs[i]));
        if(got != want) c.fail("C01/session-bytes", "request %zu (%s): frame %s, expected %s", i, reqs(rs[i]).c_str(), pbt::hex(got).c_str(), pbt::hex(want).c_str());
        w.post_receive(ref::frame(tid, us[i], ref::encode_exception(rs[i].fc, 1)));
    }
    w.exec->drain();
    c.label("session");
    c.nontrivial();
}

// ---------------------------------------------------------------------------------------- C02
Bytes gen_request_pdu(Ctx& c, int fc)
{
    auto& s = c.src;
    Bytes b = ref::encode(ref::gen_request(s, fc));
    switch(s.weighted({3, 2, 2, 2, 2, 2, 1, 1}))
    {
    case 0: c.label("gen: valid"); break;
    case 1: c.label("gen: truncated"); b.resize(s.below(b.size())); break;
    case 2: { c.label("gen: extended"); size_t n = (size_t)s.range(1, 6); while(n-- && b.size() < 253) b.push_back(s.byte()); break; }
    case 3: { c.label("gen: quantity"); uint16_t q = s.u16_i(); if(s.chance(1, 2)) q = (uint16_t)(ref::max_qty(fc) + s.range(-1, 2)); b[3] = q >> 8; b[4] = (uint8_t)q; break; }
    case 4: { c.label("gen: byte flips"); size_t n = (size_t)s.range(1, 3); while(n--) b[s.below(b.size())] = s.byte_i(); break; }
    case 5: { c.label("gen: self-consistent wrong count");
        if(fc < 0x0F) { b[3] = s.byte(); b[4] = s.byte(); break; }
        // quantity and byte count chosen freely, length made to fit the byte count
        uint16_t q = s.chance(1, 2) ? s.u16_i() : (uint16_t)s.range(0, 2100); uint8_t bc = s.chance(1, 2) ? s.byte() : (uint8_t)(fc == 0x0F ? (q + 7) / 8 + s.range(-1, 1) : 2 * q + s.range(-2, 2));
        b.resize(6); b[3] = q >> 8; b[4] = (uint8_t)q; b[5] = bc;
        for(unsigned i = 0; i < bc && b.size() < 262; ++i) b.push_back(s.byte_i());
        break; }
    case 6: { c.label("gen: random bytes"); b = s.bytes((size_t)s.range(0, 20)); break; }
    default: { c.label("gen: random tail"); b = s.bytes((size_t)s.range(1, 253)); b[0] = (uint8_t)fc; }
    }
    return b;
}
void c02(Ctx& c)
{
    auto& s = c.src;
    const int fc = ref::FCS[s.below(8)];
    const Bytes b = gen_request_pdu(c, fc);
    c.note("fc=%02x pdu[%zu]=%s", fc, b.size(), pbt::hex(b).c_str());
    Req want;
    const auto cls = ref::decode_request(fc, b, want);
    static const char* names[] = {"ok", "illegal value", "malformed", "either"};
    c.label(pbt::fmt("fc%02x %s", fc, names[(int)cls]));
    c.nontrivial();
    auto judge = [&](const char* where, bool ok, const Req* got, const Outcome* err) {
        if(ok)
        {
            if(cls != ref::DReq::Ok) c.fail("C02/accepted", "%s: accepted as %s although the PDU is %s", where, got->str().c_str(), names[(int)cls]);
            if(!(*got == want)) c.fail("C02/decoded", "%s: decoded as %s, expected %s", where, got->str().c_str(), want.str().c_str());
            return;
        }
        if(cls == ref::DReq::Ok) c.fail("C02/refused", "%s: a well-formed request is refused with %s", where, err->str().c_str());
        const bool illegal = err->kind == Outcome::Modbus && err->code == 3, malformed = err->kind == Outcome::MalformedRequest;
        if(cls == ref::DReq::IllegalValue && !illegal) c.fail("C02/error", "%s: expected Illegal Data Value, got %s", where, err->str().c_str());
        if(cls == ref::DReq::Malformed && !malformed) c.fail("C02/error", "%s: expected a malformed request, got %s", where, err->str().c_str());
        if(cls == ref::DReq::Either && !illegal && !malformed) c.fail("C02/error", "%s: expected a refusal, got %s", where, err->str().c_str());
    };
    with_fc(fc, [&](auto f) {
        constexpr int FC = decltype(f)::value;
        Exact e(b);
        auto r = I<FC>::Q::parse(e.seq());
        if(r.is_valid()) { Req got = T<FC>::from(r.get()); judge("parse", true, &got, nullptr); }
        else { Outcome o = error_outcome(r); judge("parse", false, nullptr, &o); }
    });
    // the same PDU through a server
    if(b.empty() || b[0] != fc || b.size() > 253 || !s.chance(1, 2)) return;
    c.label("through server");
    ServerWorld w;
    auto sess = std::make_shared<ScriptSession>();
    std::vector<Req> seen;
    sess->handler = [&](const Req& q) { seen.push_back(q); Answer a; a.kind = Outcome::Modbus; a.code = 6; return a; };
    w.channel->add_session(modbus::UnitIdentifier{9}, sess);
    w.channel->start();
    w.exec->drain();
    auto conn = w.connect();
    w.post_receive(conn, ref::frame(0x1234, 9, b));
    w.exec->drain();
    const Bytes busy = ref::frame(0x1234, 9, ref::encode_exception(fc, 6)), exc3 = ref::frame(0x1234, 9, ref::encode_exception(fc, 3));
    Outcome o;
    if(seen.size() > 1) c.fail("C02/server", "the session was asked %zu times for one frame", seen.size());
    if(!seen.empty())
    {
        judge("server", true, &seen[0], nullptr);
        if(conn->out != busy) c.fail("C02/server", "reply %s, expected %s", pbt::hex(conn->out).c_str(), pbt::hex(busy).c_str());
    }
    else
    {
        if(conn->out.empty()) o.kind = Outcome::MalformedRequest;
        else if(conn->out == exc3) { o.kind = Outcome::Modbus; o.code = 3; }
        else c.fail("C02/server", "unexpected reply %s", pbt::hex(conn->out).c_str());
        judge("server", false, nullptr, &o);
    }
}

// ---------------------------------------------------------------------------------------- C03
void c03(Ctx& c)
{
    auto& s = c.src;
    const Req q = request_for(c);
    const Resp r = ref::gen_response(s, q);
    const uint8_t unit = s.byte_i();
    const uint16_t tid = s.u16_i();
    c.note("unit=%02x tid=%04x %s -> %s", unit, tid, reqs(q).c_str(), r.str().c_str());
    c.label(pbt::fmt("fc%02x", q.fc));
    if(q.fc <= 4 && q.addr + q.qty > 65536) c.label("range past 65535");
    if(q.count() % 8) c.label("partial last byte");
    c.nontrivial();
    const Bytes pdu = ref::encode(r), want = ref::frame(tid, unit, pdu);
    with_fc(q.fc, [&](auto fc) {
        constexpr int FC = decltype(fc)::value;
        auto resp = T<FC>::make(r);
        typename I<FC>::R impl{resp};
        std::unique_ptr<modbus::IMessage> copy;
        const modbus::IMessage* m = &impl;
        if(s.chance(1, 2)) { copy = impl.clone(); m = copy.get(); }
        if(m->get_message_length() != pdu.size()) c.fail("C03/length", "message length %zu, expected %zu", m->get_message_length(), pdu.size());
        const Bytes got = build_adu(unit, tid, *m, s.byte());
        if(got != want) c.fail("C03/bytes", "frame %s, expected %s", pbt::hex(got).c_str(), pbt::hex(want).c_str());
        Exact e(pdu);
        typename I<FC>::Q req{T<FC>::make(q)};
        auto back = I<FC>::R::parse(req, e.seq());
        const Outcome o = outcome_of<FC>(back);
        if(o.kind != Outcome::Value || !(o.resp == r)) c.fail("C03/roundtrip", "client decodes %s, the server sent %s", o.str().c_str(), r.str().c_str());
    });
    if(!s.chance(1, 3)) return;
    // server channel -> client channel
    c.label("through channels");
    ServerWorld sw;
    auto sess = std::make_shared<ScriptSession>();
    sess->handler = [&](const Req&) { Answer a; a.resp = r; return a; };
    sw.channel->add_session(modbus::UnitIdentifier{unit}, sess);
    sw.channel->start();
    sw.exec->drain();
    auto conn = sw.connect();
    ClientWorld cw;
    auto session = cw.channel->create_session(modbus::UnitIdentifier{unit}, TIMEOUT);
    std::vector<Outcome> got;
    issue(*session, q, nullptr, [&](const Outcome& o) { got.push_back(o); });
    cw.exec->drain();
    if(cw.conn->sent.size() != 1) c.fail("C03/channel", "%zu frames sent", cw.conn->sent.size());
    sw.post_receive(conn, cw.conn->sent[0].bytes);
    sw.exec->drain();
    for(auto& chunk : split(s, conn->out, (int)s.below(4))) cw.post_receive(chunk);
    cw.exec->drain();
    if(got.size() != 1 || got[0].kind != Outcome::Value || !(got[0].resp == r))
        c.fail("C03/channel", "handler called %zu times, %s; the server session answered %s", got.size(), got.empty() ? "" : got[0].str().c_str(), r.str().c_str());
}

// ---------------------------------------------------------------------------------------- C04
Bytes gen_response_pdu(Ctx& c, const Req& q)
{
    auto& s = c.src;
    Bytes b = ref::encode(ref::gen_response(s, q));
    switch(s.weighted({3, 2, 2, 3, 2, 2, 1, 1, 2}))
    {
    case 0: c.label("gen: valid"); break;
    case 1: c.label("gen: truncated"); b.resize(s.below(b.size())); break;
    case 2: { c.label("gen: extended"); size_t n = (size_t)s.range(1, 4); while(n-- && b.size() < 253) b.push_back(s.byte()); break; }
    case 3: { c.label("gen: byte count"); b[1] = s.chance(1, 2) ? (uint8_t)(b[1] + s.range(-2, 2)) : s.byte(); if(s.chance(1, 2) && q.fc <= 4) b.resize(2 + b[1]); break; }
    case 4: { c.label("gen: byte flips"); size_t n = (size_t)s.range(1, 3); while(n--) b[s.below(b.size())] = s.byte_i(); break; }
    case 5: { c.label("gen: exception"); b = ref::encode_exception(q.fc, s.byte_i()); if(s.chance(1, 3)) { size_t n = (size_t)s.range(0, 4); b.resize(n); } break; }
    case 6: { c.label("gen: random bytes"); b = s.bytes((size_t)s.range(0, 20)); break; }
    case 7: { c.label("gen: random tail"); b = s.bytes((size_t)s.range(1, 253)); b[0] = (uint8_t)q.fc; break; }
    default: { c.label("gen: response to another request"); b = ref::encode(ref::gen_response(s, ref::gen_request(s, s.chance(1, 2) ? q.fc : 0))); }
    }
    return b;
}
void c04(Ctx& c)
{
    auto& s = c.src;
    const Req q = ref::gen_request(s);
    const Bytes b = gen_response_pdu(c, q);
    c.note("request %s, response pdu[%zu]=%s", reqs(q).c_str(), b.size(), pbt::hex(b).c_str());
    const Outcome want = expected_outcome(q, b);
    c.label(pbt::fmt("fc%02x %s", q.fc, want.kind == Outcome::Value ? "ok" : want.kind == Outcome::Modbus ? "exception" : "malformed"));
    c.nontrivial();
    auto judge = [&](const char* where, const Outcome& got) {
        if(!(got == want)) c.fail("C04/outcome", "%s: client reports %s, expected %s", where, got.str().c_str(), want.str().c_str());
    };
    with_fc(q.fc, [&](auto fc) {
        constexpr int FC = decltype(fc)::value;
        Exact e(b);
        typename I<FC>::Q req{T<FC>::make(q)};
        judge("parse", outcome_of<FC>(I<FC>::R::parse(req, e.seq())));
    });
    if(b.empty() || b.size() > 253 || !s.chance(1, 2)) return;
    c.label("through channel");
    ClientWorld w;
    const uint8_t unit = s.byte_i();
    auto session = w.channel->create_session(modbus::UnitIdentifier{unit}, TIMEOUT);
    std::vector<Outcome> got;
    issue(*session, q, nullptr, [&](const Outcome& o) { got.push_back(o); });
    w.exec->drain();
    if(w.conn->sent.size() != 1) c.fail("C04/channel", "%zu frames sent", w.conn->sent.size());
    for(auto& chunk : split(s, ref::frame(ref::g16(w.conn->sent[0].bytes, 0), unit, b), (int)s.below(4))) w.post_receive(chunk);
    w.exec->drain();
    if(got.size() != 1) c.fail("C04/channel", "the handler was called %zu times", got.size());
    judge("session", got[0]);
}

// ---------------------------------------------------------------------------------------- C05
void c05(Ctx& c)
{
    auto& s = c.src;
    // directed part: all raw codes x functions, then all exception types x functions, then unsupported functions
    const uint64_t N1 = 8 * 256, N2 = N1 + 8 * 9, N3 = N2 + 256;
    int fc, code;
    int what;
    if(c.index < N1) { what = 0; fc = ref::FCS[c.index / 256]; code = (int)(c.index % 256); }
    else if(c.index < N2) { what = 1; fc = ref::FCS[(c.index - N1) / 9]; code = ref::STD_CODES[(c.index - N1) % 9]; }
    else if(c.index < N3) { what = 2; fc = (int)(c.index - N2); code = 1; }
    else { what = (int)s.below(3); fc = what == 2 ? s.byte() : ref::FCS[s.below(8)]; code = what == 0 ? s.byte() : what == 1 ? ref::STD_CODES[s.below(9)] : 1; }
    Req q = ref::gen_request(s, what == 2 ? 1 : fc);
    const uint8_t unit = s.byte_i();
    c.note("%s fc=%02x code=%02x unit=%02x %s", what == 0 ? "raw code" : what == 1 ? "session raises" : "function", fc, code, unit, what == 2 ? "" : reqs(q).c_str());
    c.nontrivial();
    if(what == 2 && ref::supported(fc)) throw pbt::Discard{};
    if(what == 0)
    {
        c.label("raw code");
        const auto want = type_of(code);
        const auto got = modbus::parse_exception_type((uint8_t)code);
        if(got != want) c.fail("C05/parse", "raw code %02x parsed as exception %d", code, (int)got);
        ClientWorld w;
        auto session = w.channel->create_session(modbus::UnitIdentifier{unit}, TIMEOUT);
        std::vector<Outcome> out;
        issue(*session, q, nullptr, [&](const Outcome& o) { out.push_back(o); });
        w.exec->drain();
        w.post_receive(ref::frame(ref::g16(w.conn->sent.at(0).bytes, 0), unit, ref::encode_exception(fc, (uint8_t)code)));
        w.exec->drain();
        if(out.size() != 1 || out[0].kind != Outcome::Modbus || out[0].code != code_of(want))
            c.fail("C05/client", "code %02x for function %02x: client handler got %s", code, fc, out.empty() ? "nothing" : out[0].str().c_str());
        return;
    }
    ServerWorld sw;
    auto sess = std::make_shared<ScriptSession>();
    int calls = 0;
    sess->handler = [&](const Req&) { ++calls; Answer a; a.kind = Outcome::Modbus; a.code = code; return a; };
    sw.channel->add_session(modbus::UnitIdentifier{unit}, sess);
    sw.channel->start();
    sw.exec->drain();
    auto conn = sw.connect();
    Bytes pdu = what == 1 ? ref::encode(q) : s.bytes((size_t)s.range(1, 12));
    if(what == 2) pdu[0] = (uint8_t)fc;
    const uint16_t tid = s.u16_i();
    sw.post_receive(conn, ref::frame(tid, unit, pdu));
    sw.exec->drain();
    const Bytes want = ref::frame(tid, unit, ref::encode_exception(fc, (uint8_t)code));
    if(conn->out != want) c.fail("C05/server", "function %02x, exception %02x: the server sent %s, expected %s", fc, code, pbt::hex(conn->out).c_str(), pbt::hex(want).c_str());
    if(what == 2) { c.label("unsupported function"); if(calls) c.fail("C05/server", "a session was called for function %02x", fc); return; }
    c.label("raised by session");
    // message classes on their own
    modbus::ExceptionResponse er{(uint8_t)fc, type_of(code)};
    const Bytes adu = build_adu(unit, tid, er, s.byte());
    if(adu != want || er.get_message_length() != 2 || !er.is_valid()) c.fail("C05/response", "exception response %s, expected %s", pbt::hex(adu).c_str(), pbt::hex(want).c_str());
    const Bytes adu2 = build_adu(unit, tid, *er.clone(), s.byte());
    if(adu2 != want) c.fail("C05/response", "cloned exception response %s, expected %s", pbt::hex(adu2).c_str(), pbt::hex(want).c_str());
    modbus::ModbusException me{type_of(code)};
    if(me.get_exception_type() != type_of(code)) c.fail("C05/exception", "exception object changed its type");
    // names are distinct and stable
    static const char* names[] = {"Illegal function", "Illegal data address", "Illegal data value", "Server device failure", "Acknowledge", "Server device busy", "Memory parity error", "Gateway path unavailable", "Gateway target device failed to respond"};
    for(int i = 0; i < 9; ++i)
    {
        std::ostringstream os;
        os << type_of(ref::STD_CODES[i]);
        if(os.str() != names[i]) c.fail("C05/name", "exception %02x is named '%s'", ref::STD_CODES[i], os.str().c_str());
        if(ref::STD_CODES[i] == code && modbus::ModbusException::get_message(me.get_exception_type()) != names[i]) c.fail("C05/name", "message of exception %02x", code);
    }
    // and over to the client
    ClientWorld w;
    auto session = w.channel->create_session(modbus::UnitIdentifier{unit}, TIMEOUT);
    std::vector<Outcome> out;
    issue(*session, q, nullptr, [&](const Outcome& o) { out.push_back(o); });
    w.exec->drain();
    Bytes reply = conn->out;
    reply[0] = w.conn->sent.at(0).bytes[0]; reply[1] = w.conn->sent.at(0).bytes[1];
    w.post_receive(reply);
    w.exec->drain();
    if(out.size() != 1 || out[0].kind != Outcome::Modbus || out[0].code != code)
        c.fail("C05/end-to-end", "the session raised %02x, the client handler got %s", code, out.empty() ? "nothing" : out[0].str().c_str());
}

// ---------------------------------------------------------------------------------------- C06
struct Sink : modbus::IMbapSink
{
    std::vector<ref::Frame> got;
    void on_mbap_message(const modbus::MbapMessage& m) override
    {
        got.push_back({m.transaction_id.get_value(), m.unit_id.get_value(), to_bytes(m.data)});
    }
};
Bytes gen_stream(Ctx& c, size_t max_frames)
{
    auto& s = c.src;
    Bytes out;
    const size_t n = (size_t)s.range(1, (int64_t)max_frames);
    for(size_t i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        switch(s.weighted({5, 2, 2, 2, 2, 1, 1}))
        {
        case 0: { c.label("frame: valid"); auto f = ref::frame(s.u16_i(), s.byte_i(), ref::encode(ref::gen_request(s))); out.insert(out.end(), f.begin(), f.end()); break; }
        case 1: { c.label("frame: any size"); auto f = ref::frame(s.u16_i(), s.byte_i(), s.bytes((size_t)s.range(0, 253))); out.insert(out.end(), f.begin(), f.end()); break; }
        case 2: { c.label("frame: foreign protocol"); auto f = ref::frame(s.u16_i(), s.byte_i(), s.bytes((size_t)s.range(0, 30)), (uint16_t)(1 + s.below(65535))); out.insert(out.end(), f.begin(), f.end()); break; }
        case 3: { c.label("frame: zero length"); auto f = ref::frame(s.u16_i(), s.byte_i(), {}, s.chance(1, 2) ? 0 : s.u16_i(), 0); out.insert(out.end(), f.begin(), f.end()); break; }
        case 4: { c.label("frame: over-long"); Bytes body = s.bytes(20); size_t len = s.chance(1, 2) ? (size_t)s.range(254, 300) : (size_t)s.range(254, s.chance(1, 8) ? 65534 : 1500);
            uint8_t k = s.byte(); while(body.size() < len) body.push_back((uint8_t)(k + body.size() * 7)); auto f = ref::frame(s.u16_i(), s.byte_i(), body); out.insert(out.end(), f.begin(), f.end()); break; }
        case 5: { c.label("frame: one-byte length"); auto f = ref::frame(s.u16_i(), s.byte_i(), {}); out.insert(out.end(), f.begin(), f.end()); break; }
        default: { c.label("frame: maximum"); auto f = ref::frame(s.u16_i(), s.byte_i(), s.bytes((size_t)s.range(252, 254))); out.insert(out.end(), f.begin(), f.end()); break; }
        }
    }
    if(s.chance(1, 6)) { auto f = s.bytes((size_t)s.range(1, 60)); out.insert(out.end(), f.begin(), f.end()); c.label("random tail"); }
    if(s.chance(1, 4) && !out.empty()) { out.resize(out.size() - s.below(std::min<size_t>(out.size(), 12))); c.label("cut tail"); }
    return out;
}
std::string frames_str(const std::vector<ref::Frame>& f)
{
    std::string r;
    for(auto& x : f) r += "[" + x.str() + "] ";
    return r.substr(0, 1500);
}
void c06(Ctx& c)
{
    auto& s = c.src;
    Sink sink;
    modbus::MbapParser parser(&sink);
    const size_t parts = s.chance(1, 4) ? (size_t)s.range(2, 4) : 1;  // separated by resets
    for(size_t k = 0; k < parts; ++k)
    {
        pbt::Group g(s);
        const Bytes stream = gen_stream(c, c.thorough ? 12 : 6);
        const int style = (int)s.below(4);
        auto chunks = split(s, stream, style);
        c.note("stream[%zu] in %zu chunks: %s", stream.size(), chunks.size(), pbt::hex(stream, 400).c_str());
        c.label(pbt::fmt("split style %d", style));
        sink.got.clear();
        const auto want = ref::deframe(stream);
        // a message is due with its last byte: after every chunk, exactly the complete frames were delivered
        const bool every = chunks.size() < 400;
        Bytes so_far;
        for(auto& ch : chunks)
        {
            Exact e(ch);
            parser.parse(e.seq());
            if(!every) continue;
            so_far.insert(so_far.end(), ch.begin(), ch.end());
            const auto due = ref::deframe(so_far);
            if(!(sink.got == due)) c.fail("C06/messages", "after %zu bytes delivered %s, expected %s", so_far.size(), frames_str(sink.got).c_str(), frames_str(due).c_str());
        }
        if(!(sink.got == want)) c.fail("C06/messages", "delivered %s, expected %s", frames_str(sink.got).c_str(), frames_str(want).c_str());
        if(!want.empty() && chunks.size() > 1) c.nontrivial();
        if(k + 1 < parts || s.chance(1, 4)) { parser.reset(); c.label("reset"); c.note("reset"); }
        else return;
    }
    // after the last reset the parser is at a frame boundary
    auto f = ref::frame(0x0102, 3, {4, 5, 6});
    sink.got.clear();
    Exact e(f);
    parser.parse(e.seq());
    if(sink.got.size() != 1 || sink.got[0].pdu != Bytes({4, 5, 6}) || sink.got[0].tid != 0x0102) c.fail("C06/reset", "after a reset a frame is delivered as %s", frames_str(sink.got).c_str());
}
// Through the channels: the same stream in different segmentations has the same effect at server and client
void c06_channel(Ctx& c)
{
    auto& s = c.src;
    Bytes stream;
    const size_t n = (size_t)s.range(1, 5);
    std::vector<ref::Frame> want;
    for(size_t i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        uint16_t tid = s.u16();
        auto f = ref::frame(tid, 1, ref::encode(ref::gen_request(s)));
        const int kind = (int)s.weighted({4, 1, 1});
        if(kind == 1) f[2] = 1;                                // foreign protocol
        if(kind == 2) { f = ref::frame(tid, 1, {}, 0, 0); }    // zero length
        if(kind == 0) want.push_back({tid, 1, Bytes{(uint8_t)(f[7] | 0x80), 4}});
        stream.insert(stream.end(), f.begin(), f.end());
    }
    ServerWorld w;
    auto sess = std::make_shared<ScriptSession>();
    sess->handler = [&](const Req&) { Answer a; a.kind = Outcome::Modbus; a.code = 4; return a; };
    w.channel->add_session(modbus::UnitIdentifier{1}, sess);
    w.channel->start();
    w.exec->drain();
    auto conn = w.connect();
    auto chunks = split(s, stream, (int)s.below(4));
    c.note("server stream[%zu] in %zu chunks %s", stream.size(), chunks.size(), pbt::hex(stream, 300).c_str());
    for(auto& ch : chunks) { w.post_receive(conn, ch); if(s.chance(1, 3)) w.exec->drain(); }
    w.exec->drain();
    auto got = ref::deframe(conn->out);
    c.label("through server");
    if(chunks.size() > 1) c.nontrivial();
    if(!(got == want)) c.fail("C06/server", "server replies %s, expected %s", frames_str(got).c_str(), frames_str(want).c_str());
}

std::vector<std::string> base_assumptions()
{
    return {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
            "reference encoder/decoder written from the Modbus specifications"};
}

pbt::Register r01([] {
    pbt::Property p;
    p.id = "C01";
    p.rule = "random valid requests of all eight functions (addresses and counts biased to boundaries and multiples of eight), random unit and transaction ids; each is encoded directly, through clone(), or through client sessions and compared byte for byte with the reference encoder, then parsed back. Every case is a distinct request; non-trivial = it reached a byte comparison.";
    p.run = c01; p.quick_cases = 500000; p.thorough_cases = 6000000; p.assumptions = base_assumptions();
    for(int fc : ref::FCS) p.required_labels.push_back(pbt::fmt("fc%02x", fc));
    p.required_labels.push_back("session");
    return p;
}());
pbt::Register r02([] {
    pbt::Property p;
    p.id = "C02";
    p.rule = "PDUs obtained from valid requests by truncation, extension, changed counts, self-consistent wrong counts, byte changes, plus random bytes; parsed directly from exactly sized heap memory and through a server channel, compared with the reference decoder. Non-trivial = classified by the reference and compared.";
    p.run = c02; p.quick_cases = 900000; p.thorough_cases = 12000000; p.assumptions = base_assumptions();
    p.assumptions.push_back("where a PDU has both an illegal quantity/byte count and a wrong length, Illegal Data Value and malformed are both accepted");
    for(int fc : ref::FCS) for(auto k : {"ok", "malformed"}) p.required_labels.push_back(pbt::fmt("fc%02x %s", fc, k));
    p.required_labels.push_back("through server");
    return p;
}());
pbt::Register r03([] {
    pbt::Property p;
    p.id = "C03";
    p.rule = "random requests and responses a server may give; the response frame is compared with the reference encoder, decoded in the context of the request, and in a third of the cases sent from a server channel to a client channel in random segments. Every case reaches a comparison.";
    p.run = c03; p.quick_cases = 400000; p.thorough_cases = 5000000; p.assumptions = base_assumptions();
    for(int fc : ref::FCS) p.required_labels.push_back(pbt::fmt("fc%02x", fc));
    p.required_labels.push_back("through channels");
    return p;
}());
pbt::Register r04([] {
    pbt::Property p;
    p.id = "C04";
    p.rule = "random requests answered with valid responses, mutated ones (truncated, extended, changed byte count with and without matching length, byte changes), exception PDUs of any code and length, responses to other requests and random bytes; outcome of parse and of a client session compared with the reference decoder.";
    p.run = c04; p.quick_cases = 600000; p.thorough_cases = 8000000; p.assumptions = base_assumptions();
    for(int fc : ref::FCS) for(auto k : {"ok", "malformed", "exception"}) p.required_labels.push_back(pbt::fmt("fc%02x %s", fc, k));
    p.required_labels.push_back("through channel");
    return p;
}());
pbt::Register r05([] {
    pbt::Property p;
    p.id = "C05";
    p.rule = "directed cases enumerate all 256 raw codes x 8 functions (client side), all 9 exception types x 8 functions (server session -> wire -> client handler) and all 248 unsupported function codes; further cases repeat them with random requests and units.";
    p.run = c05; p.quick_cases = 150000; p.thorough_cases = 3000000; p.assumptions = base_assumptions();
    p.required_labels = {"raw code", "raised by session", "unsupported function"};
    return p;
}());
pbt::Register r06([] {
    pbt::Property p;
    p.id = "C06";
    p.rule = "streams of valid, maximum-size, over-long, foreign-protocol, zero-length and cut frames and random bytes, fed in one piece, byte by byte, in small or in large random chunks, with resets in between; delivered messages compared with a whole-stream reference deframer; one case in five goes through a server connection. Non-trivial = at least one message expected and more than one chunk.";
    p.run = [](Ctx& c) { if(c.src.below(5) == 4) c06_channel(c); else c06(c); };
    p.quick_cases = 300000; p.thorough_cases = 4000000; p.assumptions = base_assumptions();
    p.required_labels = {"frame: valid", "frame: over-long", "frame: foreign protocol", "frame: zero length", "reset", "through server", "split style 1"};
    return p;
}());

} // namespace
