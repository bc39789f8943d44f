// Conversions between the reference model and the library's public types
#pragma once
#include <memory>
#include "ref.h"
#include "modbus/Expected.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ExceptionType.h"
#include "modbus/messages/ReadCoilsRequest.h"
#include "modbus/messages/ReadCoilsResponse.h"
#include "modbus/messages/ReadDiscreteInputsRequest.h"
#include "modbus/messages/ReadDiscreteInputsResponse.h"
#include "modbus/messages/ReadHoldingRegistersRequest.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/ReadInputRegistersRequest.h"
#include "modbus/messages/ReadInputRegistersResponse.h"
#include "modbus/messages/WriteMultipleCoilsRequest.h"
#include "modbus/messages/WriteMultipleCoilsResponse.h"
#include "modbus/messages/WriteMultipleRegistersRequest.h"
#include "modbus/messages/WriteMultipleRegistersResponse.h"
#include "modbus/messages/WriteSingleCoilRequest.h"
#include "modbus/messages/WriteSingleCoilResponse.h"
#include "modbus/messages/WriteSingleRegisterRequest.h"
#include "modbus/messages/WriteSingleRegisterResponse.h"

namespace glue {

template <int FC> struct T;

template <int FC, class Q, class R> struct ReadBits
{
    using Request = Q; using Response = R;
    static Q make(const ref::Req& r) { Q q; q.starting_address = r.addr; q.qty_of_bits = r.qty; return q; }
    static ref::Req from(const Q& q) { ref::Req r; r.fc = FC; r.addr = q.starting_address; r.qty = q.qty_of_bits; return r; }
    static R make(const ref::Resp& r) { R x; for(auto& p : r.points) x.values.push_back({p.addr, p.value != 0}); return x; }
    static ref::Resp from(const R& x) { ref::Resp r; r.fc = FC; for(auto& v : x.values) r.points.push_back({v.address, (uint16_t)(v.value ? 1 : 0)}); return r; }
};
template <int FC, class Q, class R> struct ReadRegs
{
    using Request = Q; using Response = R;
    static Q make(const ref::Req& r) { Q q; q.starting_address = r.addr; q.qty_of_registers = r.qty; return q; }
    static ref::Req from(const Q& q) { ref::Req r; r.fc = FC; r.addr = q.starting_address; r.qty = q.qty_of_registers; return r; }
    static R make(const ref::Resp& r) { R x; for(auto& p : r.points) x.values.push_back({p.addr, p.value}); return x; }
    static ref::Resp from(const R& x) { ref::Resp r; r.fc = FC; for(auto& v : x.values) r.points.push_back({v.address, v.value}); return r; }
};
template <> struct T<1> : ReadBits<1, modbus::ReadCoilsRequest, modbus::ReadCoilsResponse> {};
template <> struct T<2> : ReadBits<2, modbus::ReadDiscreteInputsRequest, modbus::ReadDiscreteInputsResponse> {};
template <> struct T<3> : ReadRegs<3, modbus::ReadHoldingRegistersRequest, modbus::ReadHoldingRegistersResponse> {};
template <> struct T<4> : ReadRegs<4, modbus::ReadInputRegistersRequest, modbus::ReadInputRegistersResponse> {};
template <> struct T<5>
{
    using Request = modbus::WriteSingleCoilRequest; using Response = modbus::WriteSingleCoilResponse;
    static Request make(const ref::Req& r) { return Request{modbus::SingleBitValue{r.addr, r.coil}}; }
    static ref::Req from(const Request& q) { ref::Req r; r.fc = 5; r.addr = q.value.address; r.coil = q.value.value; return r; }
    static Response make(const ref::Resp& r) { return Response{modbus::SingleBitValue{r.points.at(0).addr, r.points.at(0).value != 0}}; }
    static ref::Resp from(const Response& x) { ref::Resp r; r.fc = 5; r.points.push_back({x.value.address, (uint16_t)(x.value.value ? 1 : 0)}); return r; }
};
template <> struct T<6>
{
    using Request = modbus::WriteSingleRegisterRequest; using Response = modbus::WriteSingleRegisterResponse;
    static Request make(const ref::Req& r) { return Request{modbus::RegisterValue{r.addr, r.reg}}; }
    static ref::Req from(const Request& q) { ref::Req r; r.fc = 6; r.addr = q.value.address; r.reg = q.value.value; return r; }
    static Response make(const ref::Resp& r) { return Response{modbus::RegisterValue{r.points.at(0).addr, r.points.at(0).value}}; }
    static ref::Resp from(const Response& x) { ref::Resp r; r.fc = 6; r.points.push_back({x.value.address, x.value.value}); return r; }
};
template <> struct T<0x0F>
{
    using Request = modbus::WriteMultipleCoilsRequest; using Response = modbus::WriteMultipleCoilsResponse;
    static Request make(const ref::Req& r) { Request q; q.starting_address = r.addr; q.values = r.bits; return q; }
    static ref::Req from(const Request& q) { ref::Req r; r.fc = 0x0F; r.addr = q.starting_address; r.bits = q.values; return r; }
    static Response make(const ref::Resp& r) { return Response{r.addr, r.qty}; }
    static ref::Resp from(const Response& x) { ref::Resp r; r.fc = 0x0F; r.addr = x.starting_address; r.qty = x.qty_of_coils; return r; }
};
template <> struct T<0x10>
{
    using Request = modbus::WriteMultipleRegistersRequest; using Response = modbus::WriteMultipleRegistersResponse;
    static Request make(const ref::Req& r) { Request q; q.starting_address = r.addr; q.values = r.regs; return q; }
    static ref::Req from(const Request& q) { ref::Req r; r.fc = 0x10; r.addr = q.starting_address; r.regs = q.values; return r; }
    static Response make(const ref::Resp& r) { return Response{r.addr, r.qty}; }
    static ref::Resp from(const Response& x) { ref::Resp r; r.fc = 0x10; r.addr = x.starting_address; r.qty = x.qty_of_registers; return r; }
};

template <int FC> struct Fc { static constexpr int value = FC; };
// Calls f with Fc<fc> for a supported function code
template <class F> auto with_fc(int fc, F&& f)
{
    switch(fc)
    {
    case 1: return f(Fc<1>{});
    case 2: return f(Fc<2>{});
    case 3: return f(Fc<3>{});
    case 4: return f(Fc<4>{});
    case 5: return f(Fc<5>{});
    case 6: return f(Fc<6>{});
    case 0x0F: return f(Fc<0x0F>{});
    default: return f(Fc<0x10>{});
    }
}

// The spec's code of a library exception type (0 = unknown), written out by hand
inline int code_of(modbus::ExceptionType t)
{
    using E = modbus::ExceptionType;
    switch(t)
    {
    case E::IllegalFunction: return 1;
    case E::IllegalDataAddress: return 2;
    case E::IllegalDataValue: return 3;
    case E::ServerDeviceFailure: return 4;
    case E::Acknowledge: return 5;
    case E::ServerDeviceBusy: return 6;
    case E::MemoryParityError: return 8;
    case E::GatewayPathUnavailable: return 0x0A;
    case E::GatewayTargetDeviceFailedToRespond: return 0x0B;
    default: return 0;
    }
}
inline modbus::ExceptionType type_of(int code)
{
    using E = modbus::ExceptionType;
    switch(code)
    {
    case 1: return E::IllegalFunction;
    case 2: return E::IllegalDataAddress;
    case 3: return E::IllegalDataValue;
    case 4: return E::ServerDeviceFailure;
    case 5: return E::Acknowledge;
    case 6: return E::ServerDeviceBusy;
    case 8: return E::MemoryParityError;
    case 0x0A: return E::GatewayPathUnavailable;
    case 0x0B: return E::GatewayTargetDeviceFailedToRespond;
    default: return E::Unknown;
    }
}

// What a client handler (or a parse function) was given
struct Outcome
{
    enum Kind { Value, Modbus, MalformedRequest, MalformedResponse, Timeout, Connection, Other } kind = Other;
    ref::Resp resp;
    int code = 0;       // of a Modbus exception, 0 = unknown
    std::string text;
    bool operator==(const Outcome& o) const { return kind == o.kind && (kind != Value || resp == o.resp) && (kind != Modbus || code == o.code); }
    std::string str() const
    {
        static const char* n[] = {"value ", "modbus-exception ", "malformed-request ", "malformed-response ", "timeout ", "connection-error ", "other-error "};
        return std::string(n[kind]) + (kind == Value ? resp.str() : kind == Modbus ? pbt::fmt("%02x", code) : text);
    }
};
template <class E> Outcome error_outcome(const E& e)
{
    Outcome o;
    try { std::rethrow_exception(e.get_exception()); }
    catch(const modbus::ModbusException& x) { o.kind = Outcome::Modbus; o.code = code_of(x.get_exception_type()); }
    catch(const modbus::MalformedModbusRequestException& x) { o.kind = Outcome::MalformedRequest; o.text = x.get_message(); }
    catch(const modbus::MalformedModbusResponseException& x) { o.kind = Outcome::MalformedResponse; o.text = x.get_message(); }
    catch(const modbus::TimeoutException& x) { o.kind = Outcome::Timeout; o.text = x.get_message(); }
    catch(const modbus::ConnectionException& x) { o.kind = Outcome::Connection; o.text = x.get_message(); }
    catch(const std::exception& x) { o.kind = Outcome::Other; o.text = x.what(); }
    catch(...) { o.kind = Outcome::Other; o.text = "non-standard exception"; }
    return o;
}
template <int FC, class E> Outcome outcome_of(const E& e)
{
    if(!e.is_valid()) return error_outcome(e);
    Outcome o;
    o.kind = Outcome::Value;
    o.resp = T<FC>::from(e.get());
    return o;
}
// What the reference says a client must report for response PDU `b` to request `q`
inline Outcome expected_outcome(const ref::Req& q, const ref::Bytes& b)
{
    Outcome o;
    uint8_t code = 0;
    switch(ref::decode_response(q, b, o.resp, code))
    {
    case ref::DResp::Ok: o.kind = Outcome::Value; break;
    case ref::DResp::Exception: o.kind = Outcome::Modbus; o.code = code_of(type_of(code)); break;
    default: o.kind = Outcome::MalformedResponse; break;
    }
    return o;
}

} // namespace glue
