// Access to the library's message classes (internal headers; the names the repository's own tests use)
#pragma once
#include "glue.h"
#include "messages/ExceptionResponse.h"
#include "messages/ReadCoilsRequestImpl.h"
#include "messages/ReadCoilsResponseImpl.h"
#include "messages/ReadDiscreteInputsRequestImpl.h"
#include "messages/ReadDiscreteInputsResponseImpl.h"
#include "messages/ReadHoldingRegistersRequestImpl.h"
#include "messages/ReadHoldingRegistersResponseImpl.h"
#include "messages/ReadInputRegistersRequestImpl.h"
#include "messages/ReadInputRegistersResponseImpl.h"
#include "messages/WriteMultipleCoilsRequestImpl.h"
#include "messages/WriteMultipleCoilsResponseImpl.h"
#include "messages/WriteMultipleRegistersRequestImpl.h"
#include "messages/WriteMultipleRegistersResponseImpl.h"
#include "messages/WriteSingleCoilRequestImpl.h"
#include "messages/WriteSingleCoilResponseImpl.h"
#include "messages/WriteSingleRegisterRequestImpl.h"
#include "messages/WriteSingleRegisterResponseImpl.h"
#include "messages/mbap/IMbapSink.h"
#include "messages/mbap/MbapMessage.h"
#include "messages/mbap/MbapParser.h"

namespace glue {
template <int FC> struct I;
template <> struct I<1> { using Q = modbus::ReadCoilsRequestImpl; using R = modbus::ReadCoilsResponseImpl; };
template <> struct I<2> { using Q = modbus::ReadDiscreteInputsRequestImpl; using R = modbus::ReadDiscreteInputsResponseImpl; };
template <> struct I<3> { using Q = modbus::ReadHoldingRegistersRequestImpl; using R = modbus::ReadHoldingRegistersResponseImpl; };
template <> struct I<4> { using Q = modbus::ReadInputRegistersRequestImpl; using R = modbus::ReadInputRegistersResponseImpl; };
template <> struct I<5> { using Q = modbus::WriteSingleCoilRequestImpl; using R = modbus::WriteSingleCoilResponseImpl; };
template <> struct I<6> { using Q = modbus::WriteSingleRegisterRequestImpl; using R = modbus::WriteSingleRegisterResponseImpl; };
template <> struct I<0x0F> { using Q = modbus::WriteMultipleCoilsRequestImpl; using R = modbus::WriteMultipleCoilsResponseImpl; };
template <> struct I<0x10> { using Q = modbus::WriteMultipleRegistersRequestImpl; using R = modbus::WriteMultipleRegistersResponseImpl; };

inline ref::Bytes to_bytes(const ser4cpp::rseq_t& s) { const uint8_t* p = s; return ref::Bytes(p, p + s.length()); }
// An exactly sized heap copy, so that reads outside are caught by AddressSanitizer
struct Exact
{
    explicit Exact(const ref::Bytes& b) : n(b.size()), p(new uint8_t[b.size() ? b.size() : 1]) { if(n) memcpy(p.get(), b.data(), n); }
    ser4cpp::rseq_t seq() const { return ser4cpp::rseq_t(p.get(), n); }
    size_t n; std::unique_ptr<uint8_t[]> p;
};
} // namespace glue
