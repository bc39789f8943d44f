// Stand-in, see SequenceTypes.h
#pragma once
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp {

template <size_t LENGTH>
class StaticBuffer
{
public:
    StaticBuffer() = default;

    rseq_t as_seq() const { return rseq_t(this->buffer, LENGTH); }
    rseq_t as_seq(size_t max_size) const { return this->as_seq().take(max_size); }
    wseq_t as_wseq() { return wseq_t(this->buffer, LENGTH); }
    wseq_t as_wseq(size_t max_size) { return this->as_wseq().take(max_size); }
    rseq_t as_rslice() const { return as_seq(); }
    wseq_t as_wslice() { return as_wseq(); }
    const uint8_t* operator()() const { return buffer; }
    uint8_t* operator()() { return buffer; }
    size_t length() const { return LENGTH; }
    size_t size() const { return LENGTH; }
    uint8_t operator[](size_t i) const { if(i >= LENGTH) ser4cpp_standin_oob(); return buffer[i]; }
    uint8_t& operator[](size_t i) { if(i >= LENGTH) ser4cpp_standin_oob(); return buffer[i]; }

private:
    uint8_t buffer[LENGTH] = {0};
};

} // namespace ser4cpp
