// Stand-in, see SequenceTypes.h
#pragma once
#include <memory>
#include "ser4cpp/container/SequenceTypes.h"
#include "ser4cpp/util/Uncopyable.h"

namespace ser4cpp {

class Buffer : public HasLength<size_t>, private Uncopyable
{
public:
    Buffer() : HasLength<size_t>(0) {}
    explicit Buffer(size_t length) : HasLength<size_t>(length), bytes(new uint8_t[length]()) {}
    explicit Buffer(const rseq_t& input) : Buffer(input.length())
    {
        auto dest = this->as_wslice();
        dest.copy_from(input);
    }
    Buffer(Buffer&& o) : HasLength<size_t>(o.length()), bytes(std::move(o.bytes)) { o.m_length = 0; }
    virtual ~Buffer() = default;

    rseq_t as_rslice() const { return rseq_t(this->bytes.get(), this->length()); }
    rseq_t as_rslice(size_t max_size) const { return this->as_rslice().take(max_size); }
    wseq_t as_wslice() { return wseq_t(this->bytes.get(), this->length()); }
    wseq_t as_wslice(size_t max_size) { return this->as_wslice().take(max_size); }
    rseq_t as_seq() const { return as_rslice(); }
    wseq_t as_wseq() { return as_wslice(); }

    const uint8_t& operator[](size_t index) const { if(index >= m_length) ser4cpp_standin_oob(); return bytes[index]; }
    uint8_t& operator[](size_t index) { if(index >= m_length) ser4cpp_standin_oob(); return bytes[index]; }

private:
    std::unique_ptr<uint8_t[]> bytes;
};

} // namespace ser4cpp
