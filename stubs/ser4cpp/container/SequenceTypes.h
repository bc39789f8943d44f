// Stand-in for the parts of automatak's ser4cpp that modbus-cpp uses (the real library is not
// available offline). Semantics follow the real one: sequences are non-owning (pointer, length)
// views; out-of-range take/skip/advance are clamped; write/copy operations that do not fit do nothing.
// One deliberate difference: element access is checked, so that an out-of-range read aborts.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>

namespace ser4cpp {

struct Bool { static const bool value = true; };

[[noreturn]] inline void ser4cpp_standin_oob() { std::fprintf(stderr, "ser4cpp stand-in: out-of-range access\n"); std::abort(); }

template <class L>
class HasLength
{
public:
    L length() const { return m_length; }
    size_t size() const { return m_length; }
    bool is_empty() const { return m_length == 0; }
    bool is_not_empty() const { return m_length != 0; }

protected:
    HasLength(L length) : m_length(length) {}
    L m_length;
};

template <class L>
class RSeq : public HasLength<L>
{
public:
    static RSeq empty() { return RSeq(); }
    static RSeq from_string(const char* str) { return RSeq(reinterpret_cast<const uint8_t*>(str), static_cast<L>(std::strlen(str))); }

    RSeq() : HasLength<L>(0) {}
    RSeq(uint8_t const* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}

    template <class U> RSeq<U> widen() const
    {
        static_assert(sizeof(U) >= sizeof(L), "widen may only be used for widening conversions");
        return RSeq<U>(m_buffer, static_cast<U>(this->m_length));
    }
    template <class U> RSeq<U> narrow() const { return RSeq<U>(m_buffer, static_cast<U>(this->m_length)); }

    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    RSeq take(size_t count) const { return RSeq(m_buffer, static_cast<L>((this->m_length < count) ? this->m_length : count)); }
    RSeq skip(size_t count) const
    {
        const size_t num = (this->m_length < count) ? this->m_length : count;
        return RSeq(m_buffer ? m_buffer + num : nullptr, static_cast<L>(this->m_length - num));
    }
    void advance(size_t count)
    {
        const size_t num = (this->m_length < count) ? this->m_length : count;
        if(m_buffer) m_buffer += num;
        this->m_length = static_cast<L>(this->m_length - num);
    }
    bool equals(const RSeq& rhs) const
    {
        if(this->length() != rhs.length()) return false;
        return this->m_length == 0 || std::memcmp(m_buffer, rhs.m_buffer, this->m_length) == 0;
    }

    operator uint8_t const*() const { return m_buffer; }
    const uint8_t* data() const { return m_buffer; }
    const uint8_t* begin() const { return m_buffer; }
    const uint8_t* end() const { return m_buffer + this->m_length; }

    template <class I> uint8_t operator[](I index) const
    {
        if(static_cast<size_t>(index) >= this->m_length) ser4cpp_standin_oob();
        return m_buffer[static_cast<size_t>(index)];
    }
    uint8_t at(size_t index) const { return (*this)[index]; }

private:
    uint8_t const* m_buffer = nullptr;
};

template <class L>
class WSeq : public HasLength<L>
{
public:
    static WSeq empty() { return WSeq(); }

    WSeq() : HasLength<L>(0) {}
    WSeq(uint8_t* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}

    void set_all_to(uint8_t value) { if(this->m_length) std::memset(m_buffer, value, this->m_length); }
    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    size_t advance(size_t count)
    {
        const size_t num = (this->m_length < count) ? this->m_length : count;
        if(m_buffer) m_buffer += num;
        this->m_length = static_cast<L>(this->m_length - num);
        return num;
    }
    WSeq skip(size_t count) const
    {
        const size_t num = (this->m_length < count) ? this->m_length : count;
        return WSeq(m_buffer ? m_buffer + num : nullptr, static_cast<L>(this->m_length - num));
    }
    WSeq take(size_t count) const { return WSeq(m_buffer, static_cast<L>((this->m_length < count) ? this->m_length : count)); }
    // Copies the whole sequence and moves past it, or does nothing if it does not fit
    RSeq<L> copy_from(const RSeq<L>& src) { return copy_or_move(src); }
    RSeq<L> move_from(const RSeq<L>& src) { return copy_or_move(src); }
    bool put(uint8_t byte)
    {
        if(this->m_length == 0) return false;
        m_buffer[0] = byte;
        advance(1);
        return true;
    }
    RSeq<L> readonly() const { return RSeq<L>(m_buffer, this->m_length); }

    operator uint8_t*() { return m_buffer; }
    operator uint8_t const*() const { return m_buffer; }
    uint8_t* data() { return m_buffer; }

    template <class I> uint8_t& operator[](I index)
    {
        if(static_cast<size_t>(index) >= this->m_length) ser4cpp_standin_oob();
        return m_buffer[static_cast<size_t>(index)];
    }

private:
    RSeq<L> copy_or_move(const RSeq<L>& src)
    {
        if(src.length() > this->length()) return RSeq<L>::empty();
        RSeq<L> ret(m_buffer, src.length());
        if(src.length()) std::memmove(m_buffer, static_cast<const uint8_t*>(src), src.length());
        advance(src.length());
        return ret;
    }
    uint8_t* m_buffer = nullptr;
};

using rseq_t = RSeq<size_t>;
using wseq_t = WSeq<size_t>;

} // namespace ser4cpp
