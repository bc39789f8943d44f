// Stand-in, see SequenceTypes.h. Reads/writes advance the sequence; if there is not enough room
// they return false and change nothing.
#pragma once
#include "ser4cpp/container/SequenceTypes.h"

namespace ser4cpp {

class UInt8
{
public:
    using type_t = uint8_t;
    static const size_t size = 1;
    static bool read_from(rseq_t& input, uint8_t& out)
    {
        if(input.length() < 1) return false;
        out = input[0];
        input.advance(1);
        return true;
    }
    static uint8_t read(const uint8_t* data) { return data[0]; }
    static void write(uint8_t* data, uint8_t value) { data[0] = value; }
    static bool write_to(wseq_t& dest, uint8_t value)
    {
        if(dest.length() < 1) return false;
        dest[0] = value;
        dest.advance(1);
        return true;
    }
};

template <class T>
class StandinBigEndian
{
public:
    using type_t = T;
    static const size_t size = sizeof(T);
    static T read(const uint8_t* data)
    {
        T v = 0;
        for(size_t i = 0; i < sizeof(T); ++i) v = static_cast<T>((static_cast<uint64_t>(v) << 8) | data[i]);
        return v;
    }
    static void write(uint8_t* data, T value)
    {
        for(size_t i = 0; i < sizeof(T); ++i) data[i] = static_cast<uint8_t>(static_cast<uint64_t>(value) >> (8 * (sizeof(T) - 1 - i)));
    }
    static bool read_from(rseq_t& input, T& out)
    {
        if(input.length() < sizeof(T)) return false;
        out = read(input);
        input.advance(sizeof(T));
        return true;
    }
    static bool write_to(wseq_t& dest, T value)
    {
        if(dest.length() < sizeof(T)) return false;
        write(dest, value);
        dest.advance(sizeof(T));
        return true;
    }
};

class UInt16 : public StandinBigEndian<uint16_t> {};
class UInt32 : public StandinBigEndian<uint32_t> {};
class UInt64 : public StandinBigEndian<uint64_t> {};

struct BigEndian
{
    template <typename T> static bool read(rseq_t& input, T& out) { return StandinBigEndian<T>::read_from(input, out); }
    template <typename T> static bool write(wseq_t& dest, const T& v) { return StandinBigEndian<T>::write_to(dest, v); }
};

} // namespace ser4cpp
