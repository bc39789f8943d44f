// A small property-based testing engine (Hypothesis-style: a case is a sequence of bounded integer
// choices; shrinking works on that sequence). Cases run in forked workers, so that sanitizer aborts,
// crashes and hangs of the code under test are caught, shrunk and turned into replay files.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Span { uint32_t begin, end; };

class Src
{
public:
    // generate mode
    explicit Src(uint64_t seed);
    // replay mode
    explicit Src(std::vector<uint64_t> choices);
    // fuzzer mode: choices are drawn from raw bytes
    Src(const uint8_t* data, size_t size);

    uint64_t below(uint64_t n);                      // uniform in [0, n), shrinks towards 0
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }  // shrinks to false
    uint8_t byte() { return (uint8_t)below(256); }
    uint8_t byte_i();                                // byte, biased to interesting values
    uint16_t u16() { return (uint16_t)below(65536); }
    uint16_t u16_i();                                // biased to boundary values
    std::vector<uint8_t> bytes(size_t n);
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    size_t weighted(std::initializer_list<unsigned> weights);   // index, shrinks to 0
    size_t begin_span();
    void end_span(size_t token);
    bool exhausted() const { return m_mode == 2 ? m_pos >= m_size : false; }

    const std::vector<uint64_t>& recorded() const { return m_rec; }
    const std::vector<Span>& spans() const { return m_spans; }

private:
    int m_mode; // 0 generate, 1 replay, 2 bytes
    uint64_t m_s[4]{};
    std::vector<uint64_t> m_in;
    const uint8_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_pos = 0;
    std::vector<uint64_t> m_rec;
    std::vector<Span> m_spans;
};

// RAII: marks a group of choices that can be deleted as a whole when shrinking
struct Group
{
    explicit Group(Src& s) : src(s), tok(s.begin_span()) {}
    ~Group() { src.end_span(tok); }
    Src& src; size_t tok;
};

struct Failure { std::string key; std::string message; bool soft; };
struct Discard {};
struct Inconclusive { std::string why; };

class Ctx
{
public:
    Ctx(Src& s, uint64_t index, bool thorough, bool verbose) : src(s), index(index), thorough(thorough), verbose(verbose) {}
    Src& src;
    const uint64_t index;       // number of the case in the run (directed cases come first)
    const bool thorough;
    const bool verbose;

    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void label(const std::string& l) { ++labels[l]; }
    void nontrivial() { is_nontrivial = true; }
    // the property is violated
    [[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // something that should have happened within a generous deadline did not: believed only if it reproduces
    [[noreturn]] void fail_soft(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void inconclusive(const std::string& why) { throw Inconclusive{why}; }
    bool known(const std::string& key);     // true if `key` is listed as a known finding (and counts it)

    std::string trace;
    bool is_nontrivial = false;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> known_hits;
};

struct Property
{
    std::string id;
    std::string rule;                        // how cases are made, what is non-trivial
    std::function<void(Ctx&)> run;
    uint64_t quick_cases = 1000;
    uint64_t thorough_cases = 20000;
    unsigned workers = 8;
    double case_timeout_s = 30;
    double quick_wall_s = 240;
    double thorough_wall_s = 3000;
    std::string level = "exploration";
    std::vector<std::string> assumptions;
    bool hang_is_violation = true;
    double shrink_s = 60;
    bool exhaustive = false;                 // a finite space is enumerated completely by the directed cases
    std::vector<std::string> required_labels; // labels that must occur (reach of the generators), else the run is an error
};

// Registration, looked up by id on the command line
struct Register { explicit Register(Property p); };
const Property* find_property(const std::string& id);

uint64_t mix(uint64_t a, uint64_t b);
std::string hex(const uint8_t* p, size_t n, size_t max = 600);
inline std::string hex(const std::vector<uint8_t>& v, size_t max = 600) { return hex(v.data(), v.size(), max); }
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

int main(int argc, char** argv);

} // namespace pbt
