// C26 .. C27: the value types of the public interface, against reference models
#include <any>
#include <cstring>
#include <iomanip>
#include <locale>
#include <memory>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include "pbt.h"
#include "ref.h"
#include "TransactionIdentifier.h"
#include "modbus/Expected.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/UnitIdentifier.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"

using pbt::Ctx;
using modbus::Expected;

namespace {

// ---------------------------------------------------------------- C26
// Every live instance is registered by address; a destructor run on anything else is a violation
struct Registry
{
    std::set<const void*> live;
    std::string broken;
    void born(const void* p) { if(!live.insert(p).second) broken = "an object was constructed over a live one"; }
    void died(const void* p) { if(!live.erase(p)) broken = "an object was destroyed that was not alive"; }
    void used(const void* p) { if(!live.count(p)) broken = "an object was used that was not alive"; }
};
Registry g_reg;
bool g_throw_on_copy = false;
struct CopyFailed {};

struct Tracked
{
    long id;
    std::string pad;    // something on the heap: leaks and double frees are seen by the sanitizer as well
    explicit Tracked(long i) : id(i), pad(100, 'x') { g_reg.born(this); }
    Tracked(const Tracked& o) : id(o.id), pad(o.pad) { if(g_throw_on_copy) throw CopyFailed{}; g_reg.used(&o); g_reg.born(this); }
    Tracked(Tracked&& o) noexcept : id(o.id), pad(std::move(o.pad)) { g_reg.used(&o); g_reg.born(this); o.id = -1; }
    Tracked& operator=(const Tracked&) = default;
    ~Tracked() { g_reg.died(this); }
};
struct InitList     // brace initialisation from itself would pick the list constructor
{
    std::vector<long> v;
    InitList(long i) : v{i} {}
    InitList(std::initializer_list<InitList> l) { for(auto& x : l) for(auto i : x.v) v.push_back(i + 1000000); }
};
struct Plain { long id; char rest[200]; };
struct alignas(64) Aligned { long id; Aligned(long i) : id(i) { if((uintptr_t)this % 64) g_reg.broken = "misaligned value"; } };

template <class T> struct V;
template <> struct V<Tracked> { static Tracked make(long i) { return Tracked(i); } static long of(const Tracked& t) { g_reg.used(&t); return t.id; } static void set(Tracked& t, long i) { t.id = i; } static constexpr long moved = -1; };
template <> struct V<long> { static long make(long i) { return i; } static long of(long t) { return t; } static void set(long& t, long i) { t = i; } };
template <> struct V<bool> { static bool make(long i) { return i & 1; } static long of(bool t) { return t; } static void set(bool& t, long i) { t = i & 1; } };
template <> struct V<std::string> { static std::string make(long i) { return std::to_string(i) + std::string((size_t)(i % 50), '.'); } static long of(const std::string& t) { return t.empty() ? -2 : atol(t.c_str()) + (t == make(atol(t.c_str())) ? 0 : 500000); } static void set(std::string& t, long i) { t = make(i); } };
template <> struct V<InitList> { static InitList make(long i) { return InitList(i); } static long of(const InitList& t) { return t.v.size() == 1 ? t.v[0] : -3; } static void set(InitList& t, long i) { t.v.assign(1, i); } };
template <> struct V<std::vector<std::any>> { static std::vector<std::any> make(long i) { return std::vector<std::any>(3, std::any(i)); } static long of(const std::vector<std::any>& t) { return t.size() == 3 && t[0].type() == typeid(long) ? std::any_cast<long>(t[0]) : -3; } static void set(std::vector<std::any>& t, long i) { t = make(i); } };
template <> struct V<Plain> { static Plain make(long i) { Plain p; p.id = i; memset(p.rest, (int)(i & 127), sizeof p.rest); return p; } static long of(const Plain& t) { for(char x : t.rest) if(x != (t.id & 127)) return -3; return t.id; } static void set(Plain& t, long i) { t = make(i); } };
template <> struct V<Aligned> { static Aligned make(long i) { return Aligned(i); } static long of(const Aligned& t) { return (uintptr_t)&t % 64 ? -3 : t.id; } static void set(Aligned& t, long i) { t.id = i; } };
template <> struct V<std::exception_ptr> { static std::exception_ptr make(long i) { return std::make_exception_ptr(i); } static long of(const std::exception_ptr& t) { try { std::rethrow_exception(t); } catch(long i) { return i; } catch(...) {} return -3; } static void set(std::exception_ptr& t, long i) { t = make(i); } };
template <> struct V<std::shared_ptr<Tracked>> { static std::shared_ptr<Tracked> make(long i) { return std::make_shared<Tracked>(i); } static long of(const std::shared_ptr<Tracked>& t) { return t ? V<Tracked>::of(*t) : -2; } static void set(std::shared_ptr<Tracked>& t, long i) { t = make(i); } };

// a family of error types
struct Base0 { Tracked t; explicit Base0(long i) : t(i) {} virtual ~Base0() = default; };
struct Mid : Base0 { explicit Mid(long i) : Base0(i) {} };
struct Other { long o; explicit Other(long i) : o(i) {} virtual ~Other() = default; };
struct Leaf : Mid, Other { explicit Leaf(long i) : Mid(i), Other(i) {} };
struct Ambiguous : Base0, Leaf { explicit Ambiguous(long i) : Base0(i), Leaf(i) {} };     // two Base0: not caught as Base0
struct Privately : private Other { explicit Privately(long i) : Other(i) {} long id() const { return o; } };

enum Type { TBase0, TMid, TOther, TLeaf, TAmbiguous, TPrivately, TIException, TModbus, TConnection, TTimeout, TMalformed, TLong, TCString, TInvalidArgument, TRuntime, TLogic, TStdException, NTYPES };
const char* tname[] = {"Base0", "Mid", "Other", "Leaf", "Ambiguous", "Privately", "IException", "ModbusException", "ConnectionException", "TimeoutException", "MalformedModbusRequestException", "long", "const char*", "std::invalid_argument", "std::runtime_error", "std::logic_error", "std::exception"};
// handler type `h` catches an object of dynamic type `d`
bool catches(int h, int d)
{
    if(h == d) return true;
    switch(d)
    {
    case TMid: return h == TBase0;
    case TLeaf: return h == TBase0 || h == TMid || h == TOther;
    case TAmbiguous: return h == TLeaf || h == TMid || h == TOther;
    case TModbus: case TConnection: case TTimeout: case TMalformed: return h == TIException;
    case TInvalidArgument: return h == TLogic || h == TStdException;
    case TRuntime: case TLogic: return h == TStdException;
    default: return false;
    }
}
const char* cstrings[] = {"zero", "one", "two", "three"};
template <class F> auto with_error(int t, long id, F&& f)
{
    switch(t)
    {
    case TBase0: return f(Base0(id));
    case TMid: return f(Mid(id));
    case TOther: return f(Other(id));
    case TLeaf: return f(Leaf(id));
    case TAmbiguous: return f(Ambiguous(id));
    case TPrivately: return f(Privately(id));
    case TIException: return f(modbus::IException(std::to_string(id)));
    case TModbus: return f(modbus::ModbusException((modbus::ExceptionType)(id % 9)));
    case TConnection: return f(modbus::ConnectionException(std::to_string(id)));
    case TTimeout: return f(modbus::TimeoutException());
    case TMalformed: return f(modbus::MalformedModbusRequestException(std::to_string(id)));
    case TLong: return f(id);
    case TCString: return f((const char*)cstrings[id & 3]);
    case TInvalidArgument: return f(std::invalid_argument(std::to_string(id)));
    case TRuntime: return f(std::runtime_error(std::to_string(id)));
    case TLogic: return f(std::logic_error(std::to_string(id)));
    default: return f(std::exception());
    }
}
template <class F> auto with_type(int t, F&& f)
{
    switch(t)
    {
    case TBase0: return f((Base0*)nullptr);
    case TMid: return f((Mid*)nullptr);
    case TOther: return f((Other*)nullptr);
    case TLeaf: return f((Leaf*)nullptr);
    case TAmbiguous: return f((Ambiguous*)nullptr);
    case TPrivately: return f((Privately*)nullptr);
    case TIException: return f((modbus::IException*)nullptr);
    case TModbus: return f((modbus::ModbusException*)nullptr);
    case TConnection: return f((modbus::ConnectionException*)nullptr);
    case TTimeout: return f((modbus::TimeoutException*)nullptr);
    case TMalformed: return f((modbus::MalformedModbusRequestException*)nullptr);
    case TLong: return f((long*)nullptr);
    case TCString: return f((const char**)nullptr);
    case TInvalidArgument: return f((std::invalid_argument*)nullptr);
    case TRuntime: return f((std::runtime_error*)nullptr);
    case TLogic: return f((std::logic_error*)nullptr);
    default: return f((std::exception*)nullptr);
    }
}
// what an error object tells about itself
std::string tell(const Base0& e) { return std::to_string(e.t.id); }
std::string tell(const Leaf& e) { return std::to_string(e.t.id) + "/" + std::to_string(e.o); }
std::string tell(const Ambiguous& e) { return std::to_string(e.Leaf::t.id) + "/" + std::to_string(e.o); }
std::string tell(const Other& e) { return std::to_string(e.o); }
std::string tell(const Privately& e) { return std::to_string(e.id()); }
std::string tell(const modbus::IException& e) { return e.get_message(); }
std::string tell(const modbus::ModbusException& e) { return static_cast<const modbus::IException&>(e).get_message() + "/" + std::to_string((int)e.get_exception_type()); }
std::string tell(long e) { return std::to_string(e); }
std::string tell(const char* e) { return e; }
std::string tell(const std::invalid_argument& e) { return e.what(); }
std::string tell(const std::runtime_error& e) { return e.what(); }
std::string tell(const std::logic_error& e) { return e.what(); }
std::string tell(const std::exception&) { return "std"; }
// what handler type h must tell about an error of type d made from id
std::string told(int h, int d, long id)
{
    std::string n = std::to_string(id);
    switch(h)
    {
    case TLeaf: case TAmbiguous: return n + "/" + n;
    case TIException:
        if(d == TModbus) return modbus::ModbusException::get_message((modbus::ExceptionType)(id % 9));
        if(d == TTimeout) return "Timeout reached";
        return n;
    case TModbus: return modbus::ModbusException::get_message((modbus::ExceptionType)(id % 9)) + "/" + std::to_string(id % 9);
    case TTimeout: return "Timeout reached";
    case TCString: return cstrings[id & 3];
    case TStdException: return "std";
    default: return n;
    }
}

template <class T> struct Slot
{
    std::unique_ptr<Expected<T>> e;
    bool valid = true, moved = false;
    long id = 0;
    int type = 0;
};

template <class T> void expected_case(Ctx& c, const char* name)
{
    auto& s = c.src;
    c.note("Expected<%s>", name);
    std::vector<Slot<T>> v((size_t)s.range(1, 5));
    size_t queries = 0, errors = 0;
    auto guard = [&](const char* what) { if(!g_reg.broken.empty()) c.fail("C26/lifetime", "%s: %s", what, g_reg.broken.c_str()); };
    auto check = [&](size_t i) {
        auto& x = v[i];
        if(!x.e) return;
        const auto& k = *x.e;
        if(k.is_valid() != x.valid) c.fail("C26/valid", "is_valid() of slot %zu is %d", i, (int)k.is_valid());
        if(x.moved) return;
        ++queries;
        if(x.valid)
        {
            if(V<T>::of(k.get()) != x.id || V<T>::of(x.e->get()) != x.id) c.fail("C26/value", "slot %zu holds %ld instead of %ld", i, V<T>::of(k.get()), x.id);
            if(&k.get() != &x.e->get()) c.fail("C26/value", "get() returns different objects");
            bool ok = false;
            try { (void)k.get_exception(); } catch(const std::invalid_argument&) { ok = true; } catch(...) {}
            if(!ok) c.fail("C26/refuse", "get_exception() of a valid result does not throw std::invalid_argument");
        }
        else
        {
            ++errors;
            for(int w = 0; w < 3; ++w)
            {
                std::string got;
                try
                {
                    if(w == 0) (void)x.e->get();
                    else if(w == 1) (void)k.get();
                    else std::rethrow_exception(k.get_exception());
                    got = "nothing was thrown";
                }
                catch(...)
                {
                    with_type(x.type, [&](auto* p) {
                        using E = std::remove_pointer_t<decltype(p)>;
                        try { throw; }
                        catch(const E& e)
                        {
                            if constexpr(std::is_polymorphic_v<E>) { if(typeid(e) != typeid(E)) got = "another type was thrown"; }
                            if(got.empty() && tell(e) != told(x.type, x.type, x.id)) got = "the error says " + tell(e);
                        }
                        catch(...) { got = "another type was thrown"; }
                        return 0;
                    });
                }
                if(!got.empty()) c.fail("C26/error", "slot %zu (%s %ld): %s", i, tname[x.type], x.id, got.c_str());
            }
        }
        const int h = (int)s.below(NTYPES), h2 = s.chance(1, 2) ? x.type : (int)s.below(NTYPES);
        for(int t : {h, h2})
            with_type(t, [&](auto* p) {
                using E = std::remove_pointer_t<decltype(p)>;
                const bool want = !x.valid && catches(t, x.type);
                if(k.template has_exception<E>() != want) c.fail("C26/has-exception", "slot %zu (%s): has_exception<%s>() is %d", i, x.valid ? "a value" : tname[x.type], tname[t], (int)!want);
                if(want)
                {
                    if constexpr(!std::is_same_v<E, Base0> || true)
                    {
                        std::string got;
                        try { got = tell(k.template get_exception<E>()); } catch(...) { got = "an exception is thrown"; }
                        if(got != told(t, x.type, x.id)) c.fail("C26/get-exception", "slot %zu (%s %ld): get_exception<%s>() says %s", i, tname[x.type], x.id, tname[t], got.c_str());
                    }
                }
                else
                {
                    bool ok = false;
                    try { (void)k.template get_exception<E>(); } catch(const std::invalid_argument& e) { ok = true; } catch(...) {}
                    if(!ok) c.fail("C26/refuse", "slot %zu (%s): get_exception<%s>() does not throw std::invalid_argument", i, x.valid ? "a value" : tname[x.type], tname[t]);
                }
                return 0;
            });
        guard("query");
    };
    const size_t n = (size_t)s.range(1, c.thorough ? 60 : 25);
    for(size_t k = 0; k < n; ++k)
    {
        pbt::Group g(s);
        const size_t i = s.below(v.size()), j = s.below(v.size());
        auto& x = v[i];
        const long id = s.range(0, 999);
        switch(s.weighted({3, 3, 3, 3, 4, 4, 3, 2, 1, 1}))
        {
        case 0:
        {
            T t = V<T>::make(id);
            x.e = std::make_unique<Expected<T>>(t);
            if(V<T>::of(t) != V<T>::of(V<T>::make(id))) c.fail("C26/source", "building from a constant value changed it");
            x.valid = true; x.moved = false; x.id = V<T>::of(V<T>::make(id));
            c.note("slot %zu = value %ld, copied", i, id);
            break;
        }
        case 1:
            x.e = std::make_unique<Expected<T>>(V<T>::make(id));
            x.valid = true; x.moved = false; x.id = V<T>::of(V<T>::make(id));
            c.note("slot %zu = value %ld, moved in", i, id);
            break;
        case 2: case 3:
        {
            const int t = (int)s.below(NTYPES);
            const int how = (int)s.weighted({3, 1, 1, 1, 1, 1});
            static const char* hows[] = {"", " (temporary)", " (temporary exception_ptr)", " (exception_ptr variable)", " (exception_ptr constant)", " (caught)"};
            c.note("slot %zu = error %s %ld%s", i, tname[t], id, hows[how]);
            with_error(t, id, [&](const auto& e) {
                using E = std::decay_t<decltype(e)>;
                switch(how)
                {
                case 0: x.e = std::make_unique<Expected<T>>(Expected<T>::from_exception(e)); break;
                case 1: x.e = std::make_unique<Expected<T>>(Expected<T>::from_exception(E(e))); break;
                case 2: x.e = std::make_unique<Expected<T>>(Expected<T>::from_exception(std::make_exception_ptr(e))); break;
                case 3:
                {
                    std::exception_ptr p = std::make_exception_ptr(e);
                    x.e = std::make_unique<Expected<T>>(Expected<T>::from_exception(p));
                    if(!p) c.fail("C26/source", "building from an exception_ptr variable changed it");
                    c.label("error from an exception_ptr variable");
                    break;
                }
                case 4: { const std::exception_ptr p = std::make_exception_ptr(e); x.e = std::make_unique<Expected<T>>(Expected<T>::from_exception(p)); break; }
                default: try { throw e; } catch(...) { x.e = std::make_unique<Expected<T>>(Expected<T>::from_exception(std::current_exception())); }
                }
                return 0;
            });
            x.valid = false; x.moved = false; x.type = t; x.id = id;
            c.label("error");
            break;
        }
        case 4:
            if(!v[j].e || v[j].moved || i == j) break;
            x.e = std::make_unique<Expected<T>>(*v[j].e);
            x.valid = v[j].valid; x.moved = false; x.id = v[j].id; x.type = v[j].type;
            c.note("slot %zu = copy of slot %zu", i, j);
            c.label("copy");
            check(j);
            break;
        case 5:
            if(!v[j].e || v[j].moved || i == j) break;
            x.e = std::make_unique<Expected<T>>(std::move(*v[j].e));
            x.valid = v[j].valid; x.moved = false; x.id = v[j].id; x.type = v[j].type;
            v[j].moved = true;
            c.note("slot %zu = moved from slot %zu", i, j);
            c.label("move");
            break;
        case 6: x.e.reset(); c.note("slot %zu destroyed", i); break;
        case 7:
            if(!x.e || !x.valid || x.moved) break;
            V<T>::set(x.e->get(), id);
            x.id = V<T>::of(V<T>::make(id));
            c.note("slot %zu set to %ld through get()", i, id);
            break;
        case 8:     // slicing is refused
        {
            bool ok = false;
            Leaf leaf(id);
            const Base0& b = leaf;
            try { auto e = Expected<T>::from_exception(b); } catch(const std::invalid_argument&) { ok = true; }
            if(!ok) c.fail("C26/slicing", "building from a sliced error does not throw std::invalid_argument");
            c.label("slicing refused");
            break;
        }
        default:    // a copy that fails leaves nothing behind
            if constexpr(std::is_same_v<T, Tracked>)
            {
                if(!x.e || !x.valid || x.moved) break;
                bool thrown = false;
                g_throw_on_copy = true;
                try { Expected<T> y(*x.e); } catch(const CopyFailed&) { thrown = true; }
                g_throw_on_copy = false;
                if(!thrown) c.fail("C26/copy", "copying did not copy the value");
                c.label("copy of the value fails");
            }
        }
        guard("operation");
        check(i);
    }
    for(size_t i = 0; i < v.size(); ++i) check(i);
    v.clear();
    guard("destruction");
    if(!g_reg.live.empty()) c.fail("C26/leak", "%zu contained objects were never destroyed", g_reg.live.size());
    if(queries >= 3 && errors >= 1) c.nontrivial();
}

// move-only values
void move_only(Ctx& c)
{
    auto& s = c.src;
    c.note("Expected<unique_ptr>");
    const long id = s.range(0, 999);
    {
        Expected<std::unique_ptr<Tracked>> a(std::make_unique<Tracked>(id));
        Expected<std::unique_ptr<Tracked>> b(std::move(a));
        if(!b.is_valid() || !b.get() || b.get()->id != id) c.fail("C26/value", "a moved-in pointer is lost");
        Expected<std::unique_ptr<Tracked>> e(Expected<std::unique_ptr<Tracked>>::from_exception(Mid(id)));
        Expected<std::unique_ptr<Tracked>> f(std::move(e));
        if(f.is_valid() || !f.has_exception<Base0>() || f.has_exception<Other>()) c.fail("C26/has-exception", "a moved error is lost");
        auto p = std::move(b.get());
        if(!p || p->id != id) c.fail("C26/value", "a moved-out pointer is lost");
    }
    if(!g_reg.broken.empty() || !g_reg.live.empty()) c.fail("C26/lifetime", "%s, %zu objects left", g_reg.broken.c_str(), g_reg.live.size());
    c.nontrivial();
}

void c26(Ctx& c)
{
    g_reg = Registry{};
    switch(c.src.weighted({6, 1, 1, 2, 2, 1, 1, 1, 1, 2, 1}))
    {
    case 0: expected_case<Tracked>(c, "Tracked"); break;
    case 1: expected_case<long>(c, "long"); break;
    case 2: expected_case<bool>(c, "bool"); break;
    case 3: expected_case<std::string>(c, "std::string"); break;
    case 4: expected_case<InitList>(c, "InitList"); break;
    case 5: expected_case<std::vector<std::any>>(c, "std::vector<std::any>"); break;
    case 6: expected_case<Plain>(c, "Plain"); break;
    case 7: expected_case<Aligned>(c, "Aligned"); break;
    case 8: expected_case<std::exception_ptr>(c, "std::exception_ptr"); break;
    case 9: expected_case<std::shared_ptr<Tracked>>(c, "std::shared_ptr<Tracked>"); break;
    default: move_only(c);
    }
}

// ---------------------------------------------------------------- C27
struct Punct : std::numpunct<char>
{
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    char do_decimal_point() const override { return ','; }
    std::string do_truename() const override { return "ja"; }
};

struct Format
{
    std::ios_base::fmtflags flags{};
    char fill = ' ';
    int width = 0, precision = 6;
    bool loc = false;
    static Format gen(pbt::Src& s)
    {
        using I = std::ios_base;
        Format f;
        static const I::fmtflags all[] = {I::uppercase, I::showbase, I::showpos, I::boolalpha, I::unitbuf, I::showpoint, I::skipws};
        for(auto x : all) if(s.chance(1, 3)) f.flags |= x;
        static const I::fmtflags base[] = {I::dec, I::hex, I::oct, I::fmtflags{}, I::hex | I::oct};
        static const I::fmtflags adj[] = {I::fmtflags{}, I::left, I::right, I::internal};
        static const I::fmtflags flt[] = {I::fmtflags{}, I::fixed, I::scientific};
        f.flags |= base[s.below(5)] | adj[s.below(4)] | flt[s.below(3)];
        f.fill = " 0*xAz\t"[s.below(7)];
        f.width = s.chance(1, 2) ? 0 : (int)s.range(1, 20);
        f.precision = (int)s.range(0, 10);
        f.loc = s.chance(1, 3);
        return f;
    }
    void apply(std::ostream& o) const
    {
        o.flags(flags);
        o.fill(fill);
        o.width(width);
        o.precision(precision);
        if(loc) o.imbue(std::locale(std::locale::classic(), new Punct));
    }
    std::string str() const { return pbt::fmt("flags %x fill '%c' width %d precision %d%s", (unsigned)flags, fill, width, precision, loc ? " grouping locale" : ""); }
};

template <class X> void check_print(Ctx& c, const X& x, const std::string& want, const Format& f)
{
    std::ostringstream o;
    f.apply(o);
    const std::locale loc = o.getloc();
    o << x;
    const auto got = o.str();
    const size_t pad = (size_t)f.width > want.size() ? (size_t)f.width - want.size() : 0;
    if(got != want && got != std::string(pad, f.fill) + want && got != want + std::string(pad, f.fill))
        c.fail("C27/print", "with %s it prints \"%s\" instead of \"%s\"", f.str().c_str(), got.c_str(), want.c_str());
    if(o.flags() != f.flags) c.fail("C27/flags", "with %s: printing changed the format flags to %x", f.str().c_str(), (unsigned)o.flags());
    if(o.fill() != f.fill) c.fail("C27/fill", "with %s: printing changed the fill character to '%c'", f.str().c_str(), o.fill());
    if(o.precision() != f.precision) c.fail("C27/flags", "with %s: printing changed the precision to %d", f.str().c_str(), (int)o.precision());
    if(!(o.getloc() == loc)) c.fail("C27/locale", "printing changed the locale");
    if(!o.good()) c.fail("C27/state", "printing changed the state of the stream");
    if(o.width() != 0 && o.width() != f.width) c.fail("C27/width", "printing left a width of %d", (int)o.width());
    // what follows on the stream is printed as it would have been without it
    std::ostringstream a;
    f.apply(a);
    o.str("");
    o.width(0); a.width(0);
    o << 4711 << ' ' << true << ' ' << 2.5 << ' ' << std::setw(8) << 77;
    a << 4711 << ' ' << true << ' ' << 2.5 << ' ' << std::setw(8) << 77;
    if(o.str() != a.str()) c.fail("C27/after", "with %s: what is printed afterwards is \"%s\" instead of \"%s\"", f.str().c_str(), o.str().c_str(), a.str().c_str());
}
std::string unit_text(unsigned v) { static const char* h = "0123456789ABCDEF"; return std::string("0x") + h[v >> 4] + h[v & 15]; }
std::string tid_text(unsigned v) { return unit_text(v >> 8) + unit_text(v & 255).substr(2); }

std::string gen_host(pbt::Src& s)
{
    switch(s.weighted({3, 1, 2, 1}))
    {
    case 0: return pbt::fmt("%d.%d.%d.%d", (int)s.below(256), (int)s.below(256), (int)s.below(3), (int)s.below(256));
    case 1: return "";
    case 2: { std::string r; for(size_t n = s.below(40); n; --n) r += (char)s.below(256); return r; }
    default: return std::string(s.below(5000), 'a') + (s.chance(1, 2) ? ".com" : "");
    }
}

void c27(Ctx& c)
{
    auto& s = c.src;
    if(c.index == 0)
    {
        // every unit and transaction identifier
        std::unordered_set<modbus::UnitIdentifier> set;
        for(unsigned a = 0; a < 256; ++a)
        {
            modbus::UnitIdentifier x((uint8_t)a);
            if(x.get_value() != a) c.fail("C27/unit", "unit %u returns %u", a, (unsigned)x.get_value());
            for(unsigned b = 0; b < 256; ++b)
            {
                modbus::UnitIdentifier y((uint8_t)b);
                if((x == y) != (a == b) || (x != y) != (a != b)) c.fail("C27/unit-equal", "units %u and %u compare wrongly", a, b);
                if(a == b && std::hash<modbus::UnitIdentifier>()(x) != std::hash<modbus::UnitIdentifier>()(y)) c.fail("C27/hash", "equal units hash differently");
            }
            set.insert(x);
            check_print(c, x, unit_text(a), Format{std::ios_base::dec});
        }
        if(set.size() != 256) c.fail("C27/hash", "a set of all units has %zu elements", set.size());
        modbus::TransactionIdentifier t(0);
        for(unsigned a = 0; a < 65536 * 2; ++a)
        {
            if(t.get_value() != (a & 0xFFFF)) c.fail("C27/tid-count", "after %u increments the identifier is %u", a, (unsigned)t.get_value());
            std::ostringstream o;
            o << t;
            if(o.str() != tid_text(a & 0xFFFF)) c.fail("C27/print", "transaction %u prints as \"%s\"", a & 0xFFFF, o.str().c_str());
            if(a & 1) { auto old = t++; if(old.get_value() != (a & 0xFFFF)) c.fail("C27/tid-count", "the post-increment returns %u", (unsigned)old.get_value()); }
            else { auto& r = ++t; if(&r != &t) c.fail("C27/tid-count", "the pre-increment does not return the identifier itself"); }
        }
        c.label("all identifiers");
        c.nontrivial();
        return;
    }
    const Format f = Format::gen(s);
    // units
    const uint8_t a = s.byte(), b = s.chance(1, 2) ? a : (uint8_t)(a ^ (1u << s.below(8)));
    const modbus::UnitIdentifier x(a), y(b);
    const modbus::UnitIdentifier z = x;
    c.note("units %u %u, %s", a, b, f.str().c_str());
    if(x.get_value() != a || z.get_value() != a) c.fail("C27/unit", "unit %u returns %u", a, (unsigned)x.get_value());
    if((x == y) != (a == b) || (x != y) != (a != b) || !(z == x)) c.fail("C27/unit-equal", "units %u and %u compare wrongly", a, b);
    if(a == b && std::hash<modbus::UnitIdentifier>()(x) != std::hash<modbus::UnitIdentifier>()(y)) c.fail("C27/hash", "equal units hash differently");
    if(modbus::UnitIdentifier::default_unit_identifier().get_value() != 0xFF) c.fail("C27/default", "the default unit is not 0xFF");
    check_print(c, x, unit_text(a), f);
    // maps keyed by unit
    {
        std::unordered_map<modbus::UnitIdentifier, int> m;
        std::map<int, int> r;
        for(size_t n = s.below(40); n; --n)
        {
            const uint8_t k = s.byte();
            if(s.chance(1, 4)) { if(m.erase(modbus::UnitIdentifier(k)) != r.erase(k)) c.fail("C27/hash", "erasing unit %u from a hash map goes wrong", k); }
            else { const int val = (int)s.below(1000); m[modbus::UnitIdentifier(k)] = val; r[k] = val; }
        }
        if(m.size() != r.size()) c.fail("C27/hash", "a hash map keyed by unit has %zu elements instead of %zu", m.size(), r.size());
        for(auto& e : r) { auto it = m.find(modbus::UnitIdentifier((uint8_t)e.first)); if(it == m.end() || it->second != e.second) c.fail("C27/hash", "unit %d is lost in a hash map", e.first); }
    }
    // transaction identifiers
    const uint16_t ta = s.u16_i(), tb = s.chance(1, 2) ? ta : s.chance(1, 2) ? (uint16_t)(ta ^ (1u << s.below(16))) : s.u16();
    modbus::TransactionIdentifier u(ta), w(tb);
    c.note("transactions %u %u", ta, tb);
    if((u == w) != (ta == tb) || (u != w) != (ta != tb)) c.fail("C27/tid-equal", "transactions %u and %u compare wrongly", ta, tb);
    uint16_t model = ta;
    for(size_t n = s.below(30); n; --n)
    {
        if(s.chance(1, 2)) { auto& r = ++u; ++model; if(&r != &u) c.fail("C27/tid-count", "the pre-increment does not return the identifier itself"); }
        else { auto old = u++; if(old.get_value() != model) c.fail("C27/tid-count", "the post-increment returns %u instead of %u", (unsigned)old.get_value(), model); ++model; }
        if(u.get_value() != model) c.fail("C27/tid-count", "the incremented identifier is %u instead of %u", (unsigned)u.get_value(), model);
    }
    check_print(c, u, tid_text(model), f);
    if(w.get_value() != tb) c.fail("C27/tid", "transaction %u returns %u", tb, (unsigned)w.get_value());
    // endpoints
    const std::string h = gen_host(s);
    std::string h2 = s.chance(1, 2) ? h : gen_host(s);
    if(s.chance(1, 4)) { h2 = h; if(h2.empty() || s.chance(1, 3)) h2 += s.chance(1, 2) ? '\0' : 'x'; else h2[s.below(h2.size())] ^= (char)(1 << s.below(8)); }
    const uint32_t p = s.chance(1, 2) ? s.u16_i() : (uint32_t)s.below(1ull << 32), p2 = s.chance(1, 2) ? p : s.chance(1, 2) ? p ^ (1u << s.below(32)) : p + 65536;
    const modbus::Ipv4Endpoint e(h, p), e2(h2, p2), e3 = e;
    c.note("endpoints %s:%u %s:%u", pbt::hex((const uint8_t*)h.data(), h.size(), 40).c_str(), p, pbt::hex((const uint8_t*)h2.data(), h2.size(), 40).c_str(), p2);
    if(e.get_hostname() != h || e.get_port() != p || e3.get_hostname() != h || e3.get_port() != p) c.fail("C27/endpoint", "an endpoint does not return its components");
    const bool eq = h == h2 && p == p2;
    if((e == e2) != eq || (e2 == e) != eq || (e != e2) == eq || (e2 != e) == eq || !(e == e3) || e != e3) c.fail("C27/endpoint-equal", "the endpoints compare wrongly");
    c.label(eq ? "equal endpoints" : h == h2 ? "endpoints differ in the port" : p == p2 ? "endpoints differ in the host" : "endpoints differ");
    if(f.flags != (std::ios_base::dec | std::ios_base::skipws)) c.nontrivial();
}

pbt::Register r26([] {
    pbt::Property p;
    p.id = "C26";
    p.run = c26;
    p.quick_cases = 60000;
    p.thorough_cases = 3000000;
    p.rule = "random sequences of building (value copied or moved in, error object, exception_ptr), copying, moving, querying, changing through get() and destroying results in one to five slots, for eleven value types (instances tracked by address, heap-owning, over-aligned, with an initializer-list constructor, move-only, exception_ptr itself) and errors of seventeen types related by (multiple, ambiguous, private) inheritance; "
             "after each step the queries are compared with the model (is_valid, get, has_exception<E>, get_exception, get_exception<E>, exceptions thrown) and at the end no tracked object may be left. Non-trivial = at least three queried results, one of them an error.";
    p.required_labels = {"error", "copy", "move", "slicing refused", "copy of the value fails"};
    return p;
}());
pbt::Register r27([] {
    pbt::Property p;
    p.id = "C27";
    p.run = c27;
    p.quick_cases = 300000;
    p.thorough_cases = 10000000;
    p.rule = "case 0: all 256 x 256 pairs of units, all 65536 transaction identifiers printed and counted through two wrap-arounds; then random pairs of identifiers and endpoints (equal, differing in one bit, with embedded NULs, ports beyond 16 bits) compared, hashed and used as map keys, and printed on streams with random flags, fill, width, precision and a grouping locale. "
             "Non-trivial = the stream has other than the default flags. A field width may be honoured by padding or ignored.";
    p.required_labels = {"all identifiers", "equal endpoints", "endpoints differ in the port", "endpoints differ in the host"};
    return p;
}());

} // namespace
