#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" __attribute__((weak)) const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=1:symbolize=0:use_sigaltstack=0";
}
extern "C" __attribute__((weak)) const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=99"; }
extern "C" __attribute__((weak)) const char* __tsan_default_options()
{
    return "exitcode=66:halt_on_error=1:second_deadlock_stack=1:report_signal_unsafe=0:symbolize=0:die_after_fork=0";
}

namespace pbt {

static uint64_t splitmix(uint64_t& x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t x = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x632be59bd9b4e019ULL);
    splitmix(x);
    return splitmix(x);
}

Src::Src(uint64_t seed) : m_mode(0) { uint64_t x = seed; for(auto& s : m_s) s = splitmix(x); }
Src::Src(std::vector<uint64_t> c) : m_mode(1), m_in(std::move(c)) {}
Src::Src(const uint8_t* d, size_t n) : m_mode(2), m_data(d), m_size(n) {}

uint64_t Src::below(uint64_t n)
{
    uint64_t v = 0;
    if(n == 0) n = 1;
    if(m_mode == 0)
    {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const uint64_t r = rotl(m_s[1] * 5, 7) * 9, t = m_s[1] << 17;
        m_s[2] ^= m_s[0]; m_s[3] ^= m_s[1]; m_s[1] ^= m_s[2]; m_s[0] ^= m_s[3]; m_s[2] ^= t; m_s[3] = rotl(m_s[3], 45);
        v = (uint64_t)(((unsigned __int128)r * n) >> 64);
    }
    else if(m_mode == 1)
    {
        v = m_pos < m_in.size() ? m_in[m_pos] : 0;
        ++m_pos;
        if(v >= n) v = n - 1;
    }
    else
    {
        uint64_t lim = n - 1, acc = 0;
        while(lim)
        {
            acc = (acc << 8) | (m_pos < m_size ? m_data[m_pos] : 0);
            ++m_pos;
            lim >>= 8;
        }
        v = acc % n;
    }
    m_rec.push_back(v);
    return v;
}
uint8_t Src::byte_i()
{
    static const uint8_t t[] = {0, 1, 2, 3, 5, 6, 0x0f, 0x10, 0x7f, 0x80, 0xfe, 0xff};
    return chance(1, 3) ? byte() : t[below(sizeof t)];
}
uint16_t Src::u16_i()
{
    static const uint16_t t[] = {0, 1, 2, 7, 8, 9, 0x7b, 0x7c, 0x7d, 0x7e, 0xff, 0x100, 0x7b0, 0x7b1, 0x7d0, 0x7d1, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff};
    return chance(2, 3) ? u16() : t[below(sizeof t / sizeof t[0])];
}
std::vector<uint8_t> Src::bytes(size_t n)
{
    std::vector<uint8_t> v(n);
    for(auto& b : v) b = byte();
    return v;
}
size_t Src::weighted(std::initializer_list<unsigned> w)
{
    uint64_t total = 0;
    for(auto x : w) total += x;
    uint64_t r = below(total);
    size_t i = 0;
    for(auto x : w) { if(r < x) return i; r -= x; ++i; }
    return 0;
}
size_t Src::begin_span() { m_spans.push_back({(uint32_t)m_rec.size(), (uint32_t)m_rec.size()}); return m_spans.size() - 1; }
void Src::end_span(size_t t) { m_spans[t].end = (uint32_t)m_rec.size(); }

static std::string vfmt(const char* f, va_list ap)
{
    va_list a2;
    va_copy(a2, ap);
    int n = vsnprintf(nullptr, 0, f, a2);
    va_end(a2);
    std::string s(n > 0 ? n : 0, '\0');
    if(n > 0) vsnprintf(&s[0], n + 1, f, ap);
    return s;
}
std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }
std::string hex(const uint8_t* p, size_t n, size_t max)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    for(size_t i = 0; i < n && i < max; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
    if(n > max) s += fmt("..(%zu bytes)", n);
    return s;
}

void Ctx::note(const char* f, ...)
{
    if(trace.size() > 400000) return;
    va_list ap; va_start(ap, f);
    trace += vfmt(f, ap);
    va_end(ap);
    trace += '\n';
    if(verbose) { fprintf(stderr, "%s", trace.c_str() + (trace.rfind('\n', trace.size() - 2) + 1)); fflush(stderr); }
}
void Ctx::fail(const char* key, const char* f, ...)
{
    va_list ap; va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    throw Failure{key, s, false};
}
void Ctx::fail_soft(const char* key, const char* f, ...)
{
    va_list ap; va_start(ap, f);
    auto s = vfmt(f, ap);
    va_end(ap);
    throw Failure{key, s, true};
}

// ---------------------------------------------------------------------------------------------
static std::map<std::string, Property>& registry() { static std::map<std::string, Property> r; return r; }
Register::Register(Property p) { registry()[p.id] = std::move(p); }
const Property* find_property(const std::string& id)
{
    auto it = registry().find(id);
    return it == registry().end() ? nullptr : &it->second;
}

static std::map<std::string, std::string> g_known;   // key -> description, for the current property
bool Ctx::known(const std::string& key)
{
    if(!g_known.count(key)) return false;
    known_hits.push_back(key);
    return true;
}

enum Outcome { PASS = 0, FAIL = 1, SOFTFAIL = 2, CRASH = 3, HANG = 4, DISCARD = 5, INCONCL = 6 };
static const char* outcome_name(int o)
{
    static const char* n[] = {"pass", "fail", "soft-fail", "crash", "hang", "discard", "inconclusive"};
    return n[o];
}

struct RunResult
{
    int outcome = PASS;
    std::string key, message, trace;
    std::vector<uint64_t> choices;
    std::vector<Span> spans;
};

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static int run_in_process(const Property& p, Ctx& ctx, std::string& key, std::string& message)
{
    try { p.run(ctx); }
    catch(const Failure& f) { key = f.key; message = f.message; return f.soft ? SOFTFAIL : FAIL; }
    catch(const Discard&) { return DISCARD; }
    catch(const Inconclusive& i) { message = i.why; return INCONCL; }
    catch(const std::exception& e) { key = "uncaught-exception"; message = std::string("uncaught exception: ") + e.what(); return FAIL; }
    catch(...) { key = "uncaught-exception"; message = "uncaught non-standard exception"; return FAIL; }
    return PASS;
}

// -- shared memory used to get results back from a child
static const size_t SHM_SIZE = 16u << 20;
struct Shm
{
    uint8_t* base;
    Shm() { base = (uint8_t*)mmap(nullptr, SHM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if(base == MAP_FAILED) { perror("mmap"); _exit(3); } }
    ~Shm() { munmap(base, SHM_SIZE); }
};
struct Writer
{
    uint8_t* p; uint8_t* end;
    void u64(uint64_t v) { if(p + 8 <= end) { memcpy(p, &v, 8); p += 8; } }
    void str(const std::string& s) { uint64_t n = std::min<uint64_t>(s.size(), (uint64_t)std::max<int64_t>(0, end - p - 8)); u64(n); if(p + n <= end) { memcpy(p, s.data(), n); p += n; } }
};
struct Reader
{
    uint8_t* p; uint8_t* end;
    uint64_t u64() { uint64_t v = 0; if(p + 8 <= end) { memcpy(&v, p, 8); p += 8; } return v; }
    std::string str() { uint64_t n = u64(); n = std::min<uint64_t>(n, end - p); std::string s((char*)p, n); p += n; return s; }
};

static std::string g_scratch;
static std::string read_file(const std::string& path, size_t max = 60000)
{
    std::ifstream f(path, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(f)), {});
    if(s.size() > max) s = s.substr(0, max / 2) + "\n[...]\n" + s.substr(s.size() - max / 2);
    return s;
}

static void redirect_stderr(const std::string& path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

// what kind of crash is it (from the sanitizer output), used to shrink towards the same failure
static std::string crash_key(const std::string& err, int status)
{
    auto grab = [&](const char* what) -> std::string {
        auto i = err.find(what);
        if(i == std::string::npos) return "";
        auto e = err.find_first_of(" \n(", i + strlen(what));
        return err.substr(i + strlen(what), e - i - strlen(what));
    };
    auto s = grab("ERROR: AddressSanitizer: ");
    if(!s.empty()) return "asan:" + s;
    s = grab("WARNING: ThreadSanitizer: ");
    if(!s.empty()) return "tsan:" + s;
    if(err.find("runtime error: ") != std::string::npos)
    {
        auto i = err.find("runtime error: ");
        return "ubsan:" + err.substr(i + 15, std::min<size_t>(40, err.find('\n', i) - i - 15));
    }
    if(err.find("ser4cpp stand-in: out-of-range") != std::string::npos) return "sequence-out-of-range";
    if(WIFSIGNALED(status)) return fmt("signal:%d", WTERMSIG(status));
    return fmt("exit:%d", WEXITSTATUS(status));
}

// Runs one case in a forked child
static RunResult run_child(const Property& p, Src src, uint64_t index, bool thorough, double timeout)
{
    RunResult r;
    Shm shm;
    memset(shm.base, 0, 64);
    const std::string errf = g_scratch + fmt("/child-%d.err", getpid());
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if(pid == 0)
    {
        setpgid(0, 0);
        redirect_stderr(errf);
        Ctx ctx(src, index, thorough, false);
        std::string key, msg;
        int o = run_in_process(p, ctx, key, msg);
        Writer w{shm.base + 8, shm.base + SHM_SIZE};
        w.u64(o); w.str(key); w.str(msg); w.str(ctx.trace);
        w.u64(src.recorded().size()); for(auto v : src.recorded()) w.u64(v);
        w.u64(src.spans().size()); for(auto& s : src.spans()) { w.u64(s.begin); w.u64(s.end); }
        *(volatile uint64_t*)shm.base = 1;
        _exit(0);
    }
    setpgid(pid, pid);
    const double t0 = now();
    int status = 0;
    bool done = false, hang = false;
    while(!done)
    {
        pid_t x = waitpid(pid, &status, WNOHANG);
        if(x == pid) { done = true; break; }
        if(now() - t0 > timeout) { hang = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
        usleep(now() - t0 < 0.05 ? 500 : 5000);
    }
    kill(-pid, SIGKILL);
    if(hang) { r.outcome = HANG; r.key = "hang"; r.message = fmt("no result within %.0f s", timeout); }
    else if(*(uint64_t*)shm.base == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0)
    {
        Reader rd{shm.base + 8, shm.base + SHM_SIZE};
        r.outcome = (int)rd.u64(); r.key = rd.str(); r.message = rd.str(); r.trace = rd.str();
        r.choices.resize(std::min<uint64_t>(rd.u64(), SHM_SIZE / 8)); for(auto& v : r.choices) v = rd.u64();
        r.spans.resize(std::min<uint64_t>(rd.u64(), SHM_SIZE / 16)); for(auto& s : r.spans) { s.begin = (uint32_t)rd.u64(); s.end = (uint32_t)rd.u64(); }
    }
    else
    {
        r.outcome = CRASH;
        auto err = read_file(errf);
        r.key = crash_key(err, status);
        r.message = err.empty() ? r.key : err;
    }
    unlink(errf.c_str());
    return r;
}

static std::string json_escape(const std::string& s)
{
    std::string o;
    for(unsigned char c : s)
    {
        if(c == '"') o += "\\\"";
        else if(c == '\\') o += "\\\\";
        else if(c == '\n') o += "\\n";
        else if(c == '\t') o += "\\t";
        else if(c < 0x20 || c > 0x7e) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}

struct WorkerShm
{
    volatile uint64_t current;       // index of the running case
    volatile uint64_t started_ms;
    volatile uint64_t finished;      // cases done
    volatile uint64_t failed_index;  // valid if failed
    volatile uint64_t failed;        // Outcome
};

static bool is_bad(int o) { return o == FAIL || o == SOFTFAIL || o == CRASH || o == HANG; }

static std::string sanitize(const std::string& s)
{
    std::string o;
    for(char c : s) o += (isalnum((unsigned char)c) || c == '-' || c == '_') ? c : '_';
    return o.substr(0, 48);
}

static void write_replay(const std::string& path, const Property& p, uint64_t seed, uint64_t index, bool thorough, const RunResult& r, bool have_choices)
{
    std::ofstream f(path);
    f << "property " << p.id << "\nseed " << seed << "\nindex " << index << "\ntier " << (thorough ? "thorough" : "quick")
      << "\noutcome " << outcome_name(r.outcome) << "\nkey " << r.key << "\n";
    if(have_choices)
    {
        f << "choices " << r.choices.size();
        for(auto v : r.choices) f << ' ' << v;
        f << "\n";
    }
    f << "--- message\n" << r.message << "\n--- trace of the case\n" << r.trace << "\n";
}

static bool parse_replay(const std::string& path, std::string& id, uint64_t& seed, uint64_t& index, bool& thorough, bool& have_choices, std::vector<uint64_t>& choices)
{
    std::ifstream f(path);
    if(!f) return false;
    std::string line;
    have_choices = false;
    while(std::getline(f, line))
    {
        if(line.rfind("---", 0) == 0) break;
        std::istringstream is(line);
        std::string k; is >> k;
        if(k == "property") is >> id;
        else if(k == "seed") is >> seed;
        else if(k == "index") is >> index;
        else if(k == "tier") { std::string t; is >> t; thorough = t == "thorough"; }
        else if(k == "choices") { have_choices = true; size_t n; is >> n; choices.resize(n); for(auto& v : choices) is >> v; }
    }
    return !id.empty();
}

// used to get the choices of a case that crashes (see the end of this file)
extern uint64_t* g_choice_log;
extern size_t g_choice_cap;
extern Src* g_src_for_log;
void arm_choice_dump();

static uint64_t case_seed(uint64_t seed, const std::string& id, uint64_t index)
{
    uint64_t h = 1469598103934665603ULL;
    for(char c : id) h = (h ^ (uint8_t)c) * 1099511628211ULL;
    return mix(mix(seed, h), index);
}

static std::string verif_dir()
{
    const char* d = getenv("VERIF_DIR");
    return d ? d : "/verif";
}

static void load_known(const std::string& id)
{
    // lines: finding: property=<id> key=<key> <description>   /   fixed: property=<id> <commit> <text>
    std::ifstream f(verif_dir() + "/known_findings.txt");
    std::string line;
    while(std::getline(f, line))
    {
        if(line.rfind("finding:", 0) != 0) continue;
        std::istringstream is(line.substr(8));
        std::string a, b;
        is >> a >> b;
        if(a != "property=" + id || b.rfind("key=", 0) != 0) continue;
        std::string rest;
        std::getline(is, rest);
        g_known[b.substr(4)] = rest.empty() ? b.substr(4) : rest.substr(1);
    }
}

static RunResult shrink(const Property& p, RunResult best, uint64_t index, bool thorough, double budget, unsigned& attempts)
{
    const double t0 = now();
    std::set<std::vector<uint64_t>> seen;
    auto out_of_budget = [&] { return now() - t0 > budget || attempts > 4000; };
    auto try_it = [&](const std::vector<uint64_t>& c) -> bool {
        if(out_of_budget()) return false;
        if(!seen.insert(c).second) return false;
        ++attempts;
        auto r = run_child(p, Src(c), index, thorough, best.outcome == HANG ? p.case_timeout_s : p.case_timeout_s);
        if(r.outcome != best.outcome || r.key != best.key) return false;
        if(r.outcome == CRASH || r.outcome == HANG) { r.choices = c; r.spans = best.spans; }
        while(!r.choices.empty() && r.choices.back() == 0) r.choices.pop_back();
        auto cost = [](const std::vector<uint64_t>& v) { return v.size(); };
        if(cost(r.choices) > cost(best.choices)) return false;
        if(cost(r.choices) == cost(best.choices) && !(r.choices < best.choices)) return false;
        best = r;
        return true;
    };
    bool progress = true;
    while(progress && !out_of_budget())
    {
        progress = false;
        // delete groups, last first, big first
        if(best.outcome != CRASH && best.outcome != HANG)
        {
            auto spans = best.spans;
            std::stable_sort(spans.begin(), spans.end(), [](const Span& a, const Span& b) { return a.end - a.begin > b.end - b.begin; });
            for(size_t i = 0; i < spans.size() && !out_of_budget(); ++i)
            {
                auto s = spans[i];
                if(s.end > best.choices.size() || s.begin >= s.end) continue;
                auto c = best.choices;
                c.erase(c.begin() + s.begin, c.begin() + s.end);
                if(try_it(c)) { progress = true; break; }
            }
            if(progress) continue;
        }
        for(size_t blk : {64, 32, 16, 8, 4, 3, 2, 1})
        {
            for(size_t i = best.choices.size(); i-- > 0 && !out_of_budget();)
            {
                if(i + blk > best.choices.size()) continue;
                auto c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + blk);
                if(try_it(c)) { progress = true; if(i > best.choices.size()) i = best.choices.size(); }
            }
        }
        for(size_t blk : {16, 4, 1})
        {
            for(size_t i = 0; i < best.choices.size() && !out_of_budget(); i += blk)
            {
                auto c = best.choices;
                bool any = false;
                for(size_t j = i; j < i + blk && j < c.size(); ++j) if(c[j]) { c[j] = 0; any = true; }
                if(any && try_it(c)) progress = true;
            }
        }
        for(size_t i = 0; i < best.choices.size() && !out_of_budget(); ++i)
        {
            uint64_t lo = 0, hi = best.choices[i];
            while(hi > lo + 1 && i < best.choices.size() && !out_of_budget())
            {
                uint64_t mid = lo + (hi - lo) / 2;
                auto c = best.choices;
                c[i] = mid;
                if(try_it(c)) { hi = mid; progress = true; } else lo = mid;
            }
            if(i < best.choices.size() && best.choices[i] > 0)
            {
                auto c = best.choices;
                --c[i];
                if(try_it(c)) progress = true;
            }
        }
    }
    return best;
}

static int replay_main(const std::string& path)
{
    std::string id; uint64_t seed = 1, index = 0; bool thorough = false, have = false; std::vector<uint64_t> choices;
    if(!parse_replay(path, id, seed, index, thorough, have, choices)) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    auto* p = find_property(id);
    if(!p) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
    load_known(id);
    Src src = have ? Src(choices) : Src(case_seed(seed, id, index));
    Ctx ctx(src, index, thorough, true);
    std::string key, msg;
    int o = run_in_process(*p, ctx, key, msg);
    fprintf(stderr, "=> %s %s: %s\n", outcome_name(o), key.c_str(), msg.c_str());
    fflush(stderr);
    _exit(is_bad(o) ? 1 : 0);
}

int main(int argc, char** argv)
{
    setvbuf(stdout, nullptr, _IOLBF, 0);
    signal(SIGPIPE, SIG_IGN);
    if(argc >= 3 && std::string(argv[1]) == "--replay") return replay_main(argv[2]);
    if(argc < 2) { for(auto& kv : registry()) printf("%s\n", kv.first.c_str()); return 2; }
    const std::string id = argv[1];
    auto* pp = find_property(id);
    if(!pp) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
    const Property& p = *pp;
    const char* s = getenv("VERIF_SEED");
    const uint64_t seed = s && *s ? strtoull(s, nullptr, 10) : 1;
    const char* t = getenv("VERIF_TIER");
    const bool thorough = t && std::string(t) == "thorough";
    uint64_t n_cases = thorough ? p.thorough_cases : p.quick_cases;
    if(const char* n = getenv("PBT_CASES")) n_cases = strtoull(n, nullptr, 10);
    double wall_cap = thorough ? p.thorough_wall_s : p.quick_wall_s;
    const double t0 = now();
    load_known(id);

    char tmpl[] = "/tmp/pbt-XXXXXX";
    if(!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
    g_scratch = tmpl;

    unsigned W = p.workers;
    if(const char* w = getenv("PBT_WORKERS")) W = (unsigned)atoi(w);
    if(W > n_cases) W = (unsigned)std::max<uint64_t>(1, n_cases);

    auto* ws = (WorkerShm*)mmap(nullptr, sizeof(WorkerShm) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)ws, 0, sizeof(WorkerShm) * W);
    auto ms = [] { return (uint64_t)(now() * 1000); };
    // workers take the cases in order from here, so that slow kinds of cases are spread over all of them
    auto* next_case = (std::atomic<uint64_t>*)mmap(nullptr, sizeof(std::atomic<uint64_t>), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new(next_case) std::atomic<uint64_t>(0);

    std::vector<pid_t> pids(W);
    for(unsigned w = 0; w < W; ++w)
    {
        pids[w] = fork();
        if(pids[w] == 0)
        {
            setpgid(0, 0);
            redirect_stderr(g_scratch + fmt("/w%u.err", w));
            std::map<std::string, uint64_t> labels;
            std::unordered_set<uint64_t> hashes;
            std::vector<std::string> samples;
            std::map<std::string, uint64_t> known;
            uint64_t evals = 0, discards = 0, inconcl = 0;
            for(uint64_t i; (i = next_case->fetch_add(1)) < n_cases;)
            {
                if(now() - t0 > wall_cap) break;
                ws[w].current = i;
                ws[w].started_ms = ms();
                Src src(case_seed(seed, id, i));
                Ctx ctx(src, i, thorough, false);
                std::string key, msg;
                int o = run_in_process(p, ctx, key, msg);
                if(o == SOFTFAIL)
                {
                    // most likely the machine was busy: go on unless it recurs
                    ws[w].started_ms = 0;
                    if(!is_bad(run_child(p, Src(case_seed(seed, id, i)), i, thorough, p.case_timeout_s).outcome))
                    {
                        ++evals; ++inconcl; labels["inconclusive: did not recur: " + key]++;
                        continue;
                    }
                }
                if(o == FAIL || o == SOFTFAIL)
                {
                    ws[w].failed_index = i;
                    ws[w].failed = o;
                    std::ofstream f(g_scratch + fmt("/w%u.fail", w));
                    f << key << "\n" << msg << "\n--- trace of the case\n" << ctx.trace;
                    f.close();
                    break;
                }
                ++evals;
                if(o == DISCARD) { ++discards; continue; }
                if(o == INCONCL) { ++inconcl; labels["inconclusive: " + msg]++; continue; }
                for(auto& l : ctx.labels) labels[l.first] += l.second;
                for(auto& k : ctx.known_hits) ++known[k];
                if(ctx.is_nontrivial)
                {
                    uint64_t h = 1469598103934665603ULL;
                    for(auto v : src.recorded()) h = mix(h, v);
                    if(src.recorded().empty()) h = mix(h, i);
                    bool fresh = hashes.insert(h).second;
                    if(fresh && samples.size() < 2 && ctx.trace.size() < 6000 && !ctx.trace.empty()) samples.push_back(ctx.trace);
                }
                ws[w].finished = evals;
            }
            ws[w].started_ms = 0;
            std::ofstream f(g_scratch + fmt("/w%u.res", w), std::ios::binary);
            auto put = [&](const std::string& x) { uint64_t n = x.size(); f.write((char*)&n, 8); f.write(x.data(), n); };
            auto pu = [&](uint64_t v) { f.write((char*)&v, 8); };
            pu(evals); pu(discards); pu(inconcl);
            pu(labels.size()); for(auto& l : labels) { put(l.first); pu(l.second); }
            pu(known.size()); for(auto& l : known) { put(l.first); pu(l.second); }
            pu(samples.size()); for(auto& x : samples) put(x);
            pu(hashes.size()); for(auto h : hashes) pu(h);
            f.close();
            _exit(0);
        }
        setpgid(pids[w], pids[w]);
    }

    // supervise
    std::vector<int> state(W, -1);       // -1 running, 0 ok, else Outcome
    std::vector<int> wstatus(W, 0);
    unsigned running = W;
    bool stop = false;
    double stop_at = 0;
    while(running)
    {
        for(unsigned w = 0; w < W; ++w)
        {
            if(state[w] != -1) continue;
            int status;
            pid_t x = waitpid(pids[w], &status, WNOHANG);
            if(x == pids[w])
            {
                --running;
                wstatus[w] = status;
                kill(-pids[w], SIGKILL);
                if(ws[w].failed) state[w] = (int)ws[w].failed;
                else if(WIFEXITED(status) && WEXITSTATUS(status) == 0) state[w] = 0;
                else { state[w] = CRASH; ws[w].failed_index = ws[w].current; }
                if(state[w] != 0 && !stop) { stop = true; stop_at = now(); }
                continue;
            }
            const uint64_t st = ws[w].started_ms;
            const bool hang = st && ms() > st + (uint64_t)(p.case_timeout_s * 1000);
            if(hang || (stop && now() > stop_at + 1.0) || now() - t0 > wall_cap + p.case_timeout_s + 30)
            {
                kill(-pids[w], SIGKILL);
                kill(pids[w], SIGKILL);
                waitpid(pids[w], &status, 0);
                --running;
                if(hang) { state[w] = HANG; ws[w].failed_index = ws[w].current; stop = true; if(stop_at == 0) stop_at = now(); }
                else state[w] = -2; // stopped by us
            }
        }
        usleep(2000);
    }

    // merge
    uint64_t evals = 0, discards = 0, inconcl = 0;
    std::map<std::string, uint64_t> labels, known;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    for(unsigned w = 0; w < W; ++w)
    {
        std::ifstream f(g_scratch + fmt("/w%u.res", w), std::ios::binary);
        if(!f) { evals += ws[w].finished; continue; }
        auto gu = [&] { uint64_t v = 0; f.read((char*)&v, 8); return v; };
        auto gs = [&] { uint64_t n = gu(); std::string x(n, '\0'); f.read(&x[0], n); return x; };
        evals += gu(); discards += gu(); inconcl += gu();
        for(uint64_t n = gu(); n; --n) { auto k = gs(); labels[k] += gu(); }
        for(uint64_t n = gu(); n; --n) { auto k = gs(); known[k] += gu(); }
        for(uint64_t n = gu(); n; --n) samples.push_back(gs());
        for(uint64_t n = gu(); n; --n) hashes.insert(gu());
    }

    // examine failures
    int violations = 0;
    bool error = false;
    std::string unconfirmed;
    std::vector<std::pair<uint64_t, unsigned>> bad;
    for(unsigned w = 0; w < W; ++w) if(state[w] > 0) bad.push_back({ws[w].failed_index, w});
    std::sort(bad.begin(), bad.end());
    std::string self = "/proc/self/exe";
    { char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1); if(n > 0) { buf[n] = 0; self = buf; } }
    for(auto& b : bad)
    {
        const uint64_t index = b.first;
        const unsigned w = b.second;
        const int orig = state[w];
        std::string orig_text = read_file(g_scratch + fmt("/w%u.fail", w)), orig_err = read_file(g_scratch + fmt("/w%u.err", w));
        // does it reproduce?
        RunResult first;
        int repro = 0, tries = orig == FAIL || orig == CRASH ? 6 : 3;
        for(int k = 0; k < tries && repro < 3; ++k)
        {
            auto r = run_child(p, Src(case_seed(seed, id, index)), index, thorough, p.case_timeout_s);
            if(is_bad(r.outcome)) { if(!repro) first = r; ++repro; }
            else if((orig == SOFTFAIL || orig == HANG)) break;
        }
        evals += 1;
        const bool soft = orig == SOFTFAIL || orig == HANG;
        if(orig == HANG && !p.hang_is_violation) { ++inconcl; continue; }
        if(soft && repro < 3)
        {
            ++inconcl;
            unconfirmed += fmt("case %llu: %s did not reproduce; counted as inconclusive. ", (unsigned long long)index, outcome_name(orig));
            fprintf(stderr, "note: case %llu (%s) did not reproduce 3 times: inconclusive\n%s\n", (unsigned long long)index, outcome_name(orig), orig_text.substr(0, 1000).c_str());
            continue;
        }
        bool have_choices = false;
        RunResult best;
        if(repro)
        {
            best = first;
            unsigned attempts = 0;
            if(first.outcome == CRASH || first.outcome == HANG)
            {
                // the child could not report its choices: log them through a shared mapping
                Shm shm;
                *(uint64_t*)shm.base = 0;
                pid_t pid = fork();
                if(pid == 0)
                {
                    setpgid(0, 0);
                    redirect_stderr("/dev/null");
                    g_choice_log = (uint64_t*)shm.base; g_choice_cap = SHM_SIZE / 8 - 1;
                    Src src(case_seed(seed, id, index));
                    Ctx ctx(src, index, thorough, false);
                    std::string key, msg;
                    g_src_for_log = &src;
                    arm_choice_dump();
                    run_in_process(p, ctx, key, msg);
                    _exit(0);
                }
                const double c0 = now();
                int st;
                while(waitpid(pid, &st, WNOHANG) == 0) { if(now() - c0 > p.case_timeout_s) { kill(pid, SIGUSR2); usleep(300000); kill(-pid, SIGKILL); waitpid(pid, &st, 0); break; } usleep(2000); }
                uint64_t n = *(uint64_t*)shm.base;
                if(n && n < SHM_SIZE / 8)
                {
                    best.choices.assign((uint64_t*)shm.base + 1, (uint64_t*)shm.base + 1 + n);
                    have_choices = true;
                }
            }
            else have_choices = true;
            if(have_choices)
            {
                // does the recorded form reproduce?
                auto r = run_child(p, Src(best.choices), index, thorough, p.case_timeout_s);
                if(r.outcome == best.outcome && r.key == best.key) { if(!getenv("PBT_NOSHRINK")) best = shrink(p, best, index, thorough, p.shrink_s, attempts); }
                else if(!is_bad(r.outcome)) have_choices = false;
            }
        }
        else
        {
            best.outcome = orig;
            best.key = orig == CRASH ? crash_key(orig_err, wstatus[w]) : orig_text.substr(0, orig_text.find('\n'));
            best.message = orig == CRASH ? orig_err : orig_text;
        }
        if(best.message.empty()) best.message = orig_text + orig_err;
        mkdir((verif_dir() + "/replays").c_str(), 0777);
        const std::string path = verif_dir() + "/replays/" + id + "-" + sanitize(best.key) + ".replay";
        write_replay(path, p, seed, index, thorough, best, have_choices);
        printf("violation of %s: %s [%s] case %llu, %zu choices after shrinking, reproduced %d time(s)\n", id.c_str(), best.key.c_str(),
               outcome_name(best.outcome), (unsigned long long)index, best.choices.size(), repro);
        printf("%s\n", best.message.substr(0, 3000).c_str());
        if(!best.trace.empty()) printf("--- minimal case:\n%s\n", best.trace.substr(0, 4000).c_str());
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
        ++violations;
        break;
    }
    for(unsigned w = 0; w < W; ++w) if(state[w] == -2 && !violations && !stop) error = true;

    if(!violations && bad.empty())
    {
        for(auto& l : p.required_labels)
        {
            if(!labels.count(l)) { fprintf(stderr, "error: the generators never reached '%s'\n", l.c_str()); if(!getenv("PBT_CASES")) error = true; }
        }
    }
    for(auto& k : g_known) printf("KNOWN-FINDING: property=%s %s (met in %llu cases of this run)\n", id.c_str(), k.second.c_str(), (unsigned long long)known[k.first]);

    mkdir((verif_dir() + "/evidence").c_str(), 0777);
    {
        std::ofstream f(verif_dir() + "/evidence/" + id + ".json");
        f << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"" << p.level << "\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hashes.size()
          << ",\n  \"rule\": \"" << json_escape(p.rule) << "\",\n  \"discarded\": " << discards << ",\n  \"inconclusive\": " << inconcl
          << ",\n  \"planned\": " << n_cases;
        f << ",\n  \"classes\": {";
        bool c = false;
        for(auto& l : labels) { f << (c ? ", " : "") << "\"" << json_escape(l.first) << "\": " << l.second; c = true; }
        f << "},\n  \"samples\": [";
        c = false;
        size_t ns = 0;
        for(auto& x : samples) { if(ns++ >= 4) break; f << (c ? ",\n   " : "\n   ") << "\"" << json_escape(x.substr(0, 1500)) << "\""; c = true; }
        f << "]\n },\n \"assumptions\": [";
        c = false;
        for(auto& x : p.assumptions) { f << (c ? ", " : "") << "\"" << json_escape(x) << "\""; c = true; }
        f << "],\n \"wall_s\": " << fmt("%.2f", now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s %s: %llu cases, %zu distinct non-trivial, %llu inconclusive, %.1f s\n", id.c_str(), thorough ? "thorough" : "quick",
           (unsigned long long)evals, hashes.size(), (unsigned long long)inconcl, now() - t0);
    std::string listing;
    for(auto& l : labels) listing += fmt("  %s=%llu", l.first.c_str(), (unsigned long long)l.second);
    printf("classes:%s\n", listing.c_str());
    for(unsigned w = 0; w < W; ++w) for(const char* e : {"err", "res", "fail"}) unlink((g_scratch + fmt("/w%u.%s", w, e)).c_str());
    rmdir(g_scratch.c_str());
    if(violations) return 1;
    return error ? 2 : 0;
}

// -- getting the choices of a case that crashes --------------------------------------------------
uint64_t* g_choice_log = nullptr;
size_t g_choice_cap = 0;
Src* g_src_for_log = nullptr;

static void dump_choices()
{
    if(!g_choice_log || !g_src_for_log) return;
    auto& r = g_src_for_log->recorded();
    size_t n = std::min(r.size(), g_choice_cap);
    memcpy(g_choice_log + 1, r.data(), n * 8);
    *g_choice_log = n;
}
static void on_sig(int s) { dump_choices(); signal(s, SIG_DFL); if(s == SIGUSR2) _exit(1); raise(s); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
void arm_choice_dump()
{
    if(__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump_choices);
    for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGUSR2, SIGTERM}) signal(s, on_sig);
}

} // namespace pbt
