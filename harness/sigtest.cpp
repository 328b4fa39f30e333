// Executes test programs against the library and records what happens, for validation
// against spec/Signals.tla (see SignalsTrace.tla for the events).
//
//   VR: result type of the slots  0 int, 1 void, 2 std::string
//   VC: combiner                  0 the library's default, 1 user defined (several modes)
//
// usage: sigtest PROGRAMS OUT [SCHEDULES SEED [PROGRAM-ID SCHEDULE]]
#ifndef PLAIN
#include "interpose.hpp"
#endif
#include "sched.hpp"
#ifdef RACE
#include "race.hpp"
#endif
#include <signals.hpp>

#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <random>
#include <new>
#include <sanitizer/asan_interface.h>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#ifndef VR
#define VR 0
#endif
#ifndef VC
#define VC 0
#endif

// ---------------------------------------------------------------- shared with the parent
struct Shared
{
    volatile long progress;
    volatile int prog;          // index of the current program
    volatile int sched;         // number of the current schedule
    volatile int fatal;         // an event that ends the run was logged
    char name[4096];            // current schedule
    volatile size_t len;
    char buf[1 << 21];
};
static Shared* g_sh;

static void logs(const char* s, size_t n)
{
    if (g_sh->len + n + 64 > sizeof g_sh->buf) hz::fatal_event("overflow");
    memcpy(g_sh->buf + g_sh->len, s, n);
    g_sh->len = g_sh->len + n;
}
static void logev(const std::string& s)
{
    std::string r = (g_sh->len ? "," : "") + s;
    logs(r.data(), r.size());
    g_sh->progress = g_sh->progress + 1;
}
[[noreturn]] void hz::fatal_event(const char* what)
{
    std::string r = (g_sh->len ? "," : "") + std::string("{\"t\":") + std::to_string(tl_tid) + ",\"e\":\"" + what + "\"}";
    memcpy(g_sh->buf + g_sh->len, r.data(), r.size());
    g_sh->len = g_sh->len + r.size();
    g_sh->fatal = 1;
    _exit(77);
}

// ---------------------------------------------------------------- programs
struct Op
{
    std::map<std::string, std::string> f;
    std::string name;
    const std::string& str(const char* k) const { static const std::string e; auto i = f.find(k); return i == f.end() ? e : i->second; }
    int num(const char* k, int d = 0) const { auto i = f.find(k); return i == f.end() ? d : atoi(i->second.c_str()); }
};
struct Program
{
    std::string id;
    std::vector<std::vector<Op>> part;  // 0 setup, 1.. threads, last epilogue
};

static std::vector<Program> parse(const char* path)
{
    std::vector<Program> r;
    std::ifstream in(path);
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        std::istringstream ls(line);
        std::string w;
        ls >> w;
        if (w == "program") { r.emplace_back(); ls >> r.back().id; continue; }
        if (w == "part") { r.back().part.emplace_back(); continue; }
        Op o;
        o.name = w;
        while (ls >> w)
        {
            auto p = w.find('=');
            o.f[w.substr(0, p)] = w.substr(p + 1);
        }
        r.back().part.back().push_back(std::move(o));
    }
    return r;
}

// ---------------------------------------------------------------- values
struct UserEx { int x; };
struct CopyEx {};
// Exceptions of a slot: also types that the library itself uses or could handle.
struct StdEx : std::runtime_error { int x; explicit StdEx(int i) : std::runtime_error("user"), x(i) {} };
struct CmpEx : sig::not_comparable_exception { int x; explicit CmpEx(int i) : x(i) {} };
struct OptEx : opt::bad_optional_access { int x; explicit OptEx(int i) : opt::bad_optional_access("user"), x(i) {} };
struct WeakEx : std::bad_weak_ptr { int x; explicit WeakEx(int i) : x(i) {} };
struct CallEx : std::bad_function_call { int x; explicit CallEx(int i) : x(i) {} };
struct AllocEx : std::bad_alloc { int x; explicit AllocEx(int i) : x(i) {} };
[[noreturn]] static void throw_ex(int x)
{
    switch (x % 8)
    {
    case 1: throw UserEx{ x };
    case 2: throw StdEx(x);
    case 3: throw CmpEx(x);
    case 4: throw OptEx(x);
    case 5: throw WeakEx(x);
    case 6: throw CallEx(x);
    case 7: throw AllocEx(x);
    default: throw x;
    }
}

// Argument that is passed by value. A moved-from payload is recognisable.
struct Payload
{
    std::unique_ptr<int> p;
    Payload(int v) : p(new int(v)) {}
    Payload(const Payload& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Payload(Payload&& o) noexcept : p(std::move(o.p)) {}
    Payload& operator=(const Payload& o) { p.reset(o.p ? new int(*o.p) : nullptr); return *this; }
    Payload& operator=(Payload&& o) noexcept { p = std::move(o.p); return *this; }
    int get() const { return p ? *p : -5; }
};

// Argument that can neither be copied nor moved.
struct Solid
{
    Solid() {}
    Solid(const Solid&) = delete;
    virtual ~Solid() {}
};

// The arguments after the first.
#define REST int& rf, const Payload& cv, Solid& ab, Payload&& mv
#define PASS rf, cv, ab, static_cast<Payload&&>(mv)
struct Args { const int* rf; const Payload* cv; const Solid* ab; const Payload* mv; const Args* outer; };
static thread_local const Args* tl_args;    // the arguments of the innermost emission
struct ArgsScope
{
    Args a;
    ArgsScope(const int& rf, const Payload& cv, const Solid& ab, const Payload& mv) : a{ &rf, &cv, &ab, &mv, tl_args } { tl_args = &a; }
    ~ArgsScope() { tl_args = a.outer; }
};

#if VR == 0
using R = int;
static R mk(int v) { return v; }
static int un(const R& r) { return r; }
#elif VR == 1
using R = void;
static void mk(int) {}
#else
using R = std::string;
static R mk(int v) { return "a value that does not fit into the small string buffer:" + std::to_string(v); }
static int un(const R& r)
{
    int v = atoi(r.c_str() + std::min<size_t>(r.size(), r.find(':') + 1));
    return r == mk(v) ? v : -777;
}
#endif

#if VR == 1
static int unopt(const opt::optional<void>& o) { return o ? -778 : -1; }
#else
static int unopt(const opt::optional<R>& o) { return o ? un(*o) : -1; }
#endif

static thread_local const Op* tl_emit;      // the emission that is about to start
static thread_local int tl_tag;             // tag for the copies of a callable (0: keep)
static thread_local bool tl_copy;           // copying a callable runs user code (once)
static thread_local int tl_oom;             // number of the allocation of the library that fails

// User defined combiner with several ways to walk the results. It has state: every emission has a
// combiner of its own.
struct DynCombiner
{
    struct result_type { std::vector<int> r; };
    mutable result_type res;
    template<class It>
    result_type operator()(It first, It last) const
    {
        const Op* e = tl_emit;
        const std::string m = e->str("m");
        int fl = e->num("fl");
        if (m == "collect")
        {
            // Iterators are also used by the algorithms of the standard library.
            if (fl % 5 == 3) std::for_each(first, last, [&](auto&& v) { res.r.push_back(unopt(std::forward<decltype(v)>(v))); });
            else if (fl % 5 == 4) std::transform(first, last, std::back_inserter(res.r), [](auto&& v) { return unopt(std::forward<decltype(v)>(v)); });
            else if (fl % 5 == 0) for (; first != last; ++first) res.r.push_back(unopt(*first));
            else if (fl % 5 == 1) while (!(first == last)) res.r.push_back(unopt(*first++));
            else
            {
                It i = first;
                while (i != last) { It j(i); res.r.push_back(unopt(*j)); i.operator++(); }
            }
        }
        else if (m == "first")
        {
            if (fl % 2)
                (void)std::any_of(first, last, [&](auto&& o) { int v = unopt(std::forward<decltype(o)>(o)); if (v != -1) res.r = { v }; return v != -1; });
            else
                for (; first != last && res.r.empty(); ++first) { int v = unopt(*first); if (v != -1) res.r = { v }; }
        }
        else if (m == "odd")
        {
            while (first != last) { res.r.push_back(unopt(*first++)); if (first != last) { if (fl % 2) first++; else ++first; } }
        }
        else if (m == "abort")
        {
            for (; first != last; ++first) { if (res.r.size() == 2) break; res.r.push_back(unopt(*first)); }
            if (res.r.size() == 2) throw -6;
        }
        else if (m == "none") {}
        else if (m == "twice")
        {
            for (; first != last; ++first)
                for (int k = 0; k < 2; ++k) { int v = unopt(*first); if (v != -1) res.r = { v }; }
        }
        else
        {
            for (; first != last; ++first) { int v = unopt(*first); if (v != -1) res.r = { v }; }
        }
        return res;
    }
};

#if VC == 0
using Signal = sig::signal<R(Payload, int&, const Payload&, Solid&, Payload&&)>;
static std::vector<int> result(const opt::optional<R>& o) { int v = unopt(o); return v == -1 ? std::vector<int>{} : std::vector<int>{ v }; }
#else
using Signal = sig::signal<R(Payload, int&, const Payload&, Solid&, Payload&&), DynCombiner>;
static std::vector<int> result(const DynCombiner::result_type& o) { return o.r; }
#endif
using Slot = sig::slot<R(Payload, int&, const Payload&, Solid&, Payload&&)>;
static std::vector<int> resultsl(const opt::optional<R>& o) { int v = unopt(o); return v == -1 ? std::vector<int>{} : std::vector<int>{ v }; }

// ---------------------------------------------------------------- callables
static std::map<int, int> g_live;           // tag -> number of instances

static R body(int tag, int v, REST);
static void copied();

struct Counted
{
    int tag;
    explicit Counted(int t) : tag(t) { hz::UserScope u; if (tag) ++g_live[tag]; }
    Counted(const Counted& o) : tag(tl_tag ? tl_tag : o.tag) { hz::UserScope u; if (tl_copy) copied(); if (tag) ++g_live[tag]; }
    ~Counted() { hz::UserScope u; if (tag && --g_live[tag] == 0) g_live.erase(tag); }
    Counted& operator=(const Counted&) = delete;
};

// Things that are owned by a callable and do something when it is destroyed.
struct Hook
{
    int tag;
    ~Hook();
};
struct OwnBox { sig::scoped_connection c; std::unique_ptr<Hook> hook; };
using Own = std::shared_ptr<OwnBox>;

struct Fun : Counted        // comparable, takes the payload by value
{
    int key; Own own;
    Fun(int t, int k, Own o = {}) : Counted(t), key(k), own(std::move(o)) {}
    R operator()(Payload p, REST) { Payload q(std::move(p)); return body(tag, q.get(), PASS); }
    friend bool operator==(const Fun& a, const Fun& b) { return a.key == b.key; }
};
struct Fu2 : Counted        // comparable, a different type
{
    int key; Own own;
    Fu2(int t, int k, Own o = {}) : Counted(t), key(k), own(std::move(o)) {}
    R operator()(const Payload& p, REST) const { return body(tag, p.get(), PASS); }
    bool operator==(const Fu2& b) const { return key == b.key; }
};
struct Inc : Counted        // not comparable
{
    Own own;
    Inc(int t, int, Own o = {}) : Counted(t), own(std::move(o)) {}
    R operator()(const Payload& p, REST) { return body(tag, p.get(), PASS); }
};
struct In2 : Counted        // not comparable, consumes the payload
{
    Own own;
    In2(int t, int, Own o = {}) : Counted(t), own(std::move(o)) {}
    R operator()(Payload&& p, REST) { Payload q(std::move(p)); return body(tag, q.get(), PASS); }
};
struct ThrowOnCopy
{
    ThrowOnCopy() {}
    ThrowOnCopy(const ThrowOnCopy&) { throw CopyEx(); }
    R operator()(const Payload& p, REST) { return body(-99, p.get(), PASS); }
    bool operator==(const ThrowOnCopy&) const { return false; }
};

// Target of pointers to member functions. Every tag has a target of its own.
struct Target
{
    int tag;
    R m1(Payload p, REST) { Payload q(std::move(p)); return body(tag, q.get(), PASS); }
    R m2(Payload p, REST) { return body(tag, p.get(), PASS); }
};
static std::map<int, std::unique_ptr<Target>> g_target;
static Target* target(int tag)
{
    hz::UserScope u;
    auto& t = g_target[tag];
    if (!t) t.reset(new Target{ tag });
    return t.get();
}
// Pointer to a target that compares by key.
struct Fancy : Counted
{
    int key;
    Fancy(int t, int k) : Counted(t), key(k) {}
    Target& operator*() const { return *target(tag); }
    friend bool operator==(const Fancy& a, const Fancy& b) { return a.key == b.key; }
};

// Tracked object
static void on_died(int o);
struct Obj { int o; explicit Obj(int i) : o(i) {} ~Obj() { hz::UserScope u; on_died(o); } };

// ---------------------------------------------------------------- world
// A signal variable has the same address again and again (another one while its previous signal is still
// being destroyed). The memory must not be used while it holds no signal.
struct SignalMemory { alignas(16) unsigned char m[sizeof(Signal)]; };
static std::map<std::string, std::deque<SignalMemory>> g_mem;
static std::set<void*> g_inuse;
struct SignalEnd
{
    void operator()(Signal* s) const
    {
        s->~Signal();
#ifdef RACE
        hz::race_free(s);
#endif
        hz::UserScope u;
        ASAN_POISON_MEMORY_REGION((void*)s, sizeof(Signal));
        g_inuse.erase(s);
    }
};
template<class... A>
static Signal* make_signal(const std::string& name, A&&... a)
{
    void* p;
    {
        hz::UserScope u;
        auto& q = g_mem[name];
        size_t i = 0;
        while (i < q.size() && g_inuse.count(q[i].m)) ++i;
        if (i == q.size()) q.emplace_back();
        p = q[i].m;
        g_inuse.insert(p);
        ASAN_UNPOISON_MEMORY_REGION(p, sizeof(Signal));
    }
#ifdef RACE
    hz::race_new(p, sizeof(Signal));
#endif
    return new (p) Signal(std::forward<A>(a)...);
}
struct World
{
    std::map<std::string, std::unique_ptr<Signal, SignalEnd>> s;
    std::map<std::string, sig::connection> c;
    std::map<std::string, std::unique_ptr<sig::scoped_connection>> k;
    std::map<std::string, std::unique_ptr<sig::connection_blocker>> b;
    std::map<int, std::unique_ptr<Slot>> v;
    std::map<int, std::string> vkind;
    std::map<int, int> running;             // slot objects that are being called
    std::map<int, std::shared_ptr<Obj>> o;
    std::set<int> used;
    std::set<std::string> touched;          // variables that occur in the program
    int nextc = 0, nextsl = 0;
};
static World* W;
static const Program* P;
static thread_local const std::vector<Op>* tl_ops;
static thread_local size_t tl_pos;
static thread_local int tl_depth;
static thread_local int tl_dtor;                        // destructors of callables that run
static thread_local std::vector<std::string> tl_busy;   // variables used by the calls that run
static thread_local std::vector<std::string> tl_pinned; // signals and slots that a callable is being copied for
static int g_maxdepth = 700;

static void on_died(int o)
{
    if (!W) return;
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"died\",\"o\":" + std::to_string(o) + "}");
}

static std::string js(const Op& o, std::initializer_list<const char*> strs, std::initializer_list<const char*> nums)
{
    std::string r = "{\"op\":\"" + o.name + "\"";
    for (auto k : strs) r += std::string(",\"") + k + "\":\"" + o.str(k) + "\"";
    for (auto k : nums) r += std::string(",\"") + k + "\":" + std::to_string(o.num(k));
    return r;
}
static void call(const std::string& o)
{
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"call\",\"o\":" + o + "}}");
    hz::yield(hz::K_USER);
}
static void ret(const std::vector<int>& r, int x, bool has_rf = false, int rf = 0)
{
    hz::yield(hz::K_USER);
    std::string s = "{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"ret\",\"r\":[";
    for (size_t i = 0; i < r.size(); ++i) s += (i ? "," : "") + std::to_string(r[i]);
    s += "],\"x\":" + std::to_string(x);
    if (has_rf) s += ",\"rf\":" + std::to_string(rf);
    if (!hz::g_active)
    {
        s += ",\"lv\":[";
        bool first = true;
        for (auto& l : g_live) { s += (first ? "" : ",") + std::to_string(l.first); first = false; }
        s += "]";
    }
    logev(s + "}");
}

static bool run_user(bool in_slot, int& v, int& rf, int& x);

static R body(int tag, int v, REST)
{
    hz::UserScope u;
    // References refer to the objects that were passed.
    const Args& a = *tl_args;
    const bool same = &rf == a.rf && &cv == a.cv && &ab == a.ab && &mv == a.mv && mv.get() == cv.get() + 1;
    hz::yield(hz::K_USER);
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"inv\",\"c\":" + std::to_string(tag) + ",\"v\":" + std::to_string(v)
        + ",\"rf\":" + std::to_string(rf) + ",\"cv\":" + std::to_string(same ? cv.get() : -77) + "}");
    hz::yield(hz::K_USER);
    auto emit = tl_emit;
    int tagsave = tl_tag;
    tl_tag = 0;
    int rv = tag < 0 ? 100 - tag : tag, nrf = rf, x = 0;
    ++tl_depth;
    run_user(true, rv, nrf, x);
    --tl_depth;
    tl_emit = emit;
    tl_tag = tagsave;
    rf = nrf;
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"fin\",\"v\":" + std::to_string(x ? 0 : rv) + ",\"rf\":" + std::to_string(nrf)
        + ",\"x\":" + std::to_string(x) + "}");
    hz::yield(hz::K_USER);
    if (x) throw_ex(x);
    return mk(rv);
}

Hook::~Hook()
{
    hz::UserScope u;
    if (!W) return;
    hz::yield(hz::K_USER);
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"dtor\",\"c\":" + std::to_string(tag) + "}");
    hz::yield(hz::K_USER);
    auto emit = tl_emit;
    int tagsave = tl_tag, v = 0, rf = 0, x = 0;
    tl_tag = 0;
    ++tl_depth; ++tl_dtor;
    run_user(true, v, rf, x);
    --tl_depth; --tl_dtor;
    tl_emit = emit;
    tl_tag = tagsave;
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"dfin\"}");
    hz::yield(hz::K_USER);
}

// Copying a callable runs user code.
static void copied()
{
    tl_copy = false;
    hz::yield(hz::K_USER);
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"copy\"}");
    hz::yield(hz::K_USER);
    auto emit = tl_emit;
    int tagsave = tl_tag, v = 0, rf = 0, x = 0;
    tl_tag = 0;
    ++tl_depth;
    run_user(true, v, rf, x);
    --tl_depth;
    tl_emit = emit;
    tl_tag = tagsave;
    logev("{\"t\":" + std::to_string(hz::tl_tid) + ",\"e\":\"cfin\",\"x\":" + std::to_string(x) + "}");
    hz::yield(hz::K_USER);
    if (x) throw_ex(x);
}
// A call that copies a callable (cp), or for which there is not enough memory (om).
struct Armed
{
    size_t n = tl_pinned.size();
    std::string json;
    Armed(const Op& o, bool can_copy = true)
    {
        tl_copy = can_copy && o.num("cp");
        tl_oom = tl_copy ? 0 : o.num("om");
        if (tl_copy)
            for (const char* k : { "s", "v", "v2" })
                if (!o.str(k).empty()) tl_pinned.push_back(o.str(k));
        json = tl_copy ? ",\"cp\":true" : tl_oom ? ",\"om\":" + std::to_string(tl_oom) : "";
    }
    ~Armed() { tl_copy = false; tl_oom = 0; tl_pinned.resize(n); }
};
static bool pinned(const std::string& name)
{
    for (auto& p : tl_pinned) if (p == name) return true;
    return false;
}
void* operator new(std::size_t n)
{
    if (tl_oom && hz::tl_inlib && --tl_oom == 0) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
#ifdef RACE
    hz::race_new(p, n);
#endif
    return p;
}
static void release(void* p)
{
#ifdef RACE
    hz::race_free(p);
#endif
    free(p);
}
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }

template<class F>
static int guarded(F f)
{
    hz::LibScope l;
    try { f(); return 0; }
    catch (const UserEx& e) { return e.x; }
    catch (const StdEx& e) { return e.x; }
    catch (const CmpEx& e) { return e.x; }
    catch (const OptEx& e) { return e.x; }
    catch (const WeakEx& e) { return e.x; }
    catch (const CallEx& e) { return e.x; }
    catch (const AllocEx& e) { return e.x; }
    catch (int x) { return x; }
    catch (const CopyEx&) { return -3; }
    catch (const sig::not_comparable_exception&) { return -1; }
    catch (const std::bad_alloc&) { return -4; }
    catch (...) { return -9; }
}

static bool isc(const std::string& h) { return h[0] == 'c'; }
static bool isk(const std::string& h) { return h[0] == 'k'; }
static bool isb(const std::string& h) { return h[0] == 'b'; }
static sig::connection& conn(const std::string& h) { return isk(h) ? *W->k[h] : W->c[h]; }

// Connect with a callable of the given kind, in one of several ways.
template<class C>
static void connect_fl(Signal& s, const Op& o, int tag, Own own, C done)
{
    const std::string kind = o.str("kind");
    int key = o.num("key"), fl = o.num("fl");
    auto go = [&](auto f)
    {
        using F = decltype(f);
        hz::LibScope l;
        switch (tl_copy && fl % 3 == 0 ? 1 : fl % 3)
        {
        case 0: done(s.connect(F(f))); break;
        case 1: done(s.connect(f)); break;
        default: { const F& g = f; done(s.connect(g)); }
        }
    };
    if (kind == "fun") go(Fun(tag, key, std::move(own)));
    else if (kind == "fu2") go(Fu2(tag, key, std::move(own)));
    else if (kind == "inc") go(Inc(tag, key, std::move(own)));
    else if (kind == "in2") go(In2(tag, key, std::move(own)));
    else if (kind == "pmf" || kind == "pm2")
    {
        auto m = kind == "pmf" ? &Target::m1 : &Target::m2;
        hz::LibScope l;
        if (fl % 2) { Fancy f(tag, key); done(s.connect(m, f)); }
        else done(s.connect(m, Fancy(tag, key)));
    }
    else if (kind == "trk")
    {
        std::shared_ptr<Target> p(W->o[o.num("o")], target(tag));
        hz::LibScope l;
        if (fl % 3 == 0) { Slot v(&Target::m1, std::weak_ptr<Target>(p)); p.reset(); done(s.connect(v)); }
        else if (fl % 3 == 1) { done(s.connect(&Target::m1, p)); p.reset(); }
        else { done(s.connect(&Target::m1, std::move(p))); p.reset(); }
    }
}
template<class C>
static void sconnect_fl(Signal& s, const Op& o, int tag, Own own, C done)
{
    const std::string kind = o.str("kind");
    int key = o.num("key"), fl = o.num("fl");
    auto go = [&](auto f)
    {
        hz::LibScope l;
        if (fl % 2 || tl_copy) done(s.connect_scoped(f));
        else { using F = decltype(f); done(s.connect_scoped(F(f))); }
    };
    if (kind == "fun") go(Fun(tag, key, std::move(own)));
    else if (kind == "fu2") go(Fu2(tag, key, std::move(own)));
    else if (kind == "inc") go(Inc(tag, key, std::move(own)));
    else if (kind == "in2") go(In2(tag, key, std::move(own)));
    else if (kind == "pmf" || kind == "pm2")
    {
        auto m = kind == "pmf" ? &Target::m1 : &Target::m2;
        hz::LibScope l;
        done(s.connect_scoped(m, Fancy(tag, key)));
    }
    else if (kind == "trk")
    {
        std::shared_ptr<Target> p(W->o[o.num("o")], target(tag));
        hz::LibScope l;
        if (fl % 2) { std::weak_ptr<Target> w(p); Slot v(&Target::m1, w); done(s.connect_scoped(v)); }
        else done(s.connect_scoped(&Target::m1, p));
    }
}
static std::size_t erase_fl(Signal& s, const Op& o)
{
    const std::string kind = o.str("kind");
    int key = o.num("key"), fl = o.num("fl");
    auto go = [&](auto f) -> std::size_t
    {
        using F = decltype(f);
        hz::LibScope l;
        switch (tl_copy && fl % 3 == 0 ? 1 : fl % 3)
        {
        case 0: return s.disconnect(F(f));
        case 1: return s.disconnect(f);
        default: { Slot sl(f); return s.disconnect(sl); }
        }
    };
    if (kind == "fun") return go(Fun(0, key));
    if (kind == "fu2") return go(Fu2(0, key));
    if (kind == "inc") return go(Inc(0, key));
    if (kind == "in2") return go(In2(0, key));
    auto m = kind == "pm2" ? &Target::m2 : &Target::m1;
    if (kind == "pmf" || kind == "pm2")
    {
        hz::LibScope l;
        if (fl % 2) { Fancy f(0, key); return s.disconnect(m, f); }
        return s.disconnect(m, Fancy(0, key));
    }
    std::shared_ptr<Target> p(std::make_shared<int>(0), target(-98));
    hz::LibScope l;
    return s.disconnect(m, p);
}
static Slot* make_slot(const Op& o, int tag)
{
    const std::string kind = o.str("kind");
    int key = o.num("key");
    hz::LibScope l;
    if (kind == "fun") return new Slot(Fun(tag, key));
    if (kind == "fu2") { Fu2 f(tag, key); return new Slot(f); }
    if (kind == "inc") return new Slot(Inc(tag, key));
    if (kind == "in2") return new Slot(In2(tag, key));
    if (kind == "pmf") return new Slot(&Target::m1, Fancy(tag, key));
    if (kind == "pm2") { Fancy f(tag, key); return new Slot(&Target::m2, f); }
    std::shared_ptr<Target> p(W->o[o.num("o")], target(tag));
    if (tag % 2) return new Slot(&Target::m1, std::weak_ptr<Target>(p));
    return new Slot(&Target::m1, p);
}

static bool known_kind(const std::string& k)
{
    static const std::set<std::string> s{ "fun", "fu2", "inc", "in2", "pmf", "pm2", "trk" };
    return s.count(k) > 0;
}

// Decisions that are not possible with their signal or object (it does not exist, or exists already) are
// taken with the next one.
static Op possible(Op o)
{
    auto fits = [&](const char* key, bool want) {
        const std::string k = o.str(key);
        auto ok = [&](const std::string& n) {
            for (auto& b : tl_busy)
                if (b == n) return false;
            auto i = W->s.find(n);
            return (i != W->s.end() && i->second) == want;
        };
        if (k.empty() || ok(k) || hz::g_active) return;     // other threads may use the next one
        for (auto i = W->s.upper_bound(k); i != W->s.end(); ++i)
            if (ok(i->first)) { o.f[key] = i->first; return; }
        for (auto& p : W->s)
            if (ok(p.first)) { o.f[key] = p.first; return; }
    };
    const std::string& n = o.name;
    fits("s", n != "newsig");
    if (n == "mctor") fits("d", false);
    if (n == "massign") fits("d", true);
    int i = o.num("o");
    if (n == "newobj")
        for (int j = 0; j < 6 && W->used.count(i); ++j) i = i % 6 + 1;
    else if (n == "reset" || o.str("kind") == "trk")
        for (int j = 0; j < 6 && !W->o[i]; ++j) i = i % 6 + 1;
    if (i != o.num("o")) o.f["o"] = std::to_string(i);
    return o;
}

static void exec_(const Op& o);
static void exec(const Op& given)
{
    const Op o = possible(given);
    // A variable that is being assigned or used is not touched by what runs meanwhile.
    bool moves = o.name == "mctor" || o.name == "massign";
    std::vector<std::string> names{ o.str("h"), o.str("g"), o.str("s"), o.str("d") };
    for (auto& k : names)
        for (auto& b : tl_busy)
            if (!k.empty() && k == b) return;
    size_t n = tl_busy.size();
    if (o.name != "emit" && o.name != "slcall")
        for (size_t i = 0; i < (moves ? 4 : 2); ++i)
            if (!names[i].empty()) tl_busy.push_back(names[i]);
    exec_(o);
    tl_busy.resize(n);
}

static void exec_(const Op& o)
{
    const std::string& n = o.name;
    auto alive = [&](const char* k) { auto i = W->s.find(o.str(k)); return i != W->s.end() && i->second; };
    const std::string h = o.str("h"), g = o.str("g");
    auto slotp = [&](const char* k) -> std::unique_ptr<Slot>& { auto& p = W->v[o.num(k)]; if (!p) p.reset(new Slot()); return p; };

    if (n == "connect" || n == "sconnect")
    {
        const std::string kind = o.str("kind");
        if (!alive("s") || !known_kind(kind)) return;
        if (kind == "trk" && !W->o[o.num("o")]) return;
        if (n == "connect" ? !isc(h) : !isk(h)) return;
        Own own;
        if (!g.empty())
        {
            if (kind == "trk" || kind == "pmf" || kind == "pm2" || !isk(g) || g == h) return;
            own.reset(new OwnBox{ std::move(*W->k[g]), nullptr });
        }
        int c = ++W->nextc;
        bool dt = o.num("dt") && kind != "trk" && kind != "pmf" && kind != "pm2";
        if (dt)
        {
            if (!own) own.reset(new OwnBox);
            own->hook.reset(new Hook{ c });
        }
        Armed arm(o, kind != "trk" && !own);
        if (own) tl_oom = 0, arm.json = "";
        call("{\"op\":\"" + n + "\",\"s\":\"" + o.str("s") + "\",\"h\":\"" + h + "\",\"c\":" + std::to_string(c) + ",\"g\":\"" + g
            + "\",\"kind\":\"" + kind + "\",\"key\":" + std::to_string(o.num("key")) + ",\"o\":" + std::to_string(kind == "trk" ? o.num("o") : 0) + ",\"dt\":" + (dt ? "true" : "false") + arm.json);
        Signal& s = *W->s[o.str("s")];
        int x, tag = c;
        if (tl_copy) { tl_tag = c; tag = 0; }
        if (n == "connect")
            x = guarded([&] { connect_fl(s, o, tag, std::move(own), [&](sig::connection&& r) { tl_oom = 0; W->c[h] = std::move(r); }); });
        else
            x = guarded([&] { sconnect_fl(s, o, tag, std::move(own), [&](sig::scoped_connection&& r) { tl_oom = 0; *W->k[h] = std::move(r); }); });
        tl_tag = 0;
        ret({}, x);
    }
    else if (n == "connectx")
    {
        if (!alive("s")) return;
        call(js(o, { "s" }, {}) + ",\"kind\":\"fun\"");
        Signal& s = *W->s[o.str("s")];
        ThrowOnCopy f;
        ret({}, guarded([&] { s.connect(f); }));
    }
    else if (n == "connslot")
    {
        if (!alive("s") || !isc(h)) return;
        auto& p = slotp("v");
        int c = ++W->nextc;
        Armed arm(o);
        call(js(o, { "s", "h" }, { "v" }) + ",\"c\":" + std::to_string(c) + arm.json);
        Signal& s = *W->s[o.str("s")];
        tl_tag = c;
        int x = guarded([&] { const Slot& sl = *p; W->c[h] = s.connect(sl); });
        tl_tag = 0;
        ret({}, x);
    }
    else if (n == "disc")
    {
        if (isb(h)) return;
        call(js(o, { "h" }, {}));
        bool r = false;
        int x = guarded([&] { r = conn(h).disconnect(); });
        ret({ r }, x);
    }
    else if (n == "erase")
    {
        if (!alive("s") || !known_kind(o.str("kind"))) return;
        Armed arm(o, o.str("kind") != "trk");
        tl_oom = 0;
        call(js(o, { "s", "kind" }, { "key" }) + (tl_copy ? arm.json : ""));
        Signal& s = *W->s[o.str("s")];
        std::size_t r = 0;
        int x = guarded([&] { r = erase_fl(s, o); });
        ret(x ? std::vector<int>{} : std::vector<int>{ (int)r }, x);
    }
    else if (n == "erasesl")
    {
        if (!alive("s")) return;
        auto& p = slotp("v");
        call(js(o, { "s" }, { "v" }));
        Signal& s = *W->s[o.str("s")];
        std::size_t r = 0;
        int x = guarded([&] { r = s.disconnect(*p); });
        ret(x ? std::vector<int>{} : std::vector<int>{ (int)r }, x);
    }
    else if (n == "block" || n == "unblock")
    {
        if (isb(h)) return;
        call(js(o, { "h" }, {}));
        ret({}, guarded([&] { if (n == "block") conn(h).block(); else conn(h).unblock(); }));
    }
    else if (n == "connected" || n == "blocked" || n == "valid")
    {
        if (isb(h)) return;
        call(js(o, { "h" }, {}));
        bool r = false;
        int x = guarded([&] { const auto& c = conn(h); r = n == "connected" ? c.connected() : n == "blocked" ? c.blocked() : c.valid(); });
        ret({ r }, x);
    }
    else if (n == "probe")
    {
        if (hz::g_active || tl_dtor) return;
        std::string l;
        std::vector<int> r;
        for (auto& c : W->touched)
            if (isc(c) || isk(c))
            {
                const sig::connection& k = conn(c);
                hz::LibScope s;
                r.push_back(k.valid() + 2 * k.connected() + 4 * k.blocked());
                l += (l.empty() ? "\"" : ",\"") + c + "\"";
            }
        call("{\"op\":\"probe\",\"hs\":[" + l + "]");
        ret(r, 0);
    }
    else if (n == "hcopy")
    {
        if (!isc(h) || isb(g)) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&] { if (o.num("fl") % 2) W->c[h] = conn(g); else { sig::connection t(conn(g)); W->c[h] = t; } }));
    }
    else if (n == "hmove")
    {
        if (!isc(h) || isb(g) || h == g) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&]
        {
            if (isk(g) && o.num("fl") % 3 == 0) W->c[h] = W->k[g]->release();
            else if (isk(g) && o.num("fl") % 3 == 1) W->c[h] = std::move(*W->k[g]);
            else if (isk(g)) { sig::connection t(std::move(*W->k[g])); W->c[h] = t; }
            else if (o.num("fl") % 2) W->c[h] = std::move(W->c[g]);
            else { sig::connection t(std::move(W->c[g])); W->c[h] = std::move(t); }
        }));
    }
    else if (n == "hswap")
    {
        if (h == g || isb(h) != isb(g)) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&]
        {
            if (isb(h)) { if (o.num("fl") % 2) W->b[h]->swap(*W->b[g]); else swap(*W->b[h], *W->b[g]); }
            else if (isk(h) && isk(g) && o.num("fl") % 2) swap(*W->k[h], *W->k[g]);
            else if (o.num("fl") % 2) swap(conn(h), conn(g));
            else conn(h).swap(conn(g));
        }));
    }
    else if (n == "hreset")
    {
        if (!isc(h)) return;
        call(js(o, { "h" }, {}));
        ret({}, guarded([&] { W->c[h] = sig::connection(); }));
    }
    else if (n == "scopy")
    {
        if (!isk(h) || !isc(g)) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&] { if (o.num("fl") % 2) *W->k[h] = sig::scoped_connection(W->c[g]); else { const sig::connection& c = W->c[g]; sig::scoped_connection t(c); *W->k[h] = std::move(t); } }));
    }
    else if (n == "smove")
    {
        if (!isk(h) || isb(g) || h == g) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&]
        {
            if (isc(g)) *W->k[h] = sig::scoped_connection(std::move(W->c[g]));
            else if (o.num("fl") % 2) *W->k[h] = std::move(*W->k[g]);
            else { W->k[h].reset(); W->k[h].reset(new sig::scoped_connection(std::move(*W->k[g]))); }
        }));
    }
    else if (n == "sdel")
    {
        if (!isk(h)) return;
        call(js(o, { "h" }, {}));
        ret({}, guarded([&] { W->k[h].reset(); W->k[h].reset(new sig::scoped_connection()); }));
    }
    else if (n == "bnew")
    {
        if (!isb(h) || isb(g)) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&] { const sig::connection& c = conn(g); *W->b[h] = c.blocker(); }));
    }
    else if (n == "bmove")
    {
        if (!isb(h) || !isb(g) || h == g) return;
        call(js(o, { "h", "g" }, {}));
        ret({}, guarded([&]
        {
            if (o.num("fl") % 2) *W->b[h] = std::move(*W->b[g]);
            else { sig::connection_blocker t(std::move(*W->b[g])); *W->b[h] = std::move(t); }
        }));
    }
    else if (n == "bdel")
    {
        if (!isb(h)) return;
        call(js(o, { "h" }, {}));
        ret({}, guarded([&] { W->b[h].reset(); W->b[h].reset(new sig::connection_blocker()); }));
    }
    else if (n == "newsig")
    {
        if (alive("s")) return;
        call(js(o, { "s" }, {}));
        ret({}, guarded([&] { W->s[o.str("s")].reset(make_signal(o.str("s"))); }));
    }
    else if (n == "delsig")
    {
        if (!alive("s") || pinned(o.str("s"))) return;
        call(js(o, { "s" }, {}));
        ret({}, guarded([&] { Signal* p = W->s[o.str("s")].release(); SignalEnd()(p); }));
    }
    else if (n == "mctor")
    {
        if (!alive("s") || alive("d") || pinned(o.str("s"))) return;
        call(js(o, { "d", "s" }, {}));
        ret({}, guarded([&] { W->s[o.str("d")].reset(make_signal(o.str("d"), std::move(*W->s[o.str("s")]))); }));
    }
    else if (n == "massign")
    {
        if (!alive("s") || !alive("d") || pinned(o.str("s")) || pinned(o.str("d"))) return;
        call(js(o, { "d", "s" }, {}));
        ret({}, guarded([&] { Signal& d = *W->s[o.str("d")]; Signal& r = (d = std::move(*W->s[o.str("s")])); if (&r != &d) throw -7; }));
    }
    else if (n == "newobj")
    {
        int i = o.num("o");
        if (i <= 0 || W->used.count(i)) return;
        W->used.insert(i);
        call(js(o, {}, { "o" }));
        W->o[i] = std::make_shared<Obj>(i);
        ret({}, 0);
    }
    else if (n == "reset")
    {
        if (!W->o[o.num("o")]) return;
        call(js(o, {}, { "o" }));
        W->o[o.num("o")].reset();
        ret({}, 0);
    }
    else if (n == "slmk")
    {
        int v = o.num("v");
        const std::string kind = o.str("kind");
        if (W->running[v] || pinned(o.str("v")) || !known_kind(kind) || (kind == "trk" && !W->o[o.num("o")])) return;
        int c = -++W->nextsl;
        call("{\"op\":\"slmk\",\"v\":" + std::to_string(v) + ",\"kind\":\"" + kind + "\",\"key\":" + std::to_string(o.num("key"))
            + ",\"o\":" + std::to_string(kind == "trk" ? o.num("o") : 0) + ",\"c\":" + std::to_string(c));
        ret({}, guarded([&] { W->v[v].reset(make_slot(o, c)); }));
    }
    else if (n == "slnull")
    {
        int v = o.num("v");
        if (W->running[v] || pinned(o.str("v"))) return;
        call(js(o, {}, { "v" }));
        ret({}, guarded([&] { W->v[v].reset(new Slot()); }));
    }
    else if (n == "slcopy")
    {
        int v = o.num("v");
        if (W->running[v] || pinned(o.str("v"))) return;
        auto& a = slotp("v"); auto& b = slotp("v2");
        int c = -++W->nextsl;
        Armed arm(o);
        call(js(o, {}, { "v", "v2" }) + ",\"c\":" + std::to_string(c) + arm.json);
        tl_tag = c;
        int x = guarded([&]
        {
            if (o.num("fl") % 3 == 0) *a = *b;
            else if (o.num("fl") % 3 == 1 && arm.json.empty()) { if (&a != &b) { a.reset(); a.reset(new Slot(*b)); } }
            else { const Slot& k = *b; if (&a != &b) { Slot t(k); *a = std::move(t); } }
        });
        tl_tag = 0;
        ret({}, x);
    }
    else if (n == "slmove")
    {
        int v = o.num("v"), v2 = o.num("v2");
        if (W->running[v] || W->running[v2] || v == v2 || pinned(o.str("v")) || pinned(o.str("v2"))) return;
        auto& a = slotp("v"); auto& b = slotp("v2");
        call(js(o, {}, { "v", "v2" }));
        ret({}, guarded([&] { if (o.num("fl") % 2) *a = std::move(*b); else a.reset(new Slot(std::move(*b))); }));
    }
    else if (n == "slblock" || n == "slunblock")
    {
        if (pinned(o.str("v"))) return;
        auto& a = slotp("v");
        call(js(o, {}, { "v" }));
        ret({}, guarded([&] { if (n == "slblock") a->block(); else a->unblock(); }));
    }
    else if (n == "slconn" || n == "slblkd" || n == "slbool" || n == "sldisc")
    {
        auto& a = slotp("v");
        call(js(o, {}, { "v" }));
        bool r = false;
        int x = guarded([&] { r = n == "slconn" ? a->connected() : n == "slblkd" ? a->blocked() : n == "slbool" ? bool(*a) : a->disconnect(); });
        ret({ r }, x);
    }
    else if (n == "sleq")
    {
        auto& a = slotp("v"); auto& b = slotp("v2");
        call(js(o, {}, { "v", "v2" }));
        bool r = false;
        int x = guarded([&] { if (o.num("fl") % 2) r = *a == *b; else r = !(*a != *b); });
        ret(x ? std::vector<int>{} : std::vector<int>{ r }, x);
    }
    else if (n == "emit" || n == "slcall")
    {
        bool sl = n == "slcall";
        if (tl_depth >= g_maxdepth) return;
        if (!sl && !alive("s")) return;
        Op e = o;
        if (sl || VC == 0) e.f["m"] = "last";
        call(js(e, sl ? std::initializer_list<const char*>{ "m" } : std::initializer_list<const char*>{ "s", "m" },
                sl ? std::initializer_list<const char*>{ "v", "a", "rf" } : std::initializer_list<const char*>{ "a", "rf" })
            + ",\"w\":" + (VR == 1 ? "true" : "false"));
        int rf = o.num("rf"), a = o.num("a");
        std::vector<int> r;
        int x, bad = 0;
        const Payload cv(a + 1);
        Payload mv(a + 2);
        Solid ab;
        ArgsScope scope(rf, cv, ab, mv);
        if (sl)
        {
            int v = o.num("v");
            auto& p = slotp("v");
            ++W->running[v];
            Slot* q = p.get();
            x = guarded([&] { r = resultsl((*q)(Payload(a), PASS)); });
            --W->running[v];
        }
        else
        {
            Signal& s = *W->s[o.str("s")];
            const Signal& cs = s;
            tl_emit = &e;
            x = guarded([&]
            {
                if (o.num("fl") % 2) { Payload p(a); r = result(s(p, PASS)); if (p.get() != a) bad = 1; }
                else r = result(cs(Payload(a), PASS));
            });
        }
        if (cv.get() != a + 1 || mv.get() != a + 2) bad = 1;
        if (x) r.clear();
        ret(r, bad ? -8 : x, true, rf);
    }
}

// Executes decisions of the current thread; inside a slot until it finishes.
static bool run_user(bool in_slot, int& v, int& rf, int& x)
{
    while (tl_pos < tl_ops->size())
    {
        const Op& o = (*tl_ops)[tl_pos++];
        if (o.name == "fin" || o.name == "throw")
        {
            if (!in_slot) continue;
            if (o.f.count("v")) v = o.num("v");
            if (o.f.count("rf")) rf = o.num("rf");
            if (o.name == "throw") x = o.num("x", 1);
            return true;
        }
        exec(o);
    }
    return false;
}

static void run_part(const std::vector<Op>& ops)
{
    tl_ops = &ops; tl_pos = 0; tl_depth = 0; tl_dtor = 0; tl_busy.clear(); tl_pinned.clear();
    int a = 0, b = 0, c = 0;
    run_user(false, a, b, c);
}

#ifdef RACE
static std::string g_race;     // what is recorded instead of the events
#endif
static hz::Outcome run_once(const Program& p, const hz::Strategy& st)
{
    g_sh->len = 0; g_sh->fatal = 0;
    World w;
    W = &w; P = &p;
    g_live.clear();
#ifdef RACE
    for (const char* n : { "s1", "s2", "s3", "s4" }) w.s[n];    // what is shared is the library's only
#endif
    for (int i = 1; i <= 8; ++i)
    {
        w.c["c" + std::to_string(i)];
        if (i <= 4) w.k["k" + std::to_string(i)].reset(new sig::scoped_connection());
        if (i <= 3) w.b["b" + std::to_string(i)].reset(new sig::connection_blocker());
    }
    for (auto& q : p.part)
        for (auto& o : q)
            for (const char* k : { "h", "g" }) if (!o.str(k).empty()) w.touched.insert(o.str(k));
    hz::Outcome out;
    size_t n = p.part.size();
    if (n) run_part(p.part[0]);
    if (n > 2)
    {
        std::vector<std::function<void()>> jobs;
        for (size_t i = 1; i + 1 < n; ++i) jobs.push_back([&p, i] { run_part(p.part[i]); });
#ifdef RACE
        hz::race_begin();
#endif
        out = hz::run_threads(jobs, st);
#ifdef RACE
        g_race = hz::race_trace();
#endif
        run_part(p.part[n - 1]);
    }
    // Orderly end: everything is destroyed explicitly (and observed).
    std::vector<Op> end;
    auto add = [&](const std::string& nm, const char* k, const std::string& v) { Op o; o.name = nm; o.f[k] = v; end.push_back(o); };
    auto t = [&](const std::string& n) { return w.touched.count(n) > 0; };
    for (auto& b : w.b) if (t(b.first)) add("bdel", "h", b.first);
    for (auto& k : w.k) if (t(k.first)) add("sdel", "h", k.first);
    for (auto& s : w.s) add("delsig", "s", s.first);
    for (auto& v : w.v) add("slnull", "v", std::to_string(v.first));
    add("probe", "x", "");
    for (auto& o : w.o) add("reset", "o", std::to_string(o.first));
    for (auto& o : end) exec(o);
    size_t len = g_sh->len;
    W = nullptr;
    w.v.clear();
    g_target.clear();
    g_sh->len = len;
    return out;
}

static FILE* g_out;
static std::unordered_set<size_t> g_seen;
static void emit_trace(const Program& p, const std::string& sched)
{
#ifdef RACE
    std::string ev = g_race;
#else
    std::string ev = "\"ev\":[" + std::string(g_sh->buf, g_sh->len) + "]";
#endif
    if (!g_seen.insert(std::hash<std::string>()(p.id + "|" + ev)).second) return;
    fprintf(g_out, "{\"p\":\"%s\",\"k\":\"%s\",%s}\n", p.id.c_str(), sched.c_str(), ev.c_str());
    fflush(g_out);
}

static void run_and_emit(const Program& p, hz::Strategy& st, hz::Outcome& o)
{
    std::string pre = hz::sched_name(st, hz::Outcome());
    if (st.type == hz::Strategy::DFS)
        for (int c : st.choices) pre += (char)('0' + c);
    snprintf(g_sh->name, sizeof g_sh->name, "%s", pre.c_str());
    g_sh->progress = g_sh->progress + 1;
    g_sh->sched = g_sh->sched + 1;
    o = run_once(p, st);
    emit_trace(p, hz::sched_name(st, o));
}

static long g_total = 0;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void run_program(const Program& p, int budget, unsigned long seed, double deadline)
{
    hz::Strategy st;
    hz::Outcome o;
    if (p.part.size() <= 2) { run_and_emit(p, st, o); ++g_total; return; }
    // Interleavings of synchronisation operations: by number of preemptions, in random order ...
    int n = 0;
    st.type = hz::Strategy::DFS;
    long steps = 50;
    const int dfs = budget * 2 / 3;
    std::mt19937_64 rng(seed * 7919 + 17);
    std::vector<std::vector<int>> level{ {} }, next;
    for (int pre = 0; pre <= 3 && !level.empty(); ++pre, level.swap(next), next.clear())
    {
        while (!level.empty() && n < dfs && now() < deadline)
        {
            std::swap(level[rng() % level.size()], level.back());
            st.choices.swap(level.back());
            level.pop_back();
            const size_t from = st.choices.size();
            run_and_emit(p, st, o); ++n; ++g_total;
            steps = std::max(steps, o.steps);
            for (size_t i = from; i < o.choices.size() && next.size() < 20000; ++i)
                for (int c = 1; c < o.options[i]; ++c)
                {
                    std::vector<int> q(o.choices.begin(), o.choices.begin() + i);
                    q.push_back(c);
                    (o.free_[i] ? level : next).push_back(std::move(q));
                }
        }
    }
    // ... then random schedules that also preempt at memory accesses.
    hz::Strategy m; m.type = hz::Strategy::RND; m.mem = true; m.seed = seed;
    run_and_emit(p, m, o); ++n; ++g_total;
    long msteps = std::max<long>(o.steps, 50);
    for (int i = 0; n < budget && now() < deadline; ++i, ++n, ++g_total)
    {
        hz::Strategy r;
        r.seed = seed * 1000003 + i;
        switch (i % 4)
        {
        case 0: r.type = hz::Strategy::PCT; r.mem = true; r.steps = (int)msteps; r.bound = 1 + i / 4 % 3; break;
        case 1: r.type = hz::Strategy::RND; r.mem = true; break;
        case 2: r.type = hz::Strategy::PCT; r.mem = false; r.steps = (int)steps; r.bound = 2 + i / 4 % 2; break;
        default: r.type = hz::Strategy::RND; r.mem = false; break;
        }
        run_and_emit(p, r, o);
    }
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    auto progs = parse(argv[1]);
    int budget = argc > 3 ? atoi(argv[3]) : 100;
    unsigned long seed = argc > 4 ? strtoul(argv[4], nullptr, 10) : 1;
    double limit = getenv("HZ_LIMIT") ? atof(getenv("HZ_LIMIT")) : 1e9;
    double t0 = now();
    std::string only = argc > 6 ? argv[5] : "", sched = argc > 6 ? argv[6] : "";
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_out = fopen(argv[2], "w");
    if (!g_out || g_sh == MAP_FAILED) return 2;

    size_t i = 0, crashes = 0;
    long total = 0, done = 0;
    while (i < progs.size() && crashes < 12)
    {
        fflush(g_out);
        g_sh->len = 0; g_sh->sched = 0;
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0)
        {
            for (size_t k = i; k < progs.size(); ++k)
            {
                if (now() - t0 > limit) { g_sh->prog = -1; _exit(0); }
                g_sh->prog = (int)k;
                if (only.empty())
                {
                    double left = limit - (now() - t0);
                    run_program(progs[k], budget, seed + k, now() + left / (progs.size() - k) * 3);
                }
                else if (progs[k].id == only)
                {
                    hz::Strategy st;
                    unsigned long long sd = 0; int a = 0, b = 0, c = 0;
                    if (sscanf(sched.c_str(), "rnd:%llu:%d", &sd, &a) == 2) { st.type = hz::Strategy::RND; st.seed = sd; st.mem = a; }
                    else if (sscanf(sched.c_str(), "pct:%llu:%d:%d:%d", &sd, &a, &b, &c) == 4) { st.type = hz::Strategy::PCT; st.seed = sd; st.bound = a; st.steps = b; st.mem = c; }
                    else if (sched.size() > 4) for (char ch : sched.substr(4)) st.choices.push_back(ch - '0');
                    hz::Outcome o;
                    run_and_emit(progs[k], st, o);
                }
            }
            g_sh->prog = -1;
            fflush(g_out);
            _exit(0);
        }
        // Watch the child: an end or a standstill in the middle of a program is an event.
        long last = -1; double since = now();
        int status = 0; bool hang = false;
        for (;;)
        {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            if (g_sh->progress != last) { last = g_sh->progress; since = now(); }
            else if (now() - since > 30) { kill(pid, SIGKILL); waitpid(pid, &status, 0); hang = true; break; }
            usleep(2000);
        }
        total += g_sh->sched; done = total;
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0 && g_sh->prog == -1) break;
        ++crashes;
        int k = g_sh->prog;
        if (k < 0 || k >= (int)progs.size()) return 2;
        const char* what = hang ? "hang" : g_sh->fatal ? nullptr : "crash";
        std::string ev(g_sh->buf, g_sh->len);
        if (what) ev += std::string(ev.empty() ? "" : ",") + "{\"t\":0,\"e\":\"" + what + "\"}";
        fprintf(g_out, "{\"p\":\"%s\",\"k\":\"%s\",\"ev\":[%s]}\n", progs[k].id.c_str(), g_sh->name, ev.c_str());
        i = k + 1;
    }
    fclose(g_out);
    printf("runs %ld crashes %zu\n", done, crashes);
    return 0;
}
