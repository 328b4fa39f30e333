// Signals with very many slots and calls (specification: Scale.tla).
#include "seq.hpp"
#include <signals.hpp>
#include <algorithm>
#include <functional>
#include <memory>
#include <pthread.h>

using namespace seq;

static std::vector<signed char> group;           // of each slot
static std::vector<int> alive;                  // copies of the callable of each slot
static long many;                               // slots with a callable
static int bad, arg;
static std::vector<std::vector<int>> runs;      // what each emission invoked
static std::vector<size_t> running;             // the emissions that run
static int nest;                                // emissions still to be nested
static std::function<void(int)> emit;

struct F {
    int id;
    const F* self;
    explicit F(int i) : id(i), self(this) { born(); }
    F(const F& o) : id(o.id), self(this)
    {
        o.check();
        born();
    }
    ~F()
    {
        check();
        self = nullptr;
        if (--alive[id] == 0)
            --many;
    }
    F& operator=(const F&) = delete;
    void born()
    {
        if (alive[id]++ == 0)
            ++many;
    }
    void check() const
    {
        if (self != this)
            ++bad;
    }
    bool operator==(const F& o) const
    {
        check();
        o.check();
        return group[id] == group[o.id];
    }
    int call(int a) const
    {
        check();
        if (a != arg)
            ++bad;
        size_t me = running.back();
        bool first = runs[me].empty();
        runs[me].push_back(id);
        if (first && nest > 1) {
            --nest;
            emit(a);
        }
        return id;
    }
};
struct FI : F {
    using F::F;
    int operator()(int a) const { return call(a); }
};
struct FV : F {
    using F::F;
    void operator()(int a) const { call(a); }
};

struct Base {
    std::vector<sig::connection> con;
    virtual ~Base() {}
    virtual sig::connection connect(int s, int id) = 0;
    virtual long erase(int s, int g) = 0;
    virtual void del(int s) = 0;
    virtual void mv(int s, int s2, bool ctor) = 0;
    virtual int one(int s, int a) = 0;          // emission; the number of the last slot
};
template <class R, class Fn> struct World : Base {
    using S = sig::signal<R(int)>;
    std::unique_ptr<S> sig[3];
    World()
    {
        for (auto& p : sig)
            p.reset(new S());
    }
    sig::connection connect(int s, int id) override { return sig[s]->connect(Fn(id)); }
    long erase(int s, int g) override
    {
        int id = alive.size() - 1;
        group[id] = g;
        return sig[s]->disconnect(Fn(id));
    }
    void del(int s) override { sig[s].reset(new S()); }
    void mv(int s, int s2, bool ctor) override
    {
        if (ctor)
            sig[s].reset(new S(std::move(*sig[s2])));
        else
            *sig[s] = std::move(*sig[s2]);
    }
    static int get(const opt::optional<int>& r) { return r ? *r : 0; }
    static int get(const opt::optional<void>&) { return -1; }
    int one(int s, int a) override { return get((*sig[s])(a)); }
};

// A list of slots as longest runs, upwards or downwards.
static std::string run_list(const std::vector<int>& v)
{
    std::string r = "[";
    for (size_t i = 0, j; i < v.size(); i = j + 1) {
        j = i;
        int d = i + 1 < v.size() ? v[i + 1] - v[i] : 0;
        if (d == 1 || d == -1)
            while (j + 1 < v.size() && v[j + 1] - v[j] == d)
                ++j;
        r += (i ? ",[" : "[") + std::to_string(v[i]) + "," + std::to_string(v[j]) + "]";
    }
    return r + "]";
}

static std::unique_ptr<Base> world;
static int nxt;

void seq::begin()
{
    alarm(150);
    alive.assign(400000, 0);
    group.assign(400000, -1);
    many = bad = arg = 0;
    nxt = 1;
    world.reset();
}
static void emission(int s, int a)
{
    runs.emplace_back();
    running.push_back(runs.size() - 1);
    int r = world->one(s, a);
    auto& em = runs[running.back()];
    running.pop_back();
    if (r >= 0 && r != (em.empty() ? 0 : em.back()))
        ++bad;
}
static void* deep(void* p)
{
    emission(*static_cast<int*>(p), arg);
    return nullptr;
}
bool seq::run(const Op& o, Obj& x)
{
    if (!world) {
        if (o.s("k") == "V")
            world.reset(new World<void, FV>());
        else
            world.reset(new World<int, FI>());
        world->con.resize(1);
    }
    auto& con = world->con;
    long r = 0;
    int same = 1, s = o.i("s"), n = o.i("n");
    std::vector<int> named;
    for (int i = o.i("a"); o.has("a") && i <= (o.has("b") ? o.i("b") : i) && i < nxt; ++i) {
        named.push_back(i);
        if (!o.has("b"))
            break;
    }
    runs.clear();
    if (o.op == "con")
        for (int k = 0; k < n; ++k) {
            group[nxt] = o.i("g");
            con.push_back(world->connect(s, nxt++));
            r += con.back().connected();
        }
    else if (o.op == "disc") {
        if (o.f("down"))
            std::reverse(named.begin(), named.end());
        for (int i : named)
            r += con[i].disconnect();
    } else if (o.op == "blk")
        for (int i : named) {
            r += con[i].connected();
            con[i].block();
        }
    else if (o.op == "unblk")
        for (int i : named) {
            r += con[i].connected();
            con[i].unblock();
        }
    else if (o.op == "query")
        for (int i : named)
            r += o.f("blk") ? con[i].connected() && con[i].blocked() : con[i].connected();
    else if (o.op == "copies") {
        std::vector<sig::connection> v;
        for (int k = 0; k < n; ++k)
            v.push_back(k ? v.back() : con[o.i("a")]);
        for (auto& c : v)
            r += c.connected();
    } else if (o.op == "churn")
        for (int k = 0; k < n; ++k) {
            auto c = world->connect(s, 0);
            r += c.disconnect();
            if (c.connected())
                ++bad;
        }
    else if (o.op == "erase")
        r = world->erase(s, o.i("g"));
    else if (o.op == "del")
        world->del(s);
    else if (o.op == "mv")
        world->mv(s, o.i("s2"), o.f("ctor"));
    else if (o.op == "emit") {
        nest = 0;
        for (int k = 0; k < n; ++k) {
            arg = k % 1000;
            emission(s, arg);
            r += runs.back().size();
            if (runs.size() > 1) {
                if (runs[0] != runs[1])
                    same = 0;
                runs.pop_back();
            }
        }
    } else if (o.op == "nest") {
        arg = 7;
        nest = n;
        emit = [s](int a) { emission(s, a); };
        // On a stack that is large enough.
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 512u << 20);
        pthread_t th;
        if (pthread_create(&th, &at, deep, &s) != 0)
            abort();
        pthread_join(th, nullptr);
        nest = 0;
        for (auto& v : runs) {
            r += v.size();
            same &= v == runs[0];
        }
    }
    x.put("r", (int)r);
    x.put("sm", same);
    x.raw("em", run_list(runs.empty() ? std::vector<int>() : runs[0]));
    x.put("lv", (int)many);
    x.put("bad", bad);
    return true;
}
void seq::end(Obj& x)
{
    world.reset();
    x.str("e", "end");
    x.put("lv", (int)many);
    x.put("bad", bad);
}
