// Copy-on-write pointers, driven operation by operation (specification: Cow.tla).
#include "seq.hpp"
#include <signals.hpp>
#include <memory>
#include <utility>

using namespace seq;
using sig::detail::cow_ptr;
using sig::detail::make_cow;

struct T {
    int v;
    explicit T(int a) : v(a) { reg().born(this, alignof(T)); }
    T(std::initializer_list<int> l, int b) : v(*l.begin() + b) { reg().born(this, alignof(T)); }
    T(const T& o) : v(o.v)
    {
        reg().used(&o);
        reg().may_throw();
        ++reg().copies;
        reg().born(this, alignof(T));
    }
    T& operator=(const T& o)
    {
        ++reg().bad;    // nobody assigns
        v = o.v;
        return *this;
    }
    ~T() { reg().died(this); }
    int get() const
    {
        reg().used(this);
        return v;
    }
    void set(int a)
    {
        reg().used(this);
        v = a;
    }
};
using P = cow_ptr<T>;

static const int N = 4, H = 2;
static std::unique_ptr<P> p[N + 1];
static const T* held[H + 1];

void seq::begin()
{
    for (int i = 1; i <= N; ++i)
        p[i].reset(new P());
    held[1] = held[2] = nullptr;
    reg() = Reg();
}

static T* mut(P& q, const std::string& f)
{
    if (f == "write")
        return &q.write();
    if (f == "star")
        return &*q;
    if (f == "arrow")
        return q.operator->();
    if (f == "data")
        return q.data();
    T* r = q;
    return r;
}
static const T* cst(const P& q, const std::string& f)
{
    if (f == "read")
        return &q.read();
    if (f == "star")
        return &*q;
    if (f == "arrow")
        return q.operator->();
    if (f == "data")
        return q.data();
    const T* r = q;
    return r;
}
// Owns a share while it constructs its argument.
static P pass(P q) { return q; }

static void observe(Obj& x)
{
    std::vector<std::vector<int>> vs;
    std::vector<int> sh;
    const void* at[N + 1];
    int eq = 1;
    for (int i = 1; i <= N; ++i) {
        std::set<int> s;
        const P& q = *p[i];
        const T* a = q.data();
        at[i] = a;
        if (!a) {
            s.insert(0);
            if (q.operator->() != nullptr || static_cast<const T*>(q) != nullptr)
                s.insert(-1);
        } else {
            for (const char* f : {"read", "star", "arrow", "data", "conv"}) {
                const T* b = cst(q, f);
                s.insert(b == a ? b->get() : -1);
            }
        }
        if (bool(q) != (a != nullptr))
            s.insert(-2);
        vs.push_back(std::vector<int>(s.begin(), s.end()));
        int k = 1;
        while (at[k] != a)
            ++k;
        sh.push_back(k);
    }
    for (int i = 1; i <= N; ++i)
        for (int j = 1; j <= N; ++j) {
            bool same = at[i] == at[j];
            const P &ci = *p[i], &cj = *p[j];
            if ((ci == cj) != same || (ci != cj) == same || (*p[i] == *p[j]) != same || (*p[i] != *p[j]) == same)
                eq = 0;
        }
    std::vector<int> rf;
    for (int h = 1; h <= H; ++h)
        rf.push_back(held[h] && reg().live.count(held[h]) ? held[h]->v : 0);
    x.raw("vs", lists(vs));
    x.raw("sh", list(sh));
    x.put("eq", eq);
    x.raw("rf", list(rf));
    x.put("lv", (int)reg().live.size());
    x.put("cp", reg().copies);
    x.put("bad", reg().bad);
}

bool seq::run(const Op& o, Obj& x)
{
    if ((o.op == "wr" || o.op == "hold" || (o.op == "touch" && !o.f("data") && !o.f("conv"))) && !*p[o.i("x")])
        return false;
    reg().copies = 0;
    reg().countdown = o.i("thr");
    int r = 0;
    int a = o.i("x"), b = o.i("y"), v = o.i("v");
    if (o.op == "new") {
        if (o.f("make"))
            *p[a] = make_cow<T>(v);
        else if (o.f("il"))
            *p[a] = make_cow<T>({v - 1, 77}, 1);
        else if (o.f("ctor"))
            p[a].reset(new P(new T(v)));
        else if (o.f("asg"))
            *p[a] = new T(v);
        else
            *p[a] = pass(make_cow<T>(v));
    } else if (o.op == "null") {
        if (o.f("dflt"))
            p[a].reset(new P());
        else if (o.f("asg"))
            *p[a] = static_cast<T*>(nullptr);
        else
            *p[a] = P(static_cast<T*>(nullptr));
    } else if (o.op == "cp") {
        if (o.f("ctor"))
            p[a].reset(new P(*p[b]));
        else if (o.f("asg"))
            *p[a] = *p[b];
        else
            *p[a] = static_cast<const P&>(*p[b]);
    } else if (o.op == "mv") {
        if (o.f("ctor"))
            p[a].reset(new P(std::move(*p[b])));
        else
            *p[a] = std::move(*p[b]);
    } else if (o.op == "swap") {
        std::swap(*p[a], *p[b]);
    } else if (o.op == "wr") {
        try {
            mut(*p[a], o.s("f"))->set(v);
        } catch (Injected&) {
            r = 1;
        }
    } else if (o.op == "touch") {
        r = mut(*p[a], o.s("f")) != nullptr;
    } else if (o.op == "test") {
        if (o.f("bool"))
            r = *p[a] ? 1 : 0;
        else if (o.f("not"))
            r = !*p[a] ? 0 : 1;
        else
            r = static_cast<const P&>(*p[a]) ? 1 : 0;
    } else if (o.op == "hold") {
        held[o.i("h")] = cst(*p[a], o.s("f"));
    }
    reg().countdown = 0;
    x.put("r", r);
    observe(x);
    return true;
}

void seq::end(Obj& x)
{
    for (int i = 1; i <= N; ++i)
        p[i].reset();
    x.str("e", "end");
    x.put("lv", (int)reg().live.size());
    x.put("bad", reg().bad);
}
