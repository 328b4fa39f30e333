// opt::optional<T> for value types, driven operation by operation (specification: Optional.tla).
#include "seq.hpp"
#include <optional.hpp>
#include <memory>
#include <utility>

using namespace seq;

// Values that know where they live, may fail in every operation, and mark what they are moved from.
enum { MOVED = 9, DFLT = 8 };
struct Base {
    int v;
    Base(int a) : v(a) { }
    int get() const
    {
        reg().used(this);
        return v;
    }
    void set(int a)
    {
        reg().used(this);
        v = a;
    }
    int drain()
    {
        int a = get();
        v = MOVED;
        return a;
    }
};
#define BORN { reg().may_throw(); reg().born(this, ALIGN); }
#define COMMON(T, C)                                        \
    enum { ALIGN = 32 };                                    \
    T() : Base(DFLT) BORN                                   \
    explicit T(int a) : Base(a) BORN                        \
    T(int, int b) : Base(b) BORN                            \
    T(std::initializer_list<int> l) : Base(*(l.end() - 1)) BORN \
    T(std::initializer_list<int>, int b) : Base(b) BORN     \
    T(const C& o) : Base(o.get()) BORN                      \
    ~T() { reg().died(this); }
#define COPY(T)                                             \
    T(const T& o) : Base(o.get()) BORN                      \
    T& operator=(const T& o)                                \
    {                                                       \
        reg().used(this);                                   \
        reg().may_throw();                                  \
        v = o.get();                                        \
        return *this;                                       \
    }
#define MOVE(T, C)                                          \
    T(T&& o) : Base(o.get()) { reg().may_throw(); o.drain(); reg().born(this, ALIGN); } \
    T(C&& o) : Base(o.get()) { reg().may_throw(); o.drain(); reg().born(this, ALIGN); } \
    T& operator=(T&& o)                                     \
    {                                                       \
        reg().used(this);                                   \
        reg().used(std::addressof(o));                                   \
        reg().may_throw();                                  \
        if (this != std::addressof(o))                                   \
            v = o.drain();                                  \
        return *this;                                       \
    }

struct alignas(16) Conv : Base {
    enum { ALIGN = 16 };
    explicit Conv(int a) : Base(a) { reg().born(this, ALIGN); }
    Conv(const Conv& o) : Base(o.get()) { reg().born(this, ALIGN); }
    Conv& operator=(const Conv&) = default;
    ~Conv() { reg().died(this); }
};
struct alignas(32) ValV : Base { COMMON(ValV, Conv) COPY(ValV) MOVE(ValV, Conv) };
#define ADDR void* operator&() const { ++reg().bad; return nullptr; }     // std::addressof has to be used
struct alignas(32) ValN : Base { COMMON(ValN, Conv) COPY(ValN) ADDR };
struct alignas(32) ValM : Base { COMMON(ValM, Conv) MOVE(ValM, Conv) ValM(const ValM&) = delete; ValM& operator=(const ValM&) = delete; ADDR };

template <class X> struct ClassKind {
    using T = X;
    using C = Conv;
    static const bool cls = true, copies = !std::is_same<X, ValM>::value;
    static T make(int v) { return T(v); }
    static C makec(int v) { return C(v); }
    static int arg(int v) { return v; }
    static int val(const T& t) { return t.get(); }
    static int valc(const C& t) { return t.get(); }
    static void set(T& t, int v) { t.set(v); }
};
struct IntKind {
    using T = int;
    using C = short;
    static const bool cls = false, copies = true;
    static T make(int v) { return v == DFLT ? 0 : v; }
    static C makec(int v) { return (C)make(v); }
    static T arg(int v) { return make(v); }
    static int val(const T& t) { return t == 0 ? (int)DFLT : t; }
    static int valc(const C& t) { return val(t); }
    static void set(T& t, int v) { t = make(v); }
};
struct BoolKind {
    using T = bool;
    using C = char;
    static const bool cls = false, copies = true;
    static T make(int v) { return v == 1; }
    static C makec(int v) { return v == 1 ? 'x' : 0; }
    static T arg(int v) { return make(v); }
    static int val(const T& t) { return t ? 1 : 2; }
    static int valc(const C& t) { return t ? 1 : 2; }
    static void set(T& t, int v) { t = make(v); }
};
struct DblKind {
    using T = double;
    using C = float;
    static const bool cls = false, copies = true;
    static T make(int v) { return v == DFLT ? 0 : v == 1 ? 1.5 : v; }
    static C makec(int v) { return (C)make(v); }
    static T arg(int v) { return make(v); }
    static int val(const T& t) { return t == 0 ? (int)DFLT : t == 1.5 ? 1 : (int)t == t ? (int)t : -9; }
    static int valc(const C& t) { return val(t); }
    static void set(T& t, int v) { t = make(v); }
};
// Pointers: from a pointer to a derived class, with a different address.
struct B1 { int x = 0; virtual ~B1() { } };
struct B2 { int y = 0; virtual ~B2() { } };
struct Der : B1, B2 { };
struct PtrKind {
    using T = B2*;
    using C = Der*;
    static const bool cls = false, copies = true;
    static Der* at(int v) { static Der d[10]; return v == DFLT ? nullptr : &d[v]; }
    static T make(int v) { return at(v); }
    static C makec(int v) { return at(v); }
    static T arg(int v) { return make(v); }
    static int val(const T& t)
    {
        for (int v = 1; v < 9; ++v)
            if (t == static_cast<B2*>(at(v)))
                return v;
        return -9;
    }
    static int valc(const C& t) { return val(t); }
    static void set(T& t, int v) { t = make(v); }
};

struct Driver {
    virtual ~Driver() { }
    virtual bool run(const Op& o, Obj& x) = 0;
};

template <class K> struct D : Driver {
    using T = typename K::T;
    using C = typename K::C;
    using O = opt::optional<T>;
    using OC = opt::optional<C>;
    std::unique_ptr<O> o[3];
    std::unique_ptr<OC> c;
    D()
    {
        o[1].reset(new O());
        o[2].reset(new O());
        c.reset(new OC());
    }
    // Constructs a new optional in place of x; the old one is destroyed first.
    template <class F> void renew(int x, F f)
    {
        o[x].reset();
        struct Guard {
            std::unique_ptr<O>& p;
            ~Guard()
            {
                if (!p)
                    p.reset(new O());
            }
        } g{o[x]};
        o[x].reset(f());
    }
    static void arm(const Op& p)
    {
        reg().fired = 0;
        reg().countdown = p.i("thr");
    }
    int make_new(const Op& p)
    {
        int x = p.i("x"), v = p.i("v");
        std::string f = p.s("f");
        T t = K::make(v);
        const auto a = K::arg(v);
        arm(p);
        struct Off { ~Off() { reg().countdown = 0; } } off;
        int r = 0;
        if (f == "none") renew(x, [&] { return new O(); });
        else if (f == "nullopt") renew(x, [&] { return new O(opt::nullopt); });
        else if (f == "rv") renew(x, [&] { return new O(std::move(t)); });
        else if (f == "cond1") renew(x, [&] { return new O(true, std::move(t)); });
        else if (f == "cond0") renew(x, [&] { return new O(false, std::move(t)); });
        else if (f == "inpl") renew(x, [&] { return new O(opt::in_place, a); });
        else if (f == "inpld") renew(x, [&] { return new O(opt::in_place); });
        else if (f == "if1") renew(x, [&] { return new O(opt::in_place_if, true, a); });
        else if (f == "if0") renew(x, [&] { return new O(opt::in_place_if, false, a); });
        else if (f == "mk") renew(x, [&] { return new O(opt::make_optional(std::move(t))); });
        else if (f == "mkc1") renew(x, [&] { return new O(opt::make_optional(true, std::move(t))); });
        else if (f == "mkc0") renew(x, [&] { return new O(opt::make_optional(false, std::move(t))); });
        else if (f == "mka") renew(x, [&] { return new O(opt::make_optional<T>(a)); });
        else if (f == "mkai1") renew(x, [&] { return new O(opt::make_optional<T>(true, a)); });
        else if (f == "mkai0") renew(x, [&] { return new O(opt::make_optional<T>(false, a)); });
        if constexpr (K::copies) {
            if (f == "lv") renew(x, [&] { return new O(t); });
            else if (f == "clv") renew(x, [&] { return new O(static_cast<const T&>(t)); });
            else if (f == "mklv") renew(x, [&] { return new O(opt::make_optional(t)); });
        }
        if constexpr (K::cls) {
            if (f == "inpl2") renew(x, [&] { return new O(opt::in_place, 7, v); });
            else if (f == "if21") renew(x, [&] { return new O(opt::in_place_if, true, 7, v); });
            else if (f == "il") renew(x, [&] { return new O(opt::in_place, {7, v}); });
            else if (f == "ilif1") renew(x, [&] { return new O(opt::in_place_if, true, {7, 7}, v); });
            else if (f == "ilif0") renew(x, [&] { return new O(opt::in_place_if, false, {7, v}); });
            else if (f == "mka2") renew(x, [&] { return new O(opt::make_optional<T>(7, v)); });
        }
        static const std::set<std::string> src{"rv", "cond1", "cond0", "mk", "mkc1", "mkc0", "lv", "clv", "mklv"};
        if (src.count(f))
            r = K::val(t);
        return r;
    }
    int newo(const Op& p)
    {
        int x = p.i("x"), y = p.i("y");
        std::string f = p.s("f");
        arm(p);
        if (f == "move") renew(x, [&] { return new O(std::move(*o[y])); });
        else if (f == "cmove") renew(x, [&] { return new O(std::move(*c)); });
        if constexpr (K::copies) {
            if (f == "copy") renew(x, [&] { return new O(*o[y]); });
            else if (f == "ccopy") renew(x, [&] { return new O(static_cast<const O&>(*o[y])); });
            else if (f == "conv") renew(x, [&] { return new O(*c); });
        }
        return 0;
    }
    // The optional assigned to is the one returned.
    void same(O& a, O& b)
    {
        if (&a != &b)
            ++reg().bad;
    }
    int asg(const Op& p)
    {
        O& q = *o[p.i("x")];
        std::string f = p.s("f");
        T t = K::make(p.i("v"));
        arm(p);
        struct Off { ~Off() { reg().countdown = 0; } } off;
        if (f == "null") { same(q = opt::nullopt, q); return 0; }
        if (f == "rv") same(q = std::move(t), q);
        if constexpr (K::copies) {
            if (f == "lv") same(q = t, q);
            if (f == "clv") same(q = static_cast<const T&>(t), q);
        }
        return K::val(t);
    }
    int asgo(const Op& p)
    {
        O& q = *o[p.i("x")];
        int y = p.i("y");
        std::string f = p.s("f");
        arm(p);
        if (f == "move") same(q = std::move(*o[y]), q);
        else if (f == "cmove") same(q = std::move(*c), q);
        if constexpr (K::copies) {
            if (f == "copy") same(q = *o[y], q);
            else if (f == "ccopy") same(q = static_cast<const O&>(*o[y]), q);
            else if (f == "conv") same(q = static_cast<const OC&>(*c), q);
        }
        return 0;
    }
    int emp(const Op& p)
    {
        O& q = *o[p.i("x")];
        int v = p.i("v");
        std::string f = p.s("f");
        arm(p);
        if (f == "one") q.emplace(K::arg(v));
        else if (f == "dflt") q.emplace();
        if constexpr (K::cls) {
            if (f == "two") q.emplace(7, v);
            else if (f == "il") q.emplace({7, v});
        }
        return 0;
    }
    int swap(const Op& p)
    {
        O &a = *o[p.i("x")], &b = *o[p.i("y")];
        arm(p);
        if (p.f("mem")) a.swap(b);
        else if (p.f("std")) std::swap(a, b);
        else { using std::swap; swap(a, b); }
        return 0;
    }
    int set(const Op& p)
    {
        O& q = *o[p.i("x")];
        std::string f = p.s("f");
        T dummy = K::make(1);
        T& t = f == "star" ? *q : f == "arrow" ? *q.operator->() : f == "get" ? q.get() : f == "value" ? q.value() : f == "getptr" ? *q.get_ptr()
             : f == "fget" ? opt::get(q) : f == "fgetp" ? *opt::get(&q) : f == "fptr" ? *opt::get_pointer(q) : f == "gvo" ? q.get_value_or(dummy)
             : opt::get_optional_value_or(q, dummy);
        K::set(t, p.i("v"));
        return 0;
    }
    int take(const Op& p)
    {
        O& q = *o[p.i("x")];
        T d = K::make(p.i("v"));
        arm(p);
        struct Off { ~Off() { reg().countdown = 0; } } off;
        try {
            if (p.f("value")) { T t = std::move(q).value(); reg().countdown = 0; return K::val(t); }
            if (p.f("star")) { T t = *std::move(q); reg().countdown = 0; return K::val(t); }
            T t = std::move(q).value_or(std::move(d));
            reg().countdown = 0;
            return K::val(t);
        } catch (opt::bad_optional_access&) {
            return -1;
        }
    }
    int vor(const Op& p)
    {
        if constexpr (K::copies) {
            const O& q = *o[p.i("x")];
            T d = K::make(p.i("v"));
            arm(p);
            struct Off { ~Off() { reg().countdown = 0; } } off;
            T t = p.f("rv") ? q.value_or(std::move(d)) : q.value_or(d);
            reg().countdown = 0;
            if (p.f("lv") && K::val(d) != p.i("v"))
                return -2;
            return K::val(t);
        }
        return 0;
    }
    template <class Q> void read(Q& q, std::set<int>& s)
    {
        T d = K::make(1);
        bool e = q.has_value();
        if (bool(q) != e || q.is_initialized() != e || !q == e || (q.get_ptr() != nullptr) != e || (opt::get(&q) != nullptr) != e
            || (opt::get_pointer(q) != nullptr) != e)
            s.insert(-3);
        if ((q == opt::nullopt) == e || (opt::nullopt == q) == e || (q != opt::nullopt) != e)
            s.insert(-4);
        bool thrown = false;
        try {
            s.insert(K::val(q.value()));
        } catch (opt::bad_optional_access&) {
            thrown = true;
        }
        if (thrown == e)
            s.insert(-5);
        if (e) {
            s.insert(K::val(q.get()));
            s.insert(K::val(*q));
            s.insert(K::val(*q.operator->()));
            s.insert(K::val(*q.get_ptr()));
            s.insert(K::val(opt::get(q)));
            s.insert(K::val(*opt::get(&q)));
            s.insert(K::val(*opt::get_pointer(q)));
            s.insert(K::val(q.get_value_or(d)));
            s.insert(K::val(opt::get_optional_value_or(q, d)));
            using std::addressof;
            if (addressof(q.get()) != addressof(*q) || addressof(q.value()) != addressof(*q) || q.operator->() != addressof(*q)
                || q.get_ptr() != addressof(*q))
                s.insert(-6);
        } else {
            s.insert(0);
            if (std::addressof(q.get_value_or(d)) != std::addressof(d) || std::addressof(opt::get_optional_value_or(q, d)) != std::addressof(d))
                s.insert(-7);
        }
        if constexpr (K::copies)
            if (e)
                s.insert(K::val(q.value_or(d)));
    }
    void observe(Obj& x)
    {
        std::vector<std::set<int>> vs(3);
        for (int i = 1; i <= 2; ++i) {
            read(*o[i], vs[i - 1]);
            read(static_cast<const O&>(*o[i]), vs[i - 1]);
        }
        vs[2].insert(c->has_value() ? K::valc(**c) : 0);
        x.raw("vs", lists(vs));
        x.put("lv", (int)reg().live.size());
        x.put("bad", reg().bad);
    }
    bool legal(const Op& p)
    {
        if (p.op == "set" || (p.op == "take" && p.f("star")))
            return o[p.i("x")]->has_value();
        return true;
    }
    bool run(const Op& p, Obj& x) override
    {
        if (!legal(p))
            return false;
        int r = 0, th = 0;
        reg().fired = 0;
        try {
            if (p.op == "new") r = make_new(p);
            else if (p.op == "newo") r = newo(p);
            else if (p.op == "asg") r = asg(p);
            else if (p.op == "asgo") r = asgo(p);
            else if (p.op == "emp") r = emp(p);
            else if (p.op == "reset") { if (p.i("x") == 3) c->reset(); else o[p.i("x")]->reset(); }
            else if (p.op == "setc") c.reset(new OC(K::makec(p.i("v"))));
            else if (p.op == "swap") r = swap(p);
            else if (p.op == "set") r = set(p);
            else if (p.op == "take") r = take(p);
            else if (p.op == "vor") r = vor(p);
        } catch (Injected&) {
            th = 1;
        }
        reg().countdown = 0;
        x.str("k", p.s("k"));
        x.put("th", th);
        x.put("fi", reg().fired);
        x.put("r", th ? 0 : r);
        observe(x);
        return true;
    }
};

static std::unique_ptr<Driver> d;

void seq::begin()
{
    d.reset();
    reg() = Reg();
}
bool seq::run(const Op& o, Obj& x)
{
    if (!d) {
        std::string k = o.s("k");
        if (k == "V") d.reset(new D<ClassKind<ValV>>);
        else if (k == "N") d.reset(new D<ClassKind<ValN>>);
        else if (k == "M") d.reset(new D<ClassKind<ValM>>);
        else if (k == "I") d.reset(new D<IntKind>);
        else if (k == "D") d.reset(new D<DblKind>);
        else if (k == "P") d.reset(new D<PtrKind>);
        else d.reset(new D<BoolKind>);
    }
    return d->run(o, x);
}
void seq::end(Obj& x)
{
    d.reset();
    x.str("e", "end");
    x.put("lv", (int)reg().live.size());
    x.put("bad", reg().bad);
}
