// What slots call (specification: Callable.tla).
#include "seq.hpp"
#include <signals.hpp>
#include <functional>
#include <memory>
#include <utility>

using namespace seq;
using namespace std::placeholders;

// What the callables computed since the last operation (a void signature returns nothing).
static std::vector<int> seen;
static int log(int v) { seen.push_back(v); return v; }
// The value of the arguments of a call; 1 if there are none.
using Mo = std::unique_ptr<int>;
static int val() { return 1; }
static int val(int a) { return a; }
static int val(const Mo& p) { return p ? *p : 500; }
static int val(int a, long b, int c) { return b == 2L * a && c == 3 * a ? a : 600; }

// Every callable adds its argument to an accumulator and returns a code + the new value.
struct Base {
    int acc = 0;
    Base() { reg().born(this, alignof(Base)); }
    Base(const Base& o) : acc(o.acc) { reg().used(&o); reg().born(this, alignof(Base)); }
    Base(Base&& o) : acc(o.acc) { reg().used(&o); o.acc = -500; reg().born(this, alignof(Base)); }
    Base& operator=(const Base&) = delete;
    virtual ~Base() { reg().died(this); }
    friend bool operator==(const Base& x, const Base& y)
    {
        reg().used(&x);
        reg().used(&y);
        return x.acc == y.acc;
    }
    int up(int a, int code) { reg().used(this); acc += a; return log(code + acc); }
    int look(int code) const { reg().used(this); return log(code + acc); }

#define MEMBERS(PAR, ARG) \
    int add PAR { return up(val ARG, 3000); } \
    int peek PAR const { return look(4000); } \
    int noex PAR noexcept { return up(val ARG, 5000); } \
    int lval PAR & { return up(val ARG, 6000); } \
    virtual int virt PAR { return up(val ARG, 1000); } \
    virtual int vconst PAR const { return look(1000); } \
    int operator() PAR { return up(val ARG, 8000); } \
    int& radd PAR { up(val ARG, 0); return acc; } \
    const int& rpeek PAR const { look(0); return acc; }
    MEMBERS((), ())
    MEMBERS((int a), (a))
    MEMBERS((Mo a), (a))
    MEMBERS((int a, long b, int c), (a, b, c))
};
struct Derived : Base {
    int pad[3] = {1, 2, 3};
#define OVERRIDES(PAR, ARG) \
    int virt PAR override { return up(val ARG, 2000); } \
    int vconst PAR const override { return look(2000); }
    OVERRIDES((), ())
    OVERRIDES((int a), (a))
    OVERRIDES((Mo a), (a))
    OVERRIDES((int a, long b, int c), (a, b, c))
};
static int global;
template <class... A> int freef(A... a) { global += val(a...); return log(7000 + global); }
template <class... A> int nfreef(A... a) noexcept { global += val(a...); return log(7000 + global); }
template <class... A> int& rfreef(A... a) { global += val(a...); log(global); return global; }

// Function objects that have neither state nor ==.
template <class... A> struct Emp {
    int operator()(A... a) const { return freef<A...>(std::forward<A>(a)...); }
};

// Function objects with overloads; calls of a slot are calls of an lvalue that is not constant.
template <class... A> struct Ovl {
    Base b;
    int operator()(A... a) & { return b.up(val(a...), 8000); }
    int operator()(A... a) && { return b.up(val(a...), 8900); }
    int operator()(A... a) const & { return b.look(8900); }
};
template <class... A> struct RFun {
    Base b;
    int& operator()(A... a) { return b.radd(std::forward<A>(a)...); }
};
template <class... A> struct RRef {
    Base* p;
    int& operator()(A... a) const { return p->radd(std::forward<A>(a)...); }
};
template <class F> struct Params;
// A generic lambda gets what the signature says, parameters by value as rvalues.
template <class R, class... P> struct Params<R(P...)> {
    static auto glam(Base* p)
    {
        return [p](auto&&... a) {
            return p->up(val(std::forward<decltype(a)>(a)...), (std::is_same<decltype(a), P&&>::value && ...) ? 8000 : 8900);
        };
    }
};

// Lambdas: one type each, wherever they are used.
template <class... A> auto nlam() { return [](A... a) { return freef<A...>(std::forward<A>(a)...); }; }
template <class... A> auto lam(Base* p) { return [p](A... a) { return p->up(val(a...), 8000); }; }
template <class... A> auto rlam(Base* p) { return [p](A... a) -> int& { return p->radd(std::forward<A>(a)...); }; }
template <class... A> auto lamr(Base* p) { return [p](A... a) { return p->up(val(a...), 8000); }; }
template <class... A> auto lamv(int c) { return [c](A... a) mutable { c += val(a...); return log(8000 + c); }; }

// Pointers of the user's own making.
namespace my {
struct Ptr {
    std::shared_ptr<Base> p;
    Base& operator*() const { return *p; }
};
std::weak_ptr<Base> to_weak(Ptr p) { return p.p; }
struct Fancy {
    Base* p;
    explicit Fancy(Base* q) : p(q) { }
    Base& operator*() const { return *p; }
};
}

static int known(const int* p);
template <class T, typename std::enable_if<!std::is_lvalue_reference<T>::value, int>::type = 0> int code_(const typename std::remove_reference<T>::type& v) { return (int)v; }
template <class T, typename std::enable_if<std::is_lvalue_reference<T>::value, int>::type = 0> int code_(T v) { return known(&v) * 100000 + v; }
template <class T> struct Collect {
    template <class V> static int code(V&& v) { return code_<T>(v); }
    struct result_type { std::vector<int> r; };
    template <class It> result_type operator()(It f, It l) const
    {
        result_type res;
        for (; f != l; ++f) {
            auto r = *f;
            res.r.push_back(r ? code(*r) : -1);
        }
        return res;
    }
};
struct Ignore {
    struct result_type { std::vector<int> r; };
    template <class It> result_type operator()(It f, It l) const
    {
        for (; f != l; ++f)
            if (*f)
                return {{-1}};
        return {};
    }
};

// Signatures: F, the parameters of the callables L, how to call it.
template <class... A> struct List { };
struct Plain { static const bool zero = false, obj = false, ref = false, withrefs = false; using L = List<int>; };
struct SI : Plain { static const bool withrefs = true; using F = int(int); template <class C> static auto call(C& c, int a) { return c(+a); } };
struct SV : Plain { static const bool withrefs = true; using F = void(int); template <class C> static auto call(C& c, int a) { return c(+a); } };
struct SL : Plain { using F = long(short); template <class C> static auto call(C& c, int a) { return c((short)a); } };
struct SD : Plain { using F = int(double); template <class C> static auto call(C& c, int a) { return c(a + 0.75); } };
struct SF : Plain { using F = float(int); template <class C> static auto call(C& c, int a) { return c(+a); } };
struct SZ : Plain { using F = int(); using L = List<>; static const bool zero = true, withrefs = true; template <class C> static auto call(C& c, int) { return c(); } };
struct SM : Plain { using F = int(Mo); using L = List<Mo>; template <class C> static auto call(C& c, int a) { return c(Mo(new int(a))); } };
struct SN : SM { using F = void(Mo); };
struct SR : Plain { using F = int(Mo&&); using L = List<Mo>; template <class C> static auto call(C& c, int a) { return c(Mo(new int(a))); } };
struct SW : Plain { using F = int(int, long, int); using L = List<int, long, int>; template <class C> static auto call(C& c, int a) { return c(+a, 2L * a, 3 * a); } };
struct SQ : Plain { static const bool ref = true; using F = int&(int); template <class C> static auto call(C& c, int a) { return c(+a); } };
struct SS : SZ { static const bool ref = true; using F = int&(); };
struct ST : SZ { static const bool ref = true; using F = const int&(); };
struct SO : Plain { using F = int(Base&, int); static const bool obj = true, ptr = false; };
struct SP : Plain { using F = int(Base*, int); static const bool obj = true, ptr = true; };

struct Driver {
    virtual ~Driver() { }
    virtual bool run(const Op& o, Obj& x) = 0;
};

static const int* mine[3];
static int known(const int* p)
{
    if (p == &global) return 0;
    return p == mine[1] ? 1 : p == mine[2] ? 2 : 9;
}

template <class F> struct Result;
template <class R, class... A> struct Result<R(A...)> { using type = R; };
template <class M> struct isLval : std::false_type { };
template <class... A> struct isLval<int (Base::*)(A...) &> : std::true_type { };

template <class G> struct D : Driver {
    using F = typename G::F;
    using S = sig::slot<F>;
    using R = typename Result<F>::type;
    using Deflt = std::is_same<F, int&(int)>;
    using Comb = typename std::conditional<std::is_void<R>::value, Ignore,
                 typename std::conditional<Deflt::value, sig::optional_last_value<R>, Collect<R>>::type>::type;
    std::shared_ptr<Base> o[3];
    std::shared_ptr<Derived> der;
    sig::signal<void(int)> inner[3];
    template <class... A> static inline RRef<A...> rr[3];
    std::unique_ptr<S> sl[3];
    std::vector<sig::scoped_connection> sc;
    std::unique_ptr<sig::signal<F, Comb>> sg{new sig::signal<F, Comb>};
    D()
    {
        o[1] = std::make_shared<Base>();
        der = std::make_shared<Derived>();
        o[2] = der;
        mine[1] = &o[1]->acc;
        mine[2] = &o[2]->acc;
        for (int i = 1; i <= 2; ++i) {
            Base* p = o[i].get();
            inner[i].connect([p](int a) { p->up(a, 8000); });
        }
        sl[1].reset(new S());
        sl[2].reset(new S());
    }

    // The member function of kind k; f gets it.
    template <class... A, class H> void member(List<A...>, const std::string& k, H f)
    {
        using M = int (Base::*)(A...);
        using C = int (Base::*)(A...) const;
        if constexpr (G::ref || G::withrefs) {
            using RC = const int& (Base::*)(A...) const;
            if (k == "radd") return f(static_cast<int& (Base::*)(A...)>(&Base::radd));
            if constexpr (!std::is_same<R, int&>::value)
                if (k == "rpeek") return f(static_cast<RC>(&Base::rpeek));
            if constexpr (G::ref) return;
        }
        if constexpr (!G::ref) {
        if (k == "peek") f(static_cast<C>(&Base::peek));
        else if (k == "vconst") f(static_cast<C>(&Base::vconst));
        else if (k == "add" || k == "inh") f(static_cast<M>(&Base::add));
        else if (k == "virt") f(static_cast<M>(&Base::virt));
        else if (k == "noex") f(static_cast<int (Base::*)(A...) noexcept>(&Base::noex));
        else if (k == "lval") f(static_cast<int (Base::*)(A...) &>(&Base::lval));
        }
    }
    template <class... A, class H> void cmember(List<A...>, const std::string& k, H f)
    {
        using C = int (Base::*)(A...) const;
        if constexpr (!std::is_same<R, int&>::value && (G::ref || G::withrefs))
            if (k == "rpeek") return f(static_cast<const int& (Base::*)(A...) const>(&Base::rpeek));
        if constexpr (!G::ref) {
            if (k == "peek") return f(static_cast<C>(&Base::peek));
            if (k == "vconst") return f(static_cast<C>(&Base::vconst));
        }
        // A constant object has no int& to give.
        if constexpr (G::zero && !std::is_same<R, int&>::value)
            if (k == "pmd" || k == "pmdinh") f(&Base::acc);
    }
    // Designates object i for member m; T is the static type of the object.
    template <bool Weak, class T, class M, class H> void designate(M m, const std::string& d, std::shared_ptr<T> p, int i, H sink)
    {
        T* raw = p.get();
        if (d == "ptr") sink(m, raw + 0);
        else if (d == "lvptr") { sink(m, raw); raw = nullptr; }
        else if (d == "ref") sink(m, std::ref(*p));
        else if (d == "sp") { std::shared_ptr<T> q = p; sink(m, q); }
        else if (d == "mysp") sink(m, my::Ptr{p});
        else if (d == "fancy") sink(m, my::Fancy(raw));
        else if (d == "val") { if (i == 2) sink(m, *der); else sink(m, *o[1]); }
        // Only a slot can be made of an lvalue member function and a temporary object.
        if constexpr (Weak || !(isLval<M>::value || (std::is_same<R, int&>::value && std::is_member_object_pointer<M>::value)))
            if (d == "valrv") { if (i == 2) sink(m, Derived(*der)); else sink(m, Base(*o[1])); }
        if constexpr (Weak)
            if (d == "wp") sink(m, std::weak_ptr<T>(p));
    }
    template <class M, class H> void cdesignate(M m, const std::string& d, std::shared_ptr<Base> p, H sink)
    {
        const Base* raw = p.get();
        if (d == "cptr") sink(m, raw);
        else if (d == "cref") sink(m, std::cref(*p));
        else sink(m, std::shared_ptr<const Base>(p));
    }
    template <bool Weak, class H> void make(const std::string& k, const std::string& d, int i, H sink)
    {
        if constexpr (G::obj) {
            member(typename G::L(), k, [&](auto m) { sink(m); });
        } else {
            static const std::set<std::string> mem{"add", "virt", "peek", "inh", "noex", "lval", "vconst", "pmd", "pmdinh", "radd", "rpeek"};
            if (mem.count(k)) {
                if (d == "cptr" || d == "cref" || d == "csp") {
                    cmember(typename G::L(), k, [&](auto m) { cdesignate(m, d, o[i], sink); });
                } else if (k == "pmd" || k == "pmdinh") {
                    if constexpr (G::zero) {
                        if (k == "pmd") designate<Weak>(&Base::acc, d, o[i], i, sink);
                        else designate<Weak>(&Base::acc, d, der, i, sink);
                    }
                } else if (k == "inh") {
                    member(typename G::L(), k, [&](auto m) { designate<Weak>(m, d, der, i, sink); });
                } else {
                    member(typename G::L(), k, [&](auto m) { designate<Weak>(m, d, o[i], i, sink); });
                }
                return;
            }
            functions(typename G::L(), k, i, sink);
        }
    }
    template <class H, class... A, class... P> void bound(List<A...>, const std::string& k, int i, H sink, P... ph)
    {
        Base* p = o[i].get();
        int (Base::*pm)(A...) = &Base::add;
        if (k == "bindp") sink(std::bind(pm, p, ph...));
        else if (k == "bindr") sink(std::bind(pm, std::ref(*p), ph...));
        else if (k == "bindsp") sink(std::bind(pm, o[i], ph...));
        else if (k == "bindv") sink(std::bind(pm, *p, ph...));
        else if (k == "bindlam") sink(std::bind(lamv<A...>(p->acc), ph...));
    }
    template <class... A, class H> void functions(List<A...> l, const std::string& k, int i, H sink)
    {
        Base* p = o[i].get();
        using SF = std::function<int(A...)>;
        if constexpr (G::ref || G::withrefs) {
            if (k == "rfree") return sink(rfreef<A...>);
            if (k == "rlam") return sink(rlam<A...>(p));
            if (k == "rfun") return sink(RFun<A...>{Base(*p)});
            if (k == "rref") { rr<A...>[i].p = p; return sink(std::ref(rr<A...>[i])); }
            if (k == "rstd") return sink(std::function<int&(A...)>(RRef<A...>{p}));
            if constexpr (G::ref) return;
        }
        if constexpr (!G::ref) {
        if constexpr (std::is_same<F, void(int)>::value)
            if (k == "chain") return sink(std::ref(inner[i]));
        if (k == "nfree") return sink(nfreef<A...>);
        if (k == "emp") return sink(Emp<A...>());
        if (k == "glam") return sink(Params<F>::glam(p));
        if (k == "ovl") return sink(Ovl<A...>{Base(*p)});
        if (k == "free") sink(freef<A...>);
        else if (k == "fptr") sink(&freef<A...>);
        else if (k == "nlam") sink(nlam<A...>());
        else if (k == "lam") sink(lam<A...>(p));
        else if (k == "lamr") { auto f = lamr<A...>(p); sink(f); }
        else if (k == "lamv") sink(lamv<A...>(p->acc));
        else if (k == "fun") { if (i == 2) sink(*der); else sink(*o[1]); }
        else if (k == "funrv") sink(Base(*p));
        else if (k == "cfun") sink(static_cast<const Base&>(*p));
        else if (k == "funref") sink(std::ref(*p));
        else if (k == "stdfun") sink(SF(*p));
        else if (k == "stdref") sink(SF(std::ref(*p)));
        else if (k == "stdlam") { const SF f([p](A... a) { return p->up(val(a...), 8000); }); sink(f); }
        else if constexpr (sizeof...(A) == 0) bound(l, k, i, sink);
        else if constexpr (sizeof...(A) == 1) bound(l, k, i, sink, _1);
        else bound(l, k, i, sink, _1, _2, _3);
        }
    }
    template <class C> auto invoke(C& c, int a, int i)
    {
        if constexpr (G::obj) {
            if constexpr (G::ptr) return c(o[i].get(), +a);
            else return c(*o[i], +a);
        }
        else return G::call(c, a);
    }
    bool run(const Op& p, Obj& x) override
    {
        std::vector<int> r;
        seen.clear();
        int s = p.i("s"), s2 = p.i("s2"), i = p.i("i"), a = p.i("a");
        if (p.op == "mk") {
            make<true>(p.s("k"), p.s("d"), i, [&](auto&&... v) { sl[s].reset(new S(std::forward<decltype(v)>(v)...)); });
        } else if (p.op == "cdir") {
            make<false>(p.s("k"), p.s("d"), i, [&](auto&&... v) {
                if (p.i("i") % 2)
                    sg->connect(std::forward<decltype(v)>(v)...);
                else
                    sc.push_back(sg->connect_scoped(std::forward<decltype(v)>(v)...));
            });
        } else if (p.op == "cp") sl[s].reset(new S(*sl[s2]));
        else if (p.op == "cpa") *sl[s] = *sl[s2];
        else if (p.op == "mv") sl[s].reset(new S(std::move(*sl[s2])));
        else if (p.op == "mva") *sl[s] = std::move(*sl[s2]);
        else if (p.op == "call") {
            if constexpr (std::is_void<R>::value) invoke(*sl[s], a, i);
            else {
                auto q = invoke(*sl[s], a, i);
                static_assert(std::is_same<decltype(q), opt::optional<R>>::value, "");
                r.push_back(q ? code_<R>(*q) : -1);
            }
        } else if (p.op == "conn") {
            if (p.f("copy")) sg->connect(*sl[s]);
            else if (p.f("rv")) sg->connect(S(*sl[s]));
            else sc.push_back(sg->connect_scoped(*sl[s]));
        } else if (p.op == "emit") {
            if constexpr (Deflt::value) {
                auto q = invoke(*sg, a, i);
                if (q) r.push_back(code_<R>(*q));
            }
            else r = invoke(*sg, a, i).r;
        } else if (p.op == "disc") {
            try {
                make<false>(p.s("k"), p.s("d"), i, [&](auto&&... v) { r.push_back((int)sg->disconnect(std::forward<decltype(v)>(v)...)); });
            } catch (sig::not_comparable_exception&) {
                r.push_back(-9);
            }
        } else if (p.op == "discs") {
            try {
                r.push_back((int)sg->disconnect(*sl[s]));
            } catch (sig::not_comparable_exception&) {
                r.push_back(-9);
            }
        } else if (p.op == "eq") {
            const S &x = *sl[s], &y = *sl[s2];
            try {
                int n = x == y;
                bool ne = x != y;
                r.push_back(ne == !n ? n : -7);
            } catch (sig::not_comparable_exception&) {
                r.push_back(-9);
            }
        } else if (p.op == "fresh") {
            sc.clear();
            sg.reset(new sig::signal<F, Comb>);
        } else if (p.op == "user") {
            o[i]->acc += a;
        }
        if (p.op != "call" && p.op != "emit") {
            if (!seen.empty())
                r = {-8};
        } else if (std::is_void<R>::value) r = seen;
        x.str("g", p.s("g"));
        x.raw("r", list(r));
        x.raw("ac", list({global, o[1]->acc, o[2]->acc}));
        x.raw("em", list({!*sl[1], !*sl[2]}));
        x.put("bad", reg().bad);
        return true;
    }
};

// The signatures of this binary.
#ifndef SIGS
#define SIGS X(I)
#endif
static std::unique_ptr<Driver> d;
void seq::begin()
{
    d.reset();
    global = 0;
    reg() = Reg();
}
bool seq::run(const Op& o, Obj& x)
{
    if (!d) {
        std::string g = o.s("g");
#define X(G) if (g == #G) d.reset(new D<S##G>);
        SIGS
#undef X
        if (!d)
            return false;
    }
    return d->run(o, x);
}
void seq::end(Obj& x)
{
    d.reset();
    x.str("e", "end");
    x.put("lv", (int)reg().live.size());
    x.put("bad", reg().bad);
}
