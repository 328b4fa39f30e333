// opt::optional<T&> and opt::optional<void>, driven operation by operation (specification: OptionalRef.tla).
#include "seq.hpp"
#include <optional.hpp>
#include <memory>
#include <utility>

using namespace seq;

struct X {
    int v = 1;
    X() { }
    explicit X(int a) : v(a) { }
    X(const X&) = default;
    X& operator=(const X&) = default;
    X(X&& o) : v(o.v) { o.v = -1; }                     // an object that is moved away is not the same
    X& operator=(X&& o)
    {
        v = o.v;
        o.v = -1;
        return *this;
    }
    int* operator&() { return nullptr; }                // std::addressof has to be used
    const int* operator&() const { return nullptr; }
};
struct R_ { using T = int; using Cell = int; static int val(const int& c) { return c; } static int make(int v) { return v; }
            static void set(int& c, int v) { c = v; } };
struct K_ : R_ { using T = const int; };
struct X_ { using T = X; using Cell = X; static int val(const X& c) { return c.v; } static X make(int v) { return X(v); }
            static void set(X& c, int v) { c.v = v; } };

struct Driver {
    virtual ~Driver() { }
    virtual bool run(const Op& o, Obj& x) = 0;
};
enum { N = 3, M = 2 };

template <class K> struct Ref : Driver {
    using O = opt::optional<typename K::T&>;
    std::unique_ptr<O> o[N + 1];
    typename K::Cell cell[M + 1] = {K::make(1), K::make(1), K::make(1)};
    int bad = 0;
    Ref()
    {
        for (int i = 1; i <= N; ++i)
            o[i].reset(new O());
    }
    int which(const typename K::T& t)
    {
        for (int c = 1; c <= M; ++c)
            if (std::addressof(t) == std::addressof(cell[c]))
                return c;
        return -1;
    }
    bool run(const Op& p, Obj& x) override
    {
        int a = p.i("x"), b = p.i("y"), v = p.i("v"), r = 0;
        auto& c = cell[p.i("c")];
        if (p.op == "new") {
            if (p.f("none")) o[a].reset(new O());
            else if (p.f("nullopt")) o[a].reset(new O(opt::nullopt));
            else if (p.f("ref")) o[a].reset(new O(c));
            else if (p.f("inpl")) o[a].reset(new O(opt::in_place, c));
            else o[a].reset(new O(opt::make_optional(std::reference_wrapper<typename K::T>(c))));
        } else if (p.op == "newo") {
            if (p.f("copy")) o[a].reset(new O(*o[b]));
            else if (p.f("ccopy")) o[a].reset(new O(static_cast<const O&>(*o[b])));
            else o[a].reset(new O(std::move(*o[b])));
        } else if (p.op == "asgo") {
            O* q;
            if (p.f("copy")) q = &(*o[a] = *o[b]);
            else if (p.f("ccopy")) q = &(*o[a] = static_cast<const O&>(*o[b]));
            else if (p.f("move")) q = &(*o[a] = std::move(*o[b]));
            else q = &(*o[a] = O(*o[b]));
            bad += q != o[a].get();
        } else if (p.op == "null") {
            bad += &(*o[a] = opt::nullopt) != o[a].get();
        } else if (p.op == "reset") {
            o[a]->reset();
        } else if (p.op == "emp") {
            o[a]->emplace(c);
        } else if (p.op == "swap") {
            if (p.f("mem")) o[a]->swap(*o[b]);
            else if (p.f("std")) std::swap(*o[a], *o[b]);
            else { using std::swap; swap(*o[a], *o[b]); }
        } else if (p.op == "set") {
            if (!o[a]->has_value())
                return false;
            if constexpr (!std::is_const<typename K::T>::value) {
                if (p.f("star")) K::set(**o[a], v);
                else if (p.f("arrow")) K::set(*o[a]->operator->(), v);
                else K::set(o[a]->value(), v);
            }
        } else if (p.op == "cell") {
            K::set(c, v);
        } else if (p.op == "vor") {
            auto d = K::make(v);
            r = p.f("lv") ? K::val(o[a]->value_or(d)) : K::val(o[a]->value_or(K::make(v)));
            bad += K::val(d) != v;
        }
        std::vector<std::set<int>> vs(N), rd(N);
        for (int i = 1; i <= N; ++i) {
            const O& q = *o[i];
            bool e = q.has_value();
            bad += bool(q) != e || !q == e || (q == opt::nullopt) == e || (opt::nullopt == q) == e || (q != opt::nullopt) != e;
            bool thrown = false;
            try {
                auto& t = q.value();
                vs[i - 1].insert(which(t));
                rd[i - 1].insert(K::val(t));
            } catch (opt::bad_optional_access&) {
                thrown = true;
            }
            bad += thrown == e;
            if (e) {
                vs[i - 1].insert(which(*q));
                vs[i - 1].insert(which(*q.operator->()));
                rd[i - 1].insert(K::val(*q));
                rd[i - 1].insert(K::val(*q.operator->()));
                rd[i - 1].insert(K::val(q.value_or(K::make(1))));
            } else {
                vs[i - 1].insert(0);
                rd[i - 1].insert(0);
            }
        }
        x.str("k", p.s("k"));
        x.put("r", r);
        x.raw("vs", lists(vs));
        x.raw("rd", lists(rd));
        x.raw("cv", list({K::val(cell[1]), K::val(cell[2])}));
        x.put("bad", bad);
        return true;
    }
};

struct Void : Driver {
    using O = opt::optional<void>;
    std::unique_ptr<O> o[N + 1];
    int cell[M + 1] = {1, 1, 1}, bad = 0;
    Void()
    {
        for (int i = 1; i <= N; ++i)
            o[i].reset(new O());
    }
    bool run(const Op& p, Obj& x) override
    {
        int a = p.i("x"), b = p.i("y"), v = p.i("v"), r = 0;
        int& c = cell[p.i("c")];
        if (p.op == "new") {
            if (p.f("none")) o[a].reset(new O());
            else o[a].reset(new O(opt::nullopt));
        } else if (p.op == "newo") {
            if (p.f("copy")) o[a].reset(new O(*o[b]));
            else if (p.f("ccopy")) o[a].reset(new O(static_cast<const O&>(*o[b])));
            else o[a].reset(new O(std::move(*o[b])));
        } else if (p.op == "asgo") {
            if (p.f("copy")) *o[a] = *o[b];
            else if (p.f("ccopy")) *o[a] = static_cast<const O&>(*o[b]);
            else if (p.f("move")) *o[a] = std::move(*o[b]);
            else *o[a] = O();
        } else if (p.op == "asgv") *o[a] = v;
        else if (p.op == "null") *o[a] = opt::nullopt;
        else if (p.op == "reset") o[a]->reset();
        else if (p.op == "emp") o[a]->emplace(c);
        else if (p.op == "swap") o[a]->swap(*o[b]);
        else if (p.op == "cell") c = v;
        else if (p.op == "vor") {
            int d = v;
            r = p.f("lv") ? o[a]->value_or(d) : o[a]->value_or(int(v));
        }
        std::vector<std::set<int>> vs(N, std::set<int>{0});
        for (int i = 1; i <= N; ++i) {
            const O& q = *o[i];
            bool thrown = false;
            try {
                q.value();
            } catch (opt::bad_optional_access&) {
                thrown = true;
            }
            bad += !thrown || q.has_value() || bool(q) || !(q == opt::nullopt) || !(opt::nullopt == q) || q != opt::nullopt;
        }
        x.str("k", p.s("k"));
        x.put("r", r);
        x.raw("vs", lists(vs));
        x.raw("rd", lists(vs));
        x.raw("cv", list({cell[1], cell[2]}));
        x.put("bad", bad);
        return true;
    }
};

static std::unique_ptr<Driver> d;
void seq::begin() { d.reset(); }
bool seq::run(const Op& o, Obj& x)
{
    if (!d) {
        std::string k = o.s("k");
        if (k == "R") d.reset(new Ref<R_>);
        else if (k == "K") d.reset(new Ref<K_>);
        else if (k == "X") d.reset(new Ref<X_>);
        else d.reset(new Void);
    }
    return d->run(o, x);
}
void seq::end(Obj&) { }
