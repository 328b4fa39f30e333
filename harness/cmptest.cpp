// Comparison operators of opt::optional (specification: Compare.tla).
#include "seq.hpp"
#include <optional.hpp>
#include <climits>
#include <limits>
#include <memory>

using namespace seq;

struct Cls {
    int k;
    int noise;
    static Cls make(int a)
    {
        static int n = 0;
        return Cls{a, ++n};
    }
    friend bool operator==(const Cls& a, const Cls& b) { return a.k == b.k; }
    friend bool operator!=(const Cls& a, const Cls& b) { return a.k != b.k; }
    friend bool operator<(const Cls& a, const Cls& b) { return a.k < b.k; }
    friend bool operator<=(const Cls& a, const Cls& b) { return a.k <= b.k; }
    friend bool operator>(const Cls& a, const Cls& b) { return a.k > b.k; }
    friend bool operator>=(const Cls& a, const Cls& b) { return a.k >= b.k; }
};
// The values of rank 1..5 in increasing order.
template <class T> struct Val;
template <> struct Val<int> { static int at(int r) { static const int a[] = {INT_MIN, -1, 0, 7, INT_MAX}; return a[r - 1]; } };
template <> struct Val<unsigned char> { static unsigned char at(int r) { static const unsigned char a[] = {0, 1, 127, 128, 255}; return a[r - 1]; } };
template <> struct Val<double> { static double at(int r) { const double i = std::numeric_limits<double>::infinity();
    const double a[] = {-i, -1e-300, 0.0, 0.5, i}; return a[r - 1]; } };
template <> struct Val<std::string> { static std::string at(int r) { static const char* a[] = {"", "a", "aa", "b", "ba"}; return a[r - 1]; } };
template <> struct Val<Cls> { static Cls at(int r) { return Cls::make(r); } };

template <class A, class B> std::vector<int> six(A& a, B& b, int& bad)
{
    static_assert(std::is_same<decltype(a == b), bool>::value && std::is_same<decltype(a < b), bool>::value, "");
    std::vector<int> r{a == b, a != b, a < b, a <= b, a > b, a >= b};
    std::vector<int> again{a == b, a != b, a < b, a <= b, a > b, a >= b};
    bad += r != again;
    return r;
}

struct Driver {
    virtual ~Driver() { }
    virtual void run(const Op& o, Obj& x) = 0;
};

template <class T, class E> struct D : Driver {
    // E is T, T& or const T&
    using O = opt::optional<E>;
    O o[3];
    T cell[3][6];   // for references: a different object for every optional
    D()
    {
        for (int i = 0; i < 3; ++i)
            for (int r = 1; r <= 5; ++r)
                cell[i][r] = Val<T>::at(r);
    }
    void run(const Op& p, Obj& x) override
    {
        int a = p.i("x"), b = p.i("y"), v = p.i("v"), bad = 0;
        std::vector<int> r;
        if (p.op == "set") {
            if (v == 0) o[a] = opt::nullopt;
            else o[a].emplace(cell[a][v]);
        } else {
            O &l = o[a], &q = o[b];
            const O &cl = l, &cq = q;
            const T t = v ? Val<T>::at(v) : T();
            T nt = t;
            if (p.f("oo")) r = six(l, q, bad);
            else if (p.f("coo")) r = six(cl, cq, bad);
            else if (p.f("on")) r = six(cl, opt::nullopt, bad);
            else if (p.f("no")) r = six(opt::nullopt, l, bad);
            else if (p.f("ov")) { r = six(cl, t, bad); bad += six(l, nt, bad) != r; }
            else { r = six(t, cl, bad); bad += six(nt, l, bad) != r; }
        }
        std::vector<int> vs;
        for (int i = 1; i <= 2; ++i) {
            int k = 0;
            if (o[i].has_value()) {
                k = -1;
                for (int r = 1; r <= 5; ++r)
                    if (*o[i] == cell[i][r])
                        k = r;
            }
            vs.push_back(k);
        }
        x.raw("r", list(r));
        x.raw("vs", list(vs));
        x.put("bad", bad);
    }
};

static std::unique_ptr<Driver> d;
void seq::begin() { d.reset(); }
bool seq::run(const Op& o, Obj& x)
{
    if (!d) {
        std::string k = o.s("k");
        if (k == "int") d.reset(new D<int, int>);
        else if (k == "str") d.reset(new D<std::string, std::string>);
        else if (k == "dbl") d.reset(new D<double, double>);
        else if (k == "cls") d.reset(new D<Cls, Cls>);
        else if (k == "uns") d.reset(new D<unsigned char, unsigned char>);
        else if (k == "ref") d.reset(new D<int, int&>);
        else if (k == "cref") d.reset(new D<int, const int&>);
        else if (k == "rcls") d.reset(new D<Cls, Cls&>);
        else d.reset(new D<std::string, const std::string&>);
    }
    d->run(o, x);
    return true;
}
void seq::end(Obj&) { }
