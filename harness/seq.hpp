// Runs programs of operations on sequential parts of the library and records a trace of each.
//   usage: <binary> PROGRAMS TRACES FIRST
// PROGRAMS has one JSON-free line per operation ("name k=v ..."), "program ID" starts a program.
// A program is started with a line {"start":ID} and ended with its trace, so that the driver knows
// where an abnormal end happened; programs before number FIRST are skipped.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace seq {

struct Op {
    std::string op;
    std::map<std::string, std::string> kv;
    bool has(const char* k) const { return kv.count(k) > 0; }
    std::string s(const char* k) const { auto i = kv.find(k); return i == kv.end() ? std::string() : i->second; }
    int i(const char* k) const { auto i = kv.find(k); return i == kv.end() ? 0 : atoi(i->second.c_str()); }
    bool f(const char* v) const { return s("f") == v; }
    std::string json() const
    {
        std::string r = "{\"op\":\"" + op + "\"";
        for (auto& p : kv) {
            char* e = nullptr;
            strtol(p.second.c_str(), &e, 10);
            bool num = !p.second.empty() && *e == 0;
            r += ",\"" + p.first + "\":" + (num ? p.second : "\"" + p.second + "\"");
        }
        return r + "}";
    }
};

// A JSON object under construction.
struct Obj {
    std::string s;
    void raw(const char* k, const std::string& v) { s += (s.empty() ? "\"" : ",\"") + std::string(k) + "\":" + v; }
    void put(const char* k, int v) { raw(k, std::to_string(v)); }
    void str(const char* k, const std::string& v) { raw(k, "\"" + v + "\""); }
};
inline std::string list(const std::vector<int>& v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
template <class C> std::string lists(const C& v)
{
    std::string r = "[";
    bool first = true;
    for (auto& x : v) {
        r += (first ? "" : ",") + list(std::vector<int>(x.begin(), x.end()));
        first = false;
    }
    return r + "]";
}

struct Injected {};

// Objects that notice being used outside of their life; counters for the observations.
struct Reg {
    std::set<const void*> live;
    int bad = 0, copies = 0, moves = 0, fired = 0, countdown = 0;
    void born(const void* p, size_t align)
    {
        if (!live.insert(p).second)
            ++bad;
        if (reinterpret_cast<size_t>(p) % align)
            ++bad;
    }
    void died(const void* p)
    {
        if (!live.erase(p))
            ++bad;
    }
    void used(const void* p)
    {
        if (!live.count(p))
            ++bad;
    }
    // An operation of the object that may fail.
    void may_throw()
    {
        if (countdown && --countdown == 0) {
            ++fired;
            throw Injected();
        }
    }
};
inline Reg& reg()
{
    static Reg r;
    return r;
}

// Implemented by the harness.
void begin();
bool run(const Op& o, Obj& out);    // false: not possible now, left out
void end(Obj& out);
}

int main(int argc, char** argv)
{
    using namespace seq;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "a");
    int first = atoi(argv[3]);
    std::vector<std::pair<std::string, std::vector<Op>>> progs;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ls(line);
        Op o;
        ls >> o.op;
        std::string t;
        if (o.op == "program") {
            ls >> t;
            progs.push_back({t, {}});
            continue;
        }
        while (ls >> t) {
            auto e = t.find('=');
            o.kv[t.substr(0, e)] = t.substr(e + 1);
        }
        progs.back().second.push_back(o);
    }
    for (size_t i = first; i < progs.size(); ++i) {
        fprintf(out, "{\"start\":%d}\n", (int)i);
        fflush(out);
        alarm(20);
        std::string ev;
        begin();
        for (auto& o : progs[i].second) {
            Obj x;
            x.str("e", "op");
            x.raw("o", o.json());
            try {
                if (!run(o, x))
                    continue;
            } catch (...) {
                x.str("e2", "exception");
                ev += (ev.empty() ? "{" : ",{") + x.s + "}";
                ev += ",{\"e\":\"exception\"}";
                break;
            }
            ev += (ev.empty() ? "{" : ",{") + x.s + "}";
        }
        Obj x;
        end(x);
        if (!x.s.empty())
            ev += (ev.empty() ? "{" : ",{") + x.s + "}";
        fprintf(out, "{\"p\":\"%s\",\"ev\":[%s]}\n", progs[i].first.c_str(), ev.c_str());
    }
    fclose(out);
    printf("done\n");
    return 0;
}
