// Common part of the command-driven harness programs.
//
// A harness program reads a script (argv[1]) and writes one JSON event per line to argv[2].
//   T            starts a trace (the program resets its objects and writes the line T)
//   @ k          from here on, the commands are about the objects of lane k (see `lanes`)
//   anything     one command: handled by `command`, which writes one or more events
// The programs contain no oracle: what is right is decided by the TLA+ specifications.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <array>
#include <tuple>
#include <utility>
#include <vector>
#include <unistd.h>
#include <csignal>
#include <sys/time.h>

namespace drv
{
inline FILE* out = stdout;
inline bool mute = false; // no events while objects of the previous trace are destroyed

// code that runs nothing but the harness itself
inline int own = 0;
struct Own { Own() { ++own; } ~Own() { --own; } };

struct Tokens
{
    std::vector<std::string> t;
    std::size_t i = 0;
    bool more() const { return i < t.size(); }
    std::string str() { Own o; if (i >= t.size()) { fprintf(stderr, "bad script: %s\n", t.empty() ? "" : t[0].c_str()); _exit(99); } return t[i++]; }
    long long num() { return std::stoll(str()); }
    unsigned long long unum() { return std::stoull(str()); }
    std::string hex() // "h" followed by hex digits
    {
        Own o;
        auto s = str();
        std::string r;
        for (std::size_t k = 1; k + 1 < s.size(); k += 2) r.push_back(static_cast<char>(std::stoi(s.substr(k, 2), nullptr, 16)));
        return r;
    }
};

inline void (*before)() = nullptr; // writes events that were held back

// A command that goes on writing events does not finish either.
inline long written = 0;
inline void limitEvents() { if (++written > 20000) { signal(SIGALRM, SIG_DFL); raise(SIGALRM); } }

// A tiny JSON object writer.
class Ev
{
    std::string s;
    void key(const char* k) { s += s.empty() ? "{\"" : ",\""; s += k; s += "\":"; }
public:
    explicit Ev(const std::string &name) { str("ev", name); }
    Ev &num(const char* k, long long v) { Own o; key(k); s += std::to_string(v); return *this; }
    Ev &boolean(const char* k, bool v) { Own o; key(k); s += v ? "true" : "false"; return *this; }
    Ev &str(const char* k, const std::string &v) { Own o; key(k); s += '"'; s += v; s += '"'; return *this; } // plain ASCII only
    Ev &raw(const char* k, const std::string &v) { Own o; key(k); s += v; return *this; }
    template<class It> static std::string list(It b, It e)
    {
        Own o;
        std::string r = "[";
        for (auto i = b; i != e; ++i) { if (i != b) r += ','; r += std::to_string(static_cast<long long>(*i)); }
        return r + "]";
    }
    static std::string bytes(const void* p, std::size_t n)
    {
        auto b = static_cast<const unsigned char*>(p);
        return list(b, b + n);
    }
    Ev &bytes(const char* k, const void* p, std::size_t n) { return raw(k, bytes(p, n)); }
    Ev &bytes(const char* k, const std::string &v) { return raw(k, bytes(v.data(), v.size())); }
    void emit() { if (before) before(); if (mute) { s.clear(); return; } Own o; s += "}\n"; fwrite(s.data(), 1, s.size(), out); fflush(out); s.clear(); limitEvents(); }
};

// A buffer of exactly n bytes, at an address that is a multiple of nothing in particular.
class Block
{
    std::unique_ptr<uint8_t[]> p;
    std::size_t k;
public:
    Block(std::size_t n, std::size_t shift) : p(new uint8_t[n + (shift & 3)]), k(shift & 3) { memset(p.get(), 0xC5, k); }
    Block(const std::string &d) : Block(d.size(), d.size() + (d.empty() ? 0 : (uint8_t)d[0])) { memcpy(get(), d.data(), d.size()); }
    ~Block() { for (std::size_t i = 0; i < k; ++i) if (p[i] != 0xC5) { fprintf(stderr, "written before the buffer\n"); abort(); } }
    uint8_t* get() const { return p.get() + k; }
};

// Lanes: several independent sets of objects in one program. The driver names the variables that make up one set;
// the line "@ k" puts the current set aside and brings in the k-th.
inline constexpr int maxLanes = 3;
inline void (*select)(int) = nullptr;
inline int lane = 0;
inline void (*after)(FILE*, const std::string &) = nullptr; // called after every command
template<class... T> struct Lanes
{
    static inline std::tuple<T*...> live;
    static inline std::array<std::tuple<T...>, maxLanes> aside;
    template<std::size_t... I> static void exchange(int k, std::index_sequence<I...>)
    {
        using std::swap;
        (swap(*std::get<I>(live), std::get<I>(aside[k])), ...);
    }
    static void to(int k)
    {
        if (k == lane) return;
        exchange(lane, std::index_sequence_for<T...> {});
        exchange(k, std::index_sequence_for<T...> {});
        lane = k;
    }
};
template<class... T> void lanes(T &... v) { Lanes<T...>::live = { &v... }; select = &Lanes<T...>::to; }

// seconds of processor time and of time
inline void limit(int cpu, int wall)
{
    itimerval v{}; v.it_value.tv_sec = cpu;
    setitimer(ITIMER_PROF, &v, nullptr);
    alarm(wall);
}

template<class Reset, class Command>
int run(int argc, char** argv, Reset reset, Command command)
{
    if (argc < 3) return 99;
    std::ifstream in(argv[1]);
    out = fopen(argv[2], "w");
    if (!in || !out) return 99;
    std::string line;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        Tokens tok;
        {
            Own o;
            std::istringstream ss(line);
            std::string w;
            while (ss >> w) tok.t.push_back(w);
        }
        written = 0;
        limit(10, 150); // a command that does not finish kills the program: reported as Hang
        const auto name = tok.str();
        if (name == "T")
        {
            fputs("T\n", out); fflush(out); mute = true;
            for (int k = maxLanes - 1; k >= 0; --k) { if (select) select(k); else if (k) continue; reset(); }
            mute = false; limit(0, 0);
            if (after) after(out, name);
            continue;
        }
        if (name == "@")
        {
            if (before) before();
            auto k = tok.num();
            if (!select || k < 0 || k >= maxLanes) return 99;
            select(k); fprintf(out, "@%lld\n", k); fflush(out); limit(0, 0); continue;
        }
        command(name, tok);
        limit(0, 0);
        if (after) after(out, name);
    }
    fclose(out);
    mute = true;
    return 0;
}
}
