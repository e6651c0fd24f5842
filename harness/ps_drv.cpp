// Drives embedded::PersistentStorage.
//   U k n k n ...      the names and sizes looked up after every operation (the "universe")
//   O cap fillseed init twin   allocate a fresh region of cap bytes with pseudo-random contents and open it
//   P hex              like O (not initialised), with the given contents as the region
//   D                  from here on, events have the bytes of the region
//   R                  re-open the region without initialisation (with twin: only the second storage)
//   I                  re-open with initialisation
//   S k n v            store an object of n bytes (pattern v) under k
//   X k n v            store, simulating a reset after every single memory write (crash build only)
#include "drv.h"
#include "PersistentStorage.h"
#include <memory>
#include <optional>
#ifdef CRASH_BUILD
#include <sys/mman.h>
#include <ucontext.h>
#endif

using embedded::PersistentStorage;
using embedded::BytesView;

template<size_t N> struct Blob { unsigned char d[N]; };

// Objects of the same size and other types: what is stored are the bytes, whatever the type and whatever it calls equal.
struct Halves { uint16_t a; uint8_t b, c; bool operator==(const Halves &) const { return true; } bool operator!=(const Halves &) const { return false; } };
struct Pair { float x, y; bool operator==(const Pair &o) const { return x == o.x && y == o.y; } };
struct Triple { uint32_t a; float b; int32_t c; bool operator==(const Triple &o) const { return a == o.a; } };
struct alignas(8) Wide { double d; uint32_t a; uint16_t b, c; };
enum class Word : uint16_t {};
template<size_t N> struct Kinds { using A = Blob<N>; using B = Blob<N>; using C = Blob<N>; };
template<> struct Kinds<1> { using A = Blob<1>; using B = uint8_t; using C = char; };
template<> struct Kinds<2> { using A = Blob<2>; using B = int16_t; using C = Word; };
template<> struct Kinds<4> { using A = Blob<4>; using B = float; using C = Halves; };
template<> struct Kinds<8> { using A = double; using B = Pair; using C = Blob<8>; };
template<> struct Kinds<12> { using A = Blob<12>; using B = Triple; using C = std::array<float, 3>; };
template<> struct Kinds<16> { using A = Wide; using B = std::array<uint64_t, 2>; using C = Blob<16>; };

// The bytes of an object are given by one number. Some of them are numbers that compare unlike their bytes (not a number,
// the two zeros).
static unsigned char pat(unsigned v, size_t i, size_t n)
{
    if (n >= 4)
    {
        if (v == 255) return i == n - 1 ? 0x80 : 0;
        if (v == 254) return 0;
        if (v == 253) return i == n - 1 ? 0x7f : i == n - 2 ? 0xf8 : 0;
    }
    return (unsigned char)(v + 37 * i);
}
static int unpat(const unsigned char* d, size_t n)
{
    const unsigned first = d[0];
    for (unsigned v : { 255u, 254u, 253u, first })
    {
        size_t i = 0;
        while (i < n && d[i] == pat(v, i, n)) ++i;
        if (i == n) return (int)v;
    }
    return -2;
}

#define SIZES(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(12) X(16) X(24) X(32) X(58) X(100) X(250) X(257) X(260) X(264) X(506) X(1000) X(65528) X(65529) X(65530) X(65531) X(65532) X(65537) X(65540) X(70000) X(131066)

static unsigned kind = 0; // the type the next object is stored as
template<class T> bool setAs(PersistentStorage &s, std::string_view k, unsigned v)
{
    auto b = std::make_unique<T>();
    auto d = reinterpret_cast<unsigned char*>(b.get());
    for (size_t i = 0; i < sizeof(T); ++i) d[i] = pat(v, i, sizeof(T));
    return s.set(k, *b);
}
template<class T> int getAs(const PersistentStorage &s, std::string_view k)
{
    auto r = std::make_unique<std::optional<T>>(s.get<T>(k));
    if (!*r) return -1;
    return unpat(reinterpret_cast<const unsigned char*>(&**r), sizeof(T));
}
template<size_t N> bool setN(PersistentStorage &s, std::string_view k, unsigned v)
{
    static_assert(sizeof(typename Kinds<N>::A) == N && sizeof(typename Kinds<N>::B) == N && sizeof(typename Kinds<N>::C) == N);
    switch (kind % 3) {
    case 0: return setAs<typename Kinds<N>::A>(s, k, v);
    case 1: return setAs<typename Kinds<N>::B>(s, k, v);
    default: return setAs<typename Kinds<N>::C>(s, k, v);
    }
}
template<size_t N> int getN(const PersistentStorage &s, std::string_view k)
{
    const int a = getAs<typename Kinds<N>::A>(s, k);
    if (getAs<typename Kinds<N>::B>(s, k) != a || getAs<typename Kinds<N>::C>(s, k) != a) return -3;
    return a;
}
static bool setAny(PersistentStorage &s, std::string_view k, size_t n, unsigned v)
{
    switch (n) {
#define X(N) case N: return setN<N>(s, k, v);
    SIZES(X)
#undef X
    }
    fprintf(stderr, "size %zu\n", n); _exit(99);
}
static int getAny(const PersistentStorage &s, std::string_view k, size_t n)
{
    switch (n) {
#define X(N) case N: return getN<N>(s, k);
    SIZES(X)
#undef X
    }
    fprintf(stderr, "size %zu\n", n); _exit(99);
}

struct Region
{
    size_t cap = 0;
#ifdef CRASH_BUILD
    uint8_t* p = nullptr; size_t len = 0;
    void alloc(size_t c, size_t = 0) { release(); cap = c; len = (c / 4096 + 1) * 4096; p = (uint8_t*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    void release() { if (p) munmap(p, len); p = nullptr; }
    uint8_t* data() { return p; }
#else
    std::unique_ptr<uint8_t[]> p;
    size_t off = 0;
    // exact heap block: the sanitizer sees every overrun; sometimes not aligned
    void alloc(size_t c, size_t o = 0) { cap = c; off = o; p.reset(new uint8_t[c + o]); }
    uint8_t* data() { return p.get() + off; }
#endif
    BytesView view() { return BytesView(data(), cap); }
};

static std::vector<std::pair<std::string, size_t>> universe;
static Region regA, regB;
static std::unique_ptr<PersistentStorage> stA, stB;
static bool twin;

static std::string snap(const PersistentStorage &s)
{
    std::vector<int> r;
    for (auto &[k, n] : universe) r.push_back(getAny(s, k, n));
    return drv::Ev::list(r.begin(), r.end());
}
static void fill(Region &r, unsigned seed)
{
    uint32_t x = seed * 2654435761u + 12345;
    for (size_t i = 0; i < r.cap; ++i) { x = x * 1664525u + 1013904223u; r.data()[i] = seed == 0 ? 0 : (uint8_t)(x >> 24); }
}

static bool withImage = false;
static std::string image() { return drv::Ev::bytes(regA.data(), regA.cap); }

#ifdef CRASH_BUILD
static std::vector<uint8_t> images; // filled inside the signal handler, reserved beforehand
static size_t nImages, maxImages = 4000;
static void onSegv(int, siginfo_t* i, void* u)
{
    auto a = (uint8_t*)i->si_addr;
    if (a < regA.p || a >= regA.p + regA.len) { signal(SIGSEGV, SIG_DFL); return; }
    mprotect(regA.p, regA.len, PROT_READ | PROT_WRITE);
    ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] |= 0x100;
}
static void onTrap(int, siginfo_t*, void* u)
{
    if (nImages < maxImages) { memcpy(&images[nImages * regA.cap], regA.p, regA.cap); ++nImages; }
    mprotect(regA.p, regA.len, PROT_READ);
    ((ucontext_t*)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
}
static void crashSet(const std::string &k, size_t n, unsigned v)
{
    images.assign(maxImages * regA.cap + 1, 0);
    nImages = 0;
    const std::vector<uint8_t> before(regA.p, regA.p + regA.cap);
    struct sigaction sa {};
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sa.sa_sigaction = onSegv; sigaction(SIGSEGV, &sa, nullptr);
    sa.sa_sigaction = onTrap; sigaction(SIGTRAP, &sa, nullptr);
    // setN fills its object first; only the stores into the region fault
    mprotect(regA.p, regA.len, PROT_READ);
    const bool res = setAny(*stA, k, n, v);
    mprotect(regA.p, regA.len, PROT_READ | PROT_WRITE);
    signal(SIGSEGV, SIG_DFL);
    std::string im = "[";
    std::vector<uint8_t> last = before;
    size_t distinct = 0;
    for (size_t i = 0; i < nImages; ++i)
    {
        std::vector<uint8_t> cur(&images[i * regA.cap], &images[i * regA.cap] + regA.cap);
        if (cur == last && i) continue;
        last = cur;
        BytesView w(cur.data(), cur.size());
        PersistentStorage s(w, false);
        auto s1 = snap(s);
        const bool redo = setAny(s, k, n, v);
        auto s2 = snap(s);
        PersistentStorage t(w, false);
        auto s3 = snap(t);
        im += (distinct ? "," : "") + ("{\"s1\":" + s1 + ",\"redo\":" + (redo ? "true" : "false") + ",\"s2\":" + s2 + ",\"s3\":" + s3 + "}");
        ++distinct;
    }
    drv::Ev e("CrashSet");
    e.bytes("k", k).num("n", n).num("v", v).boolean("res", res).num("points", nImages).raw("images", im + "]").raw("snap", snap(*stA)).emit();
}
#endif

int main(int argc, char** argv)
{
#ifdef CRASH_BUILD
    static char altstack[1 << 16];
    stack_t ss {}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
#endif
    drv::lanes(universe, regA, regB, stA, stB, twin);
    return drv::run(argc, argv,
        [] { universe.clear(); stA.reset(); stB.reset(); twin = false; kind = 0; withImage = false; },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "U") { while (t.more()) { auto k = t.hex(); universe.emplace_back(k, t.num()); } return; }
            if (c == "D") { withImage = true; return; }
            auto done = [](drv::Ev &e) { if (withImage) e.raw("img", image()); e.emit(); };
            if (c == "O")
            {
                size_t cap = t.num(); unsigned seed = t.num(); bool init = t.num(); twin = t.num();
                regA.alloc(cap, seed % 3 == 2 ? 1 + seed % 7 : 0); fill(regA, seed);
                stA = std::make_unique<PersistentStorage>(regA.view(), init);
                if (twin) { regB.alloc(cap, seed % 4 == 2 ? 1 + seed % 7 : 0); fill(regB, seed); stB = std::make_unique<PersistentStorage>(regB.view(), init); }
                std::string u = "[";
                for (auto &[k, n] : universe) u += (u.size() > 1 ? "," : "") + ("{\"k\":" + drv::Ev::bytes(k.data(), k.size()) + ",\"n\":" + std::to_string(n) + "}");
                drv::Ev e("Open"); e.num("cap", cap).boolean("init", init).raw("uni", u + "]").raw("snap", snap(twin ? *stB : *stA)); done(e);
            }
            else if (c == "P")
            {
                auto b = t.hex();
                regA.alloc(b.size()); if (!b.empty()) memcpy(regA.data(), b.data(), b.size());
                stA = std::make_unique<PersistentStorage>(regA.view(), false);
                std::string u = "[";
                for (auto &[k, n] : universe) u += (u.size() > 1 ? "," : "") + ("{\"k\":" + drv::Ev::bytes(k.data(), k.size()) + ",\"n\":" + std::to_string(n) + "}");
                drv::Ev e("Open"); e.num("cap", b.size()).boolean("init", false).raw("uni", u + "]").raw("snap", snap(*stA));
                if (withImage) e.bytes("was", b);
                done(e);
            }
            else if (c == "R" || c == "I")
            {
                const bool init = c == "I";
                if (twin) { stB = std::make_unique<PersistentStorage>(regB.view(), init); if (init) stA = std::make_unique<PersistentStorage>(regA.view(), true); }
                else stA = std::make_unique<PersistentStorage>(regA.view(), init);
                drv::Ev e("Reopen"); e.boolean("init", init).raw("snap", snap(twin ? *stB : *stA)); done(e);
            }
            else if (c == "S")
            {
                auto k = t.hex(); size_t n = t.num(); unsigned v = t.num(); ++kind;
                bool res = setAny(*stA, k, n, v), res2 = res;
                if (twin) res2 = setAny(*stB, k, n, v);
                drv::Ev e("Set"); e.bytes("k", k).num("n", n).num("v", v).boolean("res", res).boolean("res2", res2).raw("snap", snap(twin ? *stB : *stA)); done(e);
            }
#ifdef CRASH_BUILD
            else if (c == "X") { auto k = t.hex(); size_t n = t.num(); unsigned v = t.num(); ++kind; crashSet(k, n, v); }
#endif
            else _exit(99);
        });
}
