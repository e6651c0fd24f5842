// Drives embedded::MemoryView and the endianness conversions.
//   N type ctor n seed      a base of n elements of the type, viewed whole; ctor: p pointer+size, r pointer pair,
//                           a std::array (n = 5), c C array (n = 5)
//   B type ctor n           the same with a large base, of which only the positions of the elements are shown
//   F n | L n | R o | M o n | W      first, last, rest, middle, whole (n, o: any value of the size type)
//   E fn v v v ...          converts the values
#include <algorithm>
#include "drv.h"
#include "MemoryView.h"
#include "EndianConversion.h"
#include <memory>
#include <functional>
#include <type_traits>

using embedded::MemoryView;
static size_t clip(unsigned long long n) { return n > 1000000000ull ? 1000000000ull : n; }
template<class It> static std::string els(It b, It e)
{
    std::string r = "[";
    for (; b != e; ++b) { auto v = *b; r += (r.size() > 1 ? "," : "") + drv::Ev::bytes(&v, sizeof v); }
    return r + "]";
}

struct AnyView { virtual ~AnyView() = default; virtual void op(const std::string &c, drv::Tokens &t) = 0; };

template<class T> struct TView : AnyView
{
    using M = std::remove_const_t<T>;
    std::unique_ptr<M[]> base;
    std::unique_ptr<std::array<M, 5>> arr;
    struct C5 { M a[5]; };
    std::unique_ptr<C5> carr;
    M* p = nullptr;
    MemoryView<T> whole, cur;
    bool big = false;
    TView(char ctor, size_t n)
    : big(true)
    {
        base.reset(new M[n]);
        p = base.get();
        if (ctor == 'r') whole = MemoryView<T>((T*)p, (T*)p + n); else whole = MemoryView<T>((T*)p, n);
        cur = whole;
        drv::Ev e("Big");
        e.num("n", n);
        places(e);
    }
    void places(drv::Ev &e)
    {
        const auto &v = cur;
        const MemoryView<const M> cv = v;
        const auto by = v.as_bytes();
        e.num("width", sizeof(M)).num("size", clip(v.size())).num("bytes_size", clip(v.size_bytes())).boolean("empty", v.empty());
        std::string r = "[";
        auto at = [&](const void* q, size_t bytes) { r += std::string(r.size() > 1 ? "," : "") + "[" + (bytes ? std::to_string((const char*)q - (const char*)p) : std::string("0")) + "," + std::to_string(clip(bytes)) + "]"; };
        auto range = [&](auto b, auto e) { at(b, (const char*)e - (const char*)b); };
        range(v.begin(), v.end()); range(v.cbegin(), v.cend());
        range(v.rend().base(), v.rbegin().base()); range(v.crend().base(), v.crbegin().base());
        range(cv.begin(), cv.end()); at(cv.data(), cv.size() * sizeof(M)); at(v.data(), v.size() * sizeof(M));
        range(by.begin(), by.end()); at(by.data(), by.size());
        if constexpr (!std::is_const_v<T>) { auto w = v.as_writable_bytes(); range(w.begin(), w.end()); at(w.data(), w.size()); }
        if constexpr (std::is_same_v<M, char>) { std::string_view s = v; at(s.data(), s.size()); }
        if (!v.empty()) at(&v.front(), (const char*)(&v.back() + 1) - (const char*)&v.front());
        e.raw("places", r + "]");
        e.emit();
    }
    TView(char ctor, size_t n, unsigned seed)
    {
        uint32_t x = seed * 2654435761u + 99;
        auto fill = [&](M* q) { p = q; for (size_t i = 0; i < n * sizeof(M); ++i) { x = x * 1664525u + 1013904223u; ((uint8_t*)q)[i] = x >> 24; } };
        if (ctor == 'a') { n = 5; arr = std::make_unique<std::array<M, 5>>(); fill(arr->data()); if constexpr (!std::is_const_v<T>) whole = MemoryView<T>(*arr); else whole = MemoryView<T>(arr->data(), 5); }
        else if (ctor == 'c') { n = 5; carr = std::make_unique<C5>(); fill(carr->a); whole = MemoryView<T>(carr->a); }
        else { base.reset(new M[n]); fill(base.get()); if (ctor == 'r') whole = MemoryView<T>((T*)base.get(), (T*)base.get() + n); else whole = MemoryView<T>((T*)base.get(), n); }
        cur = whole;
        drv::Ev e("New");
        e.raw("elems", els(p, p + n));
        show(e);
    }
    void show(drv::Ev &e)
    {
        if (big) { places(e); return; }
        const auto &v = cur;
        e.num("width", sizeof(M)).num("size", v.size()).num("bytes_size", v.size_bytes()).boolean("empty", v.empty());
        bool sane = v.size() <= 1000;
        auto w = sane ? v : MemoryView<T>(p, (size_t)0);
        e.num("off", w.empty() ? 0 : w.data() - p);
        e.raw("iter", els(w.begin(), w.end())).raw("citer", els(w.cbegin(), w.cend()));
        e.raw("riter", els(w.rbegin(), w.rend())).raw("criter", els(w.crbegin(), w.crend()));
        std::string ix = "[";
        for (size_t i = 0; i < w.size(); ++i) { M m = w[i]; ix += (i ? "," : "") + drv::Ev::bytes(&m, sizeof m); }
        e.raw("index", ix + "]");
        MemoryView<const M> cv = w;
        e.raw("constview", els(cv.begin(), cv.end()));
        if (!w.empty()) { M f = w.front(), b = w.back(); e.bytes("front", &f, sizeof f).bytes("back", &b, sizeof b); }
        auto by = w.as_bytes();
        e.raw("as_bytes", drv::Ev::list(by.begin(), by.end()));
        if constexpr (!std::is_const_v<T>) { auto wb = w.as_writable_bytes(); e.raw("as_wbytes", drv::Ev::list(wb.begin(), wb.end())); }
        else e.raw("as_wbytes", drv::Ev::list(by.begin(), by.end()));
        if constexpr (std::is_same_v<M, char>) { std::string_view s = w; e.boolean("isChar", true).bytes("sv", s.data(), s.size()); }
        else e.boolean("isChar", false);
        e.emit();
    }
    void op(const std::string &c, drv::Tokens &t) override
    {
        drv::Ev e(big ? "BigOp" : "Op");
        if (c == "F") { auto n = t.unum(); cur = cur.first(n); e.str("op", "first").num("n", clip(n)); }
        else if (c == "L") { auto n = t.unum(); cur = cur.last(n); e.str("op", "last").num("n", clip(n)); }
        else if (c == "R") { auto n = t.unum(); cur = cur.subspan(n); e.str("op", "rest").num("o", clip(n)); }
        else if (c == "M") { auto o = t.unum(), n = t.unum(); cur = cur.subspan(o, n); e.str("op", "mid").num("o", clip(o)).num("n", clip(n)); }
        else if (c == "W") { cur = whole; e.str("op", "whole"); }
        else _exit(99);
        show(e);
    }
};

struct Three { uint8_t a, b, c; };
static std::unique_ptr<AnyView> view;
template<class T> static std::unique_ptr<AnyView> mk(drv::Tokens &t, bool big)
{
    char ctor = t.str()[0]; size_t n = t.num();
    if (big) return std::make_unique<TView<T>>(ctor, n);
    unsigned seed = t.num();
    return std::make_unique<TView<T>>(ctor, n, seed);
}

int main(int argc, char** argv)
{
    return drv::run(argc, argv, [] { view.reset(); },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "N" || c == "B")
            {
                auto ty = t.str();
                if (ty == "u8") view = mk<uint8_t>(t, c == "B");
                else if (ty == "char") view = mk<char>(t, c == "B");
                else if (ty == "cchar") view = mk<const char>(t, c == "B");
                else if (ty == "cu8") view = mk<const uint8_t>(t, c == "B");
                else if (ty == "u16") view = mk<uint16_t>(t, c == "B");
                else if (ty == "b3") view = mk<Three>(t, c == "B");
                else if (ty == "u64") view = mk<uint64_t>(t, c == "B");
                else if (ty == "cu16") view = mk<const uint16_t>(t, c == "B");
                else if (ty == "u32") view = mk<uint32_t>(t, c == "B");
                else if (ty == "ci64") view = mk<const int64_t>(t, c == "B");
                else _exit(99);
            }
            else if (c == "E")
            {
                auto fn = t.str();
                std::string in = "[", out = "[";
                while (t.more())
                {
                    auto v = t.unum();
                    auto add = [](std::string &s, const auto &x) { s += (s.size() > 1 ? "," : "") + drv::Ev::bytes(&x, sizeof x); };
                    if (fn == "u16") { uint16_t a = v, b = embedded::changeEndianess(a); add(in, a); add(out, b); }
                    else if (fn == "u16twice") { uint16_t a = v, b = embedded::changeEndianess(embedded::changeEndianess(a)); add(in, a); add(out, b); }
                    else if (fn == "u32") { uint32_t a = v, b = embedded::changeEndianess(a); add(in, a); add(out, b); }
                    else if (fn == "u32twice") { uint32_t a = v, b = embedded::changeEndianess(embedded::changeEndianess(a)); add(in, a); add(out, b); }
                    else if (fn == "float") { uint32_t a = v; float b = embedded::changeEndianessToFloat(a); add(in, a); add(out, b); }
                    else if (fn == "x2") { uint32_t a = v, b = v; embedded::changeEndianess16x2(&b); add(in, a); add(out, b); }
                    else if (fn == "x2twice") { uint32_t a = v, b = v; embedded::changeEndianess16x2(&b); embedded::changeEndianess16x2(&b); add(in, a); add(out, b); }
                    else _exit(99);
                }
                drv::Ev("Conv").str("fn", fn).raw("in", in + "]").raw("out", out + "]").emit();
            }
            else view->op(c, t);
        });
}
