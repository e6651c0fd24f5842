// Calls the geometry classes.  First word of a command: the operation; second: the element type
// (i64s: 64 bits, values in multiples of 2^24).
//   size T a b c d | point T x y w h | scale T w h k | rect T x y w h | move T x y w h dx dy | matrix T a b c d x y
#include "drv.h"
#include <type_traits>
#include "graphics/BaseGeometry.h"
using namespace embedded;
// Fractions are given in halves, and so are the results, but for products (quarters).
static int unit = 1;
static int shift = 0; // whole numbers are given in multiples of 2^shift, and so are the results
template<class T> long long num(T v) { if (shift) return (long long)v % (1ll << shift) == 0 ? (long long)v / (1ll << shift) : 1000000007; if constexpr (std::is_floating_point_v<T>) { auto w = v * unit; return w == (long long)w ? (long long)w : 1000000007; } else return v; }
template<class T> std::string P(Point<T> p) { long long a[] = { num(p.x), num(p.y) }; return drv::Ev::list(a, a + 2); }
template<class T> std::string S(Size<T> p) { long long a[] = { num(p.width), num(p.height) }; return drv::Ev::list(a, a + 2); }
template<class T> std::string R(Rect<T> r) { long long a[] = { num(r.topLeft.x), num(r.topLeft.y), num(r.size.width), num(r.size.height) }; return drv::Ev::list(a, a + 4); }

template<class T> void call(const std::string &c, std::vector<long long> v)
{
    auto t = [&](int i) { if constexpr (std::is_floating_point_v<T>) return (T)v[i] / 2; else return (T)((T)v[i] * (T)(1ll << shift)); };
    unit = c == "scale" || c == "matrix" ? 4 : 2;
    auto name = c; name[0] = toupper(name[0]);
    drv::Ev e(name);
    e.raw("a", drv::Ev::list(v.begin(), v.end()));
    if (c == "size")
    {
        Size<T> a{ t(0), t(1) }, b{ t(2), t(3) };
        e.raw("add", S<T>(a + b)).raw("sub", S<T>(a - b)).raw("addsub", S<T>((a + b) - b)).raw("subadd", S<T>((a - b) + b));
    }
    else if (c == "point")
    {
        Point<T> a{ t(0), t(1) }, q{ t(2), t(3) }; Size<T> b{ t(2), t(3) };
        Point<T> m = a; auto &ref = (m += b);
        e.raw("add", P<T>(a + b)).raw("addto", P<T>(m)).boolean("eq", a == q).boolean("ne", a != q).boolean("self", &ref == &m);
    }
    else if (c == "scale")
    {
        Size<T> a{ t(0), t(1) };
        e.raw("mul", S<T>(a * t(2)));
        if (v[2] && !std::is_floating_point_v<T>) e.raw("div", S<T>(a / t(2)));
    }
    else if (c == "rect")
    {
        if constexpr (std::is_floating_point_v<T>) _exit(99); // corners are those of whole pixels
        Rect<T> r({ t(0), t(1) }, { t(2), t(3) });
        Rect<int> wide = r; Rect<T> back = wide;
        e.raw("tl", P<T>(r.topLeft)).raw("size", S<T>(r.size)).boolean("corners", v[2] > 0 && v[3] > 0).raw("tr", P<T>(r.topRight()))
            .raw("bl", P<T>(r.bottomLeft())).raw("br", P<T>(r.bottomRight())).raw("back", R<T>(back));
    }
    else if (c == "move")
    {
        Rect<T> r({ t(0), t(1) }, { t(2), t(3) }), m = r; Size<T> d{ t(4), t(5) };
        m += d;
        e.raw("moved", R<T>(r + d)).raw("movedto", R<T>(m));
    }
    else if (c == "matrix") { Matrix2x2<T> m(t(0), t(1), t(2), t(3)); e.raw("v", P<T>(m * Point<T>{ t(4), t(5) })); }
    else _exit(99);
    e.emit();
}
int main(int argc, char** argv)
{
    return drv::run(argc, argv, [] {}, [](const std::string &c, drv::Tokens &t)
    {
        auto ty = t.str();
        std::vector<long long> v;
        while (t.more()) v.push_back(t.num());
        shift = ty == "i64s" ? 24 : 0;
        if (ty == "i8") call<int8_t>(c, v);
        else if (ty == "u8") call<uint8_t>(c, v);
        else if (ty == "i16") call<int16_t>(c, v);
        else if (ty == "u16") call<uint16_t>(c, v);
        else if (ty == "i32") call<int>(c, v);
        else if (ty == "f32") call<float>(c, v);
        else if (ty == "f64") call<double>(c, v);
        else if (ty == "i64" || ty == "i64s") call<int64_t>(c, v);
        else _exit(99);
    });
}
