// Drives embedded::BufferedOut.
//   N cap            a fresh buffer of cap characters (exact heap block, filled with 0xEE)
//   s hex | c code | R code n     string view, character, string view of n equal characters
//   z hex            C string
//   i type digits    an integer of the C++ type `type`, given in decimal
//   b code | B hex   one byte, a byte sequence
//   f neg ip r k     the float (ip + r / 2^k), negated if neg
//   w n | F code | p n   width, fill, precision
//   x                clear
#include "drv.h"
#include "BufferedOut.h"
#include <memory>
#include <optional>
#include <cmath>

using embedded::BufferedOut;
static std::unique_ptr<char[]> buf;
static size_t cap;
static std::unique_ptr<BufferedOut> o;

static void views(drv::Ev &e)
{
    BufferedOut &m = *o;
    const BufferedOut &c = *o;
    auto at = [](const void* p) { return (const char*)p - buf.get(); };
    auto pair = [&](const void* p, size_t n) { return "[" + std::to_string(n ? at(p) : 0) + "," + std::to_string(n) + "]"; };
    auto d = m.data(); auto cd = c.data(); auto s = c.asStringView();
    e.num("size", c.size()).num("cap", c.capacity());
    e.bytes("text", buf.get(), c.size() <= cap ? c.size() : 0);
    e.raw("views", "[" + pair(d.begin(), d.size()) + "," + pair(cd.begin(), cd.size()) + "," + pair(s.data(), s.size())
          + "," + pair(d.begin(), d.end() - d.begin()) + "," + pair(d.begin(), d.size_bytes()) + "]");
    e.raw("begins", "[" + std::to_string(at((uint8_t*)m)) + "," + std::to_string(at((const uint8_t*)c)) + "]");
    e.emit();
}

int main(int argc, char** argv)
{
    drv::lanes(buf, cap, o);
    return drv::run(argc, argv, [] { o.reset(); },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "N")
            {
                cap = t.num();
                buf.reset(new char[cap]);
                memset(buf.get(), 0xEE, cap);
                o = std::make_unique<BufferedOut>(embedded::MemoryView<char>(buf.get(), cap));
                drv::Ev e("New"); e.num("cap0", cap); views(e); return;
            }
            drv::Ev e("Op");
            BufferedOut &out = *o;
            const BufferedOut* ret = o ? &out : nullptr;
            if (c == "s" || c == "z" || c == "B" || c == "R")
            {
                std::string s;
                if (c == "R") { char ch = (char)t.num(); s.assign(t.num(), ch); } else s = t.hex();
                auto p = std::make_unique<char[]>(s.size() + (c == "z"));
                memcpy(p.get(), s.data(), s.size() + (c == "z"));
                if (c == "z") ret = &(out << (const char*)p.get());
                else if (c == "B") ret = &(out << embedded::ConstBytesView((const uint8_t*)p.get(), s.size()));
                else ret = &(out << std::string_view(p.get(), s.size()));
                e.str("op", c == "B" ? "bytes" : "str").bytes("s", s);
            }
            else if (c == "c") { int k = t.num(); ret = &(out << (char)k); e.str("op", "char").num("c", k); }
            else if (c == "a") { int k = t.num(); out.addChar((char)k); e.str("op", "char").num("c", k); }
            else if (c == "i")
            {
                auto ty = t.str(), d = t.str();
                if (ty == "int") ret = &(out << (int)std::stoll(d));
                else if (ty == "uint") ret = &(out << (unsigned)std::stoull(d));
                else if (ty == "long") ret = &(out << (long)std::stoll(d));
                else if (ty == "ulong") ret = &(out << (unsigned long)std::stoull(d));
                else if (ty == "llong") ret = &(out << (long long)std::stoll(d));
                else if (ty == "ullong") ret = &(out << (unsigned long long)std::stoull(d));
                else if (ty == "schar") ret = &(out << (signed char)std::stoll(d));
                else if (ty == "bool") ret = &(out << (d == "1"));
                else if (ty == "short") ret = &(out << (short)std::stoll(d));
                else if (ty == "ushort") ret = &(out << (unsigned short)std::stoll(d));
                else _exit(99);
                e.str("op", "int").bytes("s", d);
            }
            else if (c == "m" || c == "M") // the buffer's own text from a on, at most n characters
            {
                size_t a = t.num(), n = t.num();
                auto v = std::as_const(out).asStringView();
                a = std::min(a, v.size()); v = v.substr(a, n);
                const std::string was(v);
                if (c == "m") ret = &(out << v);
                else { auto w = std::as_const(out).data().subspan(a); ret = &(out << w.first(std::min(n, w.size()))); }
                e.str("op", c == "M" ? "bytes" : "str").bytes("s", was);
            }
            else if (c == "b") { int k = t.num(); ret = &(out << (unsigned char)k); e.str("op", "byte").num("c", k); }
            else if (c == "f")
            {
                bool g = t.num(); auto ip = t.str(); long long r = t.num(); int k = t.num();
                double d = std::stod(ip) + std::ldexp((double)r, -k);
                float f = (float)(g ? -d : d);
                if ((double)f != (g ? -d : d)) _exit(99); // the script must name an exact float
                ret = &(out << f);
                e.str("op", "float").boolean("g", g).bytes("s", ip).num("r", r).num("k", k);
            }
            else if (c == "w") { int w = t.num(); ret = &(out << BufferedOut::width { w }); e.str("op", "width").num("c", w); }
            else if (c == "F") { int w = t.num(); ret = &(out << BufferedOut::fill { (char)w }); e.str("op", "fill").num("c", w); }
            else if (c == "p") { int w = t.num(); ret = &(out << BufferedOut::precision { w }); e.str("op", "prec").num("c", w); }
            else if (c == "x") { out.clear(); e.str("op", "clear"); }
            else _exit(99);
            e.boolean("same", ret == &out);
            views(e);
        });
}
