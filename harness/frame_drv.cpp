// Drives SimpleFrameBuffer at every depth.
//   N w h d       a new frame buffer (one of the instantiated ones) in memory filled with noise
//   m v           fills the image with the byte v (0 or 255) through the image view
//   x color       clear
//   k color       set the drawing colour
//   p x y         draw a pixel (through the base class)
//   q x y color   draw a pixel with the given colour
#include "drv.h"
#include <algorithm>
#include "graphics/SimpleFrameBuffer.h"
#include <memory>
#include <new>

struct Any
{
    virtual ~Any() = default;
    virtual FrameBufferBase &fb() = 0;
    virtual void put(int x, int y, uint32_t c) = 0;
};
template<int W, int H, int D> struct One : Any
{
    using F = SimpleFrameBuffer<W, H, D>;
    void* mem; F* f;
    One()
    {
        mem = ::operator new(sizeof(F)); // exact heap block
        for (size_t i = 0; i < sizeof(F); ++i) ((uint8_t*)mem)[i] = (uint8_t)(i * 73 + 5);
        f = new (mem) F;
    }
    ~One() override { f->~F(); ::operator delete(mem); }
    FrameBufferBase &fb() override { return *f; }
    void put(int x, int y, uint32_t c) override { f->drawPixel(x, y, c); }
};

#define ALL(X) X(8,1,1) X(8,3,1) X(16,5,1) X(24,2,1) X(128,296,1) X(320,240,1) X(2048,300,1) X(70000,2,1) X(8,70000,1) \
 X(4,1,2) X(4,5,2) X(8,3,2) X(12,4,2) X(320,240,2) X(1024,300,2) X(40000,2,2) X(4,70000,2) \
 X(2,1,4) X(2,2,4) X(2,4,4) X(6,5,4) X(320,240,4) X(512,300,4) X(40000,2,4) X(2,70000,4) \
 X(1,1,8) X(1,3,8) X(3,4,8) X(5,3,8) X(320,240,8) X(70000,2,8) X(1,70000,8) \
 X(1,1,16) X(1,3,16) X(3,3,16) X(7,2,16) X(320,240,16) X(40000,2,16) X(1,70000,16) \
 X(1,1,24) X(3,1,24) X(3,3,24) X(5,2,24) X(8,1,24) X(240,135,24) X(40000,2,24) X(1,70000,24) \
 X(1,1,32) X(1,3,32) X(3,3,32) X(2,7,32) X(240,135,32) X(20000,2,32) X(70000,1,32) X(1,70000,32)

static std::unique_ptr<Any> cur;
static int depth;

static std::unique_ptr<Any> make(int w, int h, int d)
{
#define X(W, H, D) if (w == W && h == H && d == D) return std::make_unique<One<W, H, D>>();
    ALL(X)
#undef X
    _exit(99);
}
static std::string col(uint32_t c) { uint8_t b[] = { (uint8_t)(c >> 24), (uint8_t)(c >> 16), (uint8_t)(c >> 8), (uint8_t)c }; return drv::Ev::bytes(b, 4); }
static void show(drv::Ev &e)
{
    auto &f = cur->fb();
    const auto &cf = f;
    auto im = cf.getImage(); auto wi = f.getImage();
    e.num("w", f.getWidth()).num("h", f.getHeight()).num("isize", wi.size()).num("cisize", im.size());
    e.boolean("sameimage", wi.begin() == im.begin());
    size_t u = depth < 8 ? 1 : depth / 8;
    std::string runs = "[";
    for (size_t i = 0; i + u <= im.size();)
    {
        size_t j = i + u;
        while (j + u <= im.size() && !memcmp(im.begin() + i, im.begin() + j, u)) j += u;
        runs += (runs.size() > 1 ? ",[" : "[") + std::to_string((j - i) / u) + "," + drv::Ev::bytes(im.begin() + i, u) + "]";
        i = j;
    }
    e.raw("runs", runs + "]").emit();
}

int main(int argc, char** argv)
{
    drv::lanes(cur, depth);
    return drv::run(argc, argv, [] { cur.reset(); },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "N")
            {
                int w = t.num(), h = t.num(); depth = t.num();
                cur = make(w, h, depth);
                auto &f = cur->fb();
                const auto &cf = f;
                drv::Ev("New").num("w0", w).num("h0", h).num("d0", depth).num("w", f.getWidth()).num("h", f.getHeight())
                    .num("isize", f.getImage().size()).num("cisize", cf.getImage().size()).boolean("sameimage", f.getImage().begin() == cf.getImage().begin()).emit();
                return;
            }
            drv::Ev e("Op");
            if (c == "m")
            {
                int v = t.num(); auto im = cur->fb().getImage(); std::fill(im.begin(), im.end(), (uint8_t)v);
                std::vector<int> u;
                if (depth < 8) u.push_back(v ? (1 << depth) - 1 : 0); else u.assign(depth / 8, v);
                e.str("op", "memset").raw("unit", drv::Ev::list(u.begin(), u.end()));
            }
            else if (c == "x") { uint32_t k = t.num(); cur->fb().clear(k); e.str("op", "clear").raw("c", col(k)); }
            else if (c == "k") { uint32_t k = t.num(); cur->fb().setColor(k); e.str("op", "color").raw("c", col(k)); }
            else if (c == "p") { int x = t.num(), y = t.num(); cur->fb().drawPixel(x, y); e.str("op", "draw").num("x", x).num("y", y); }
            else if (c == "q") { int x = t.num(), y = t.num(); uint32_t k = t.num(); cur->put(x, y, k); e.str("op", "drawc").num("x", x).num("y", y).raw("c", col(k)); }
            else _exit(99);
            show(e);
        });
}
