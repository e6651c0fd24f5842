// Drives Canvas over a recording frame buffer.
//   N w h rot      a new canvas on a frame of w x h
//   B m            also draw every figure, moved by (m, m), on a canvas of (w + 2m) x (h + 2m)
//   U              also draw every figure on an unrotated canvas of the size seen
//   o rot | x | k color                         rotation, clear, colour
//   P x y | L x y x y | R x y w h | F x y w h | C x y r filled | S x y hexText
//   V x y w h      where a rectangle lies in the frame (public transformCoords)
#include "drv.h"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/EmbeddedFonts.h"

struct Rec : FrameBufferBase
{
    int w, h, x0 = 0, y0 = 0, x1, y1; // the window recorded (x1, y1 exclusive); pixels outside the frame always are
    uint32_t color = 1;
    std::set<std::pair<int, int>> now, lit; // (y, x)
    int clears = 0, colors = 0;
    uint8_t img[1] = { 0 };
    Rec(int w, int h) : w(w), h(h), x1(w), y1(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return { img, 1 }; }
    embedded::ConstBytesView getImage() const override { return { img, 1 }; }
    void clear(uint32_t c) override { ++clears; color = c; lit.clear(); }
    void setColor(uint32_t c) override { ++colors; color = c; }
    void drawPixel(int x, int y) override
    {
        bool in = x >= 0 && y >= 0 && x < w && y < h;
        if (in && (x < x0 || y < y0 || x >= x1 || y >= y1)) return;
        now.insert({ y, x }); lit.insert({ y, x });
    }
};
struct Board { Rec rec; Canvas canvas; Board(int w, int h) : rec(w, h), canvas(rec) {} };
static std::unique_ptr<Board> small, big;
static bool flat;
static int margin;

static std::string pixels(const std::set<std::pair<int, int>> &s)
{
    std::string r = "[";
    for (auto &p : s) { r += (r.size() > 1 ? ",[" : "[") + std::to_string(p.second) + "," + std::to_string(p.first) + "]"; }
    return r + "]";
}
// maximal runs [y, x, n] along rows, or [x, y, n] along columns
static std::string runs(const std::set<std::pair<int, int>> &in, bool columns)
{
    std::set<std::pair<int, int>> t;
    if (columns) for (auto &p : in) t.insert({ p.second, p.first });
    const auto &s = columns ? t : in;
    std::string r = "[";
    for (auto i = s.begin(); i != s.end();)
    {
        auto j = i; int n = 0;
        while (j != s.end() && j->first == i->first && j->second == i->second + n) { ++j; ++n; }
        r += (r.size() > 1 ? ",[" : "[") + std::to_string(i->first) + "," + std::to_string(i->second) + "," + std::to_string(n) + "]";
        i = j;
    }
    return r + "]";
}
static void size(drv::Ev &e) { auto s = small->canvas.getSize(); e.num("sw", s.width).num("sh", s.height).num("r", (int)small->canvas.getRotation()); }

int main(int argc, char** argv)
{
    drv::lanes(small, big, flat, margin);
    return drv::run(argc, argv, [] { small.reset(); big.reset(); flat = false; },
        [](const std::string &c, drv::Tokens &t)
        {
            if (c == "N")
            {
                int w = t.num(), h = t.num(), r = t.num();
                small = std::make_unique<Board>(w, h);
                int r0 = (int)small->canvas.getRotation();
                if (r) small->canvas.setRotation((Canvas::Rotation)r);
                drv::Ev e("New"); e.num("w0", w).num("h0", h).num("r0", r0); size(e); e.emit();
                return;
            }
            auto &s = *small;
            if (c == "B")
            {
                margin = t.num();
                big = std::make_unique<Board>(s.rec.w + 2 * margin, s.rec.h + 2 * margin);
                big->canvas.setRotation(s.canvas.getRotation());
                big->rec.x0 = big->rec.y0 = margin; big->rec.x1 = margin + s.rec.w; big->rec.y1 = margin + s.rec.h;
                return;
            }
            if (c == "U") { flat = true; return; }
            s.rec.now.clear(); s.rec.clears = s.rec.colors = 0;
            drv::Ev e("Op"); e.str("op", c);
            std::vector<int> args;
            if (c == "o") { int r = t.num(); s.canvas.setRotation((Canvas::Rotation)r); if (big) big->canvas.setRotation((Canvas::Rotation)r); args = { r }; }
            else if (c == "x") { s.canvas.clear(0); }
            else if (c == "k") { s.canvas.setColor(t.num()); }
            else if (c == "V")
            {
                int x = t.num(), y = t.num(), w = t.num(), h = t.num();
                auto q = s.canvas.transformCoords(Canvas::Rect{ { x, y }, { w, h } });
                args = { x, y, w, h, q.topLeft.x, q.topLeft.y, q.size.width, q.size.height };
            }
            else
            {
                std::string text;
                while (t.more()) { if (c == "S" && args.size() == 2) text = t.hex(); else args.push_back(t.num()); }
                auto draw = [&](Canvas &cv, int m, bool reverse)
                {
                    const auto &a = args;
                    if (c == "P") cv.drawPixel({ a[0] + m, a[1] + m });
                    else if (c == "L" && !reverse) cv.drawLine({ a[0] + m, a[1] + m }, { a[2] + m, a[3] + m });
                    else if (c == "L") cv.drawLine({ a[2] + m, a[3] + m }, { a[0] + m, a[1] + m });
                    else if (c == "R") cv.drawRectangle({ { a[0] + m, a[1] + m }, { a[2], a[3] } });
                    else if (c == "F") cv.drawFilledRectangle({ { a[0] + m, a[1] + m }, { a[2], a[3] } });
                    else if (c == "C") cv.drawCircle({ a[0] + m, a[1] + m }, a[2], a[3]);
                    else if (c == "S") cv.drawStringAt({ a[0] + m, a[1] + m }, text, embedded::fonts::FreeSans15pt);
                    else _exit(99);
                };
                draw(s.canvas, 0, false);
                if (big) { big->rec.now.clear(); draw(big->canvas, margin, false); e.num("m", margin).raw("big", pixels(big->rec.now)); }
                if (flat)
                {
                    auto z = s.canvas.getSize();
                    Board b(z.width, z.height);
                    draw(b.canvas, 0, false);
                    e.raw("flat", pixels(b.rec.now));
                }
                if (c == "L")
                {
                    Board b(s.rec.w, s.rec.h); b.canvas.setRotation(s.canvas.getRotation());
                    draw(b.canvas, 0, true);
                    e.boolean("same", b.rec.now == s.rec.now);
                    bool columns = (std::abs(args[3] - args[1]) > std::abs(args[2] - args[0])) != ((int)s.canvas.getRotation() % 2 == 1);
                    e.boolean("columns", columns).raw("runs", runs(s.rec.now, columns));
                }
                else if (!big && !flat) e.raw("runs", runs(s.rec.now, false));
            }
            e.raw("args", drv::Ev::list(args.begin(), args.end()));
            if (big || flat) e.raw("pix", pixels(s.rec.now));
            e.num("n", s.rec.now.size()).num("clears", s.rec.clears).num("colors", s.rec.colors);
            if (s.rec.w * s.rec.h <= 16) e.raw("lit", pixels(s.rec.lit));
            size(e);
            e.emit();
        });
}
