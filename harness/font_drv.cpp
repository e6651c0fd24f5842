// Drives EmbeddedFont, and Canvas with a font.
//   N last w h glyphs...    a font, each glyph as "w h ox oy adv hBytes"; drawing on a frame of w x h
//   D w h                   the font that comes with the library
//   A                       looks up all 256 codes
//   c code x y | s x y hText | b hText    draws a character, a text; bounds of a text, which is then drawn there (of a
//                   text of more than 120 characters the outermost pixels are told)
#include "drv.h"
#include <algorithm>
#include <array>
#include <memory>
#include <set>
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/EmbeddedFonts.h"
#include "graphics/GFXFontsAdapter.h"
#ifndef PROGMEM
#define PROGMEM
#endif
using embedded::fonts::EmbeddedFont;
namespace builtin
{
using GFXfont = embedded::fonts::FontDescriptor;
using GFXglyph = embedded::fonts::GlyphDescriptor;
#include "GFXFonts/FreeSans15pt7b.h"
}

struct Rec : FrameBufferBase
{
    int w, h, other = 0; std::set<std::pair<int, int>> now; uint8_t img[1];
    Rec(int w, int h) : w(w), h(h) {}
    int getWidth() const override { return w; }
    int getHeight() const override { return h; }
    embedded::BytesView getImage() override { return { img, 1 }; }
    embedded::ConstBytesView getImage() const override { return { img, 1 }; }
    void clear(uint32_t) override { ++other; }
    void setColor(uint32_t) override { ++other; }
    void drawPixel(int x, int y) override { now.insert({ y, x }); }
    std::string pixels() const
    {
        std::string r = "[";
        for (auto &p : now) r += (r.size() > 1 ? ",[" : "[") + std::to_string(p.second) + "," + std::to_string(p.first) + "]";
        return r + "]";
    }
};
struct Font
{
    std::unique_ptr<uint8_t[]> bitmap; std::unique_ptr<embedded::fonts::GlyphDescriptor[]> glyphs; // exact heap blocks
    embedded::fonts::FontDescriptor d; std::unique_ptr<EmbeddedFont> own; const EmbeddedFont* font = nullptr; const uint8_t* base = nullptr;
};
static std::unique_ptr<Font> f;
static int W, H;

static void event(int last)
{
    std::string t = "[";
    for (size_t i = 0; i < f->d.glyph.size(); ++i)
    {
        const auto &g = f->d.glyph[i];
        size_t n = (g.size.width * g.size.height + 7) / 8;
        n = g.bitmapOffset < f->d.bitmap.size() ? std::min(n, f->d.bitmap.size() - g.bitmapOffset) : 0;
        t += (i ? ",{\"w\":" : "{\"w\":") + std::to_string(g.size.width) + ",\"h\":" + std::to_string(g.size.height) + ",\"ox\":" + std::to_string(g.offset.width)
            + ",\"oy\":" + std::to_string(g.offset.height) + ",\"adv\":" + std::to_string(g.shift) + ",\"off\":" + std::to_string(g.bitmapOffset)
            + ",\"bits\":" + drv::Ev::bytes(f->base + g.bitmapOffset, n) + "}";
    }
    drv::Ev("Font").num("last", last).num("total", f->d.bitmap.size()).num("w", W).num("h", H).raw("table", t + "]").emit();
}
int main(int argc, char** argv)
{
    drv::lanes(f, W, H);
    return drv::run(argc, argv, [] { f.reset(); }, [](const std::string &c, drv::Tokens &t)
    {
        if (c == "N")
        {
            f = std::make_unique<Font>();
            int last = t.num(); W = t.num(); H = t.num();
            std::string bits; std::vector<embedded::fonts::GlyphDescriptor> g;
            while (t.more())
            {
                embedded::fonts::GlyphDescriptor d; d.bitmapOffset = bits.size();
                d.size = { (uint8_t)t.num(), 0 }; d.size.height = t.num(); d.offset = { (int8_t)t.num(), 0 }; d.offset.height = t.num(); d.shift = t.num();
                bits += t.hex(); g.push_back(d);
            }
            f->bitmap.reset(new uint8_t[bits.size()]); memcpy(f->bitmap.get(), bits.data(), bits.size());
            f->glyphs.reset(new embedded::fonts::GlyphDescriptor[g.size()]); std::copy(g.begin(), g.end(), f->glyphs.get());
            f->d.bitmap = { f->bitmap.get(), bits.size() }; f->d.glyph = { f->glyphs.get(), g.size() };
            f->d.first = ' '; f->d.last = last; f->d.verticalShift = 9;
            f->own = std::make_unique<EmbeddedFont>(f->d); f->font = f->own.get(); f->base = f->bitmap.get();
            event(last);
        }
        else if (c == "D")
        {
            f = std::make_unique<Font>(); W = t.num(); H = t.num();
            f->d = builtin::FreeSans15pt7b; f->base = f->d.bitmap.begin(); f->font = &embedded::fonts::FreeSans15pt;
            event(f->d.last);
        }
        else if (c == "A")
        {
            auto start = f->own ? f->base : f->font->getBitmap(' ').bitmap.begin();
            for (int k = 0; k < 256; ++k)
            {
                auto b = f->font->getBitmap((char)k);
                size_t n = std::min<size_t>((b.effectiveSize.width * b.effectiveSize.height + 7) / 8, b.bitmap.size());
                drv::Ev("Glyph").num("c", k).num("w", b.effectiveSize.width).num("h", b.effectiveSize.height).num("ox", b.offset.width).num("oy", b.offset.height)
                    .num("adv", b.width).num("off", b.bitmap.begin() - start).num("len", b.bitmap.size()).bytes("bytes", b.bitmap.begin(), n).emit();
            }
        }
        else if (c == "c" || c == "s")
        {
            Rec r(W, H); Canvas cv(r);
            drv::Ev e(c == "c" ? "Char" : "Text");
            if (c == "c")
            {
                int k = t.num(), x = t.num(), y = t.num(); int ret = cv.drawCharAt({ x, y }, (char)k, *f->font);
                e.num("c", k).num("x", x).num("y", y).num("ret", ret);
            }
            else
            {
                int x = t.num(), y = t.num(); auto s = t.hex(); cv.drawStringAt({ x, y }, s, *f->font);
                e.num("x", x).num("y", y).bytes("text", s);
            }
            e.num("other", r.other).raw("pix", r.pixels()).emit();
        }
        else if (c == "b")
        {
            auto s = t.hex(); std::unique_ptr<char[]> p(new char[s.size()]); memcpy(p.get(), s.data(), s.size());
            auto b = f->font->getTextBounds(std::string_view(p.get(), s.size()));
            const int m = 1 << 20; Rec r(2 * m, 2 * m); Canvas cv(r);
            cv.drawStringAt({ b.topLeft.x + m, b.topLeft.y + m }, s, *f->font);
            std::set<std::pair<int, int>> q; for (auto &p : r.now) q.insert({ p.first - m, p.second - m }); 
            if (s.size() > 120) // only the outermost pixels, which decide
            {
                auto less = [](auto &a, auto &b) { return a.second < b.second; };
                if (!q.empty()) q = { *q.begin(), *q.rbegin(), *std::min_element(q.begin(), q.end(), less), *std::max_element(q.begin(), q.end(), less) };
            }
            r.now = q;
            int v[] = { b.topLeft.x, b.topLeft.y, b.size.width, b.size.height };
            drv::Ev("Bounds").bytes("text", s).raw("b", drv::Ev::list(v, v + 4)).raw("pix", r.pixels()).emit();
        }
        else _exit(99);
    });
}
