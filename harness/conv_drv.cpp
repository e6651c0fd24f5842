// Drives the pieces of the font converter, and loads converted fonts.
//   bit packer:  k v (0: own stream, 1: std::ostream)   1|0 = b v;   y byte;   z flush
//   characters:  o slot encoding;   c slot cp hBytes;   i slot cp hBytes slot cp hBytes (fed alternately)
//                h slot cp hBytes   begins a character, j feeds one byte of it (cp < 0: not a character)
//   fonts:       S last hJson      the source font, already an event
//                X code            the converter failed
//                L library         a font compiled from a converted header
//                B last hBitmaps hGlyphs   a font in binary form
#include "drv.h"
#include <dlfcn.h>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include "gfx-font-converter/BitStream.h"
#include "gfx-font-converter/EncodingConverter.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/GFXFontsAdapter.h"
#include <cerrno>
using embedded::fonts::EmbeddedFont;

struct Sink { std::string got; Sink &operator<<(uint8_t b) { got.push_back((char)b); return *this; } };
static Sink sink; static std::ostringstream os;
static std::unique_ptr<BitStream<Sink>> own; static std::unique_ptr<BitStream<std::ostringstream>> std_;
struct Slot { std::unique_ptr<EncodingConverter> raw, text, ucs; bool utf8; };
static std::array<Slot, 3> slots;

struct Feed
{
    Slot &s; long long cp; std::string bytes; size_t k = 0; std::vector<long long> raw; std::string text = "[", ucs = "[";
    void step()
    {
        if (k == bytes.size()) return;
        char b = bytes[k];
        raw.push_back(s.raw->convertRaw(b));
        auto t = s.text->convert(b), u = s.ucs->convert(b);
        text += (k ? "," : "") + drv::Ev::bytes(t.data(), t.size());
        ucs += (k ? "," : "") + drv::Ev::bytes(u.data(), u.size());
        ++k;
    }
    void emit()
    {
        if (cp < 0)
        {
            drv::Ev("Broken").bytes("bytes", bytes).raw("raw", drv::Ev::list(raw.begin(), raw.end())).raw("text", text + "]").raw("ucs", ucs + "]").emit();
            return;
        }
        drv::Ev("Char").boolean("utf8", s.utf8).num("cp", cp).bytes("bytes", bytes).raw("raw", drv::Ev::list(raw.begin(), raw.end()))
            .raw("text", text + "]").raw("ucs", ucs + "]").emit();
    }
};

static std::unique_ptr<Feed> current;

static void loaded(const embedded::fonts::FontDescriptor &d, bool header)
{
    std::string t = "[", f = "[";
    for (size_t i = 0; i < d.glyph.size(); ++i)
    {
        const auto &g = d.glyph[i];
        size_t n = (g.size.width * g.size.height + 7) / 8, have = g.bitmapOffset < d.bitmap.size() ? d.bitmap.size() - g.bitmapOffset : 0;
        t += (i ? ",{\"w\":" : "{\"w\":") + std::to_string(g.size.width) + ",\"h\":" + std::to_string(g.size.height) + ",\"ox\":" + std::to_string(g.offset.width)
            + ",\"oy\":" + std::to_string(g.offset.height) + ",\"adv\":" + std::to_string(g.shift) + ",\"off\":" + std::to_string(g.bitmapOffset)
            + ",\"bits\":" + drv::Ev::bytes(d.bitmap.begin() + g.bitmapOffset, std::min(n, have)) + "}";
    }
    EmbeddedFont font(d);
    for (int c = 0; c < 256; ++c)
    {
        auto b = font.getBitmap((char)c);
        long long v[] = { b.bitmap.begin() - d.bitmap.begin(), (long long)b.bitmap.size(), b.effectiveSize.width, b.effectiveSize.height, b.offset.width, b.offset.height, b.width };
        f += (c ? "," : "") + drv::Ev::list(v, v + 7);
    }
    drv::Ev("Loaded").boolean("header", header).num("height", d.verticalShift).num("first", d.first).num("last", d.last).num("total", d.bitmap.size()).raw("table", t + "]").raw("found", f + "]").emit();
}
static std::string file(const std::string &name)
{
    std::ifstream in(name, std::ios::binary);
    if (!in) { fprintf(stderr, "no file %s\n", name.c_str()); exit(5); }
    return { std::istreambuf_iterator<char>(in), {} };
}
static int stream;
int main(int argc, char** argv)
{
    drv::lanes(sink, os, own, std_, stream, slots, current);
    return drv::run(argc, argv, [] { own.reset(); std_.reset(); current.reset(); for (auto &s : slots) s = Slot{}; }, [](const std::string &c, drv::Tokens &t)
    {
        if (c == "k")
        {
            stream = t.num(); sink.got.clear(); os.str("");
            own = std::make_unique<BitStream<Sink>>(sink); std_ = std::make_unique<BitStream<std::ostringstream>>(os);
        }
        else if (c == "b" || c == "y" || c == "z")
        {
            int v = c == "z" ? 0 : t.num();
            drv::Ev e(c == "b" ? "Bit" : c == "y" ? "Byte" : "Flush"); e.num("v", v);
            sink.got.clear(); os.str("");
            if (stream == 0) { if (c == "b") *own << (v == 1); else if (c == "y") *own << (uint8_t)v; else own->flush(); }
            else { if (c == "b") *std_ << (v == 1); else if (c == "y") *std_ << (uint8_t)v; else std_->flush(); }
            e.bytes("out", stream ? os.str() : sink.got).emit();
        }
        else if (c == "o")
        {
            auto &s = slots[t.num()]; auto enc = t.str();
            s.raw = std::make_unique<EncodingConverter>(enc.c_str(), "UCS-4LE");
            s.text = std::make_unique<EncodingConverter>(enc.c_str(), "UTF-8");
            s.ucs = std::make_unique<EncodingConverter>(enc.c_str(), "UCS-4LE");
            s.utf8 = enc == "UTF-8";
        }
        else if (c == "c") { auto &s = slots[t.num()]; auto cp = t.num(); Feed f{ s, cp, t.hex() }; while (f.k < f.bytes.size()) f.step(); f.emit(); }
        else if (c == "h")
        {
            int k = t.num(); auto cp = t.num(); current.reset(new Feed{ slots[k], cp, t.hex() });
        }
        else if (c == "j") { Feed &f = *current; f.step(); if (f.k == f.bytes.size()) f.emit(); }
        else if (c == "i")
        {
            auto &s = slots[t.num()]; auto cp = t.num(); Feed f{ s, cp, t.hex() };
            auto &s2 = slots[t.num()]; auto cp2 = t.num(); Feed g{ s2, cp2, t.hex() };
            while (f.k < f.bytes.size() || g.k < g.bytes.size()) { f.step(); g.step(); }
            f.emit(); g.emit();
        }
        else if (c == "S") { auto last = t.num(), height = t.num(); drv::Ev("Source").num("last", last).num("height", height).raw("glyphs", file(t.hex())).emit(); }
        else if (c == "X") { auto header = t.num(); drv::Ev("Refused").boolean("header", header).num("code", t.num()).emit(); }
        else if (c == "L")
        {
            auto h = dlopen(t.hex().c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(5); }
            auto f = (const embedded::fonts::FontDescriptor* (*)())dlsym(h, "theFont");
            loaded(*f(), true);
            dlclose(h);
        }
        else if (c == "B")
        {
            int last = t.num(); auto bits = file(t.hex()), gl = file(t.hex());
            auto b = std::make_unique<uint8_t[]>(bits.size()); memcpy(b.get(), bits.data(), bits.size());
            size_t n = gl.size() / sizeof(embedded::fonts::GlyphDescriptor);
            auto g = std::make_unique<embedded::fonts::GlyphDescriptor[]>(n); memcpy(g.get(), gl.data(), n * sizeof(embedded::fonts::GlyphDescriptor));
            embedded::fonts::FontDescriptor d; d.bitmap = { b.get(), bits.size() }; d.glyph = { g.get(), n }; d.first = ' '; d.last = last;
            loaded(d, false);
        }
        else _exit(99);
    });
}
