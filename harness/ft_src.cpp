// Prints a font's line height and glyphs, as FreeType renders them, as JSON: ft_src FONT SIZE DPI codepoint...
#include <cstdio>
#include <cstdlib>
#include <ft2build.h>
#include FT_FREETYPE_H
#include FT_MODULE_H
#include FT_DRIVER_H
int main(int argc, char** argv)
{
    FT_Library lib; FT_Face face; FT_UInt v = TT_INTERPRETER_VERSION_35;
    if (FT_Init_FreeType(&lib)) return 2;
    FT_Property_Set(lib, "truetype", "interpreter-version", &v);
    if (FT_New_Face(lib, argv[1], 0, &face) || FT_Set_Char_Size(face, atoi(argv[2]) * 64, 0, atoi(argv[3]), 0)) return 2;
    printf("{\"height\":%ld,\"glyphs\":[", (long)face->size->metrics.height / 64);
    for (int i = 4; i < argc; ++i)
    {
        if (FT_Load_Char(face, strtoul(argv[i], nullptr, 10), FT_LOAD_TARGET_MONO) || FT_Render_Glyph(face->glyph, FT_RENDER_MODE_MONO)) return 2;
        auto s = face->glyph; auto &b = s->bitmap;
        printf("%s{\"w\":%u,\"h\":%u,\"x\":%d,\"y\":%d,\"adv\":%ld,\"rows\":[", i > 4 ? "," : "", b.width, b.rows, s->bitmap_left, s->bitmap_top - (int)b.rows, s->advance.x >> 6);
        for (unsigned y = 0; y < b.rows; ++y)
        {
            printf(y ? ",[" : "[");
            for (unsigned x = 0; x < b.width; ++x) printf("%s%d", x ? "," : "", (b.buffer[(int)y * b.pitch + (int)(x / 8)] >> (7 - x % 8)) & 1);
            printf("]");
        }
        printf("],\"mono\":%s}", b.rows == 0 || b.width == 0 || b.pixel_mode == FT_PIXEL_MODE_MONO ? "true" : "false");
    }
    printf("]}\n");
}
