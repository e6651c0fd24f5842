#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#define MALLOC_CAP_8BIT (1 << 2)
#define MALLOC_CAP_DMA (1 << 3)
#define MALLOC_CAP_INTERNAL (1 << 11)
#define MALLOC_CAP_DEFAULT (1 << 12)
#define heap_caps_malloc(n, caps) malloc(n)
#define heap_caps_calloc(n, m, caps) calloc(n, m)
#define heap_caps_realloc(p, n, caps) realloc(p, n)
#define heap_caps_free(p) free(p)
