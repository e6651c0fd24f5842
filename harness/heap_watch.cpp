// Linked into a harness program: every allocation is reported with the code addresses it was made from.
#include <execinfo.h>
#include <dlfcn.h>
#include <malloc.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include "drv.h"

extern "C" char __executable_start, etext;
extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

namespace
{
constexpr int depth = 28, most = 20000, slots = 1 << 16;
struct Site { int n; void* pc[depth]; };
Site sites[most];
int count = 0;
int table[slots];
bool busy = false, on = false;

void report(FILE* f, const std::string &)
{
    busy = true;
    for (int i = 0; i < count; ++i)
    {
        fputs("{\"ev\":\"Alloc\",\"pcs\":[", f);
        for (int k = 0; k < sites[i].n; ++k)
        {
            auto p = (char*)sites[i].pc[k];
            fprintf(f, "%s%lld", k ? "," : "", p >= &__executable_start && p < &etext ? (long long)p : 0LL);
        }
        fputs("]}\n", f);
    }
    count = 0;
    memset(table, 0, sizeof table);
    busy = false;
}
void note()
{
    if (busy || !on || drv::own) return;
    busy = true;
    void* pc[depth + 2];
    int n = backtrace(pc, depth + 2) - 2; // without note and the hook
    if (n > 0)
    {
        unsigned long h = 7;
        for (int i = 0; i < n; ++i) h = h * 1000003 + (unsigned long)pc[i + 2];
        int at = h % slots;
        while (table[at] && (sites[table[at] - 1].n != n || memcmp(sites[table[at] - 1].pc, pc + 2, n * sizeof *pc))) at = (at + 1) % slots;
        if (!table[at])
        {
            if (count == most) abort();
            sites[count].n = n;
            memcpy(sites[count].pc, pc + 2, n * sizeof *pc);
            table[at] = ++count;
        }
    }
    busy = false;
}
__attribute__((constructor(101))) void start()
{
    void* pc[2];
    busy = true; backtrace(pc, 2); busy = false; // loads the unwinder
    drv::after = report;
    on = true;
}
}

extern "C" __attribute__((noinline)) void* malloc(size_t n) { note(); return __libc_malloc(n); }
extern "C" __attribute__((noinline)) void* calloc(size_t n, size_t m) { note(); return __libc_calloc(n, m); }
extern "C" __attribute__((noinline)) void* realloc(void* p, size_t n) { note(); return __libc_realloc(p, n); }
extern "C" __attribute__((noinline)) void* memalign(size_t a, size_t n) { note(); return __libc_memalign(a, n); }
extern "C" __attribute__((noinline)) void* aligned_alloc(size_t a, size_t n) { note(); return __libc_memalign(a, n); }
extern "C" __attribute__((noinline)) int posix_memalign(void** p, size_t a, size_t n) { note(); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
