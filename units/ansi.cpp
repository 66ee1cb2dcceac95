#include <stdio.h>
#include <new>
#include "hal/platform_memory.h"
#include "hal/platform_math.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_ansi.cpp"
// Verification unit: system-backed allocator
using M = MallocAnsi;
extern "C" {
void *ansi_alloc(M *m, sizet s, sizet a) { return m->M::alloc(s, a); }
void *ansi_realloc(M *m, void *o, sizet s, sizet a) { return m->M::realloc(o, s, a); }
void ansi_free(M *m, void *o) { m->M::free(o); }
}
