/* Simulated source of randomness: wraps the functions of a numpy bit generator. Every output is numbered; a plan replaces
 * the outputs at chosen positions (zeros, ones, a stuck value), all others come from the seeded generator below. When more
 * outputs are taken than the plan allows, the interpreter is interrupted once. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>

typedef struct {
    void *state;
    uint64_t (*next_uint64)(void *);
    uint32_t (*next_uint32)(void *);
    double (*next_double)(void *);
    uint64_t (*next_raw)(void *);
} bitgen;

typedef struct { uint64_t start, len, value; } patch;
typedef struct { bitgen orig; uint64_t count, limit, over, fired, n; patch plan[64]; } source;

static int next(source *s, uint64_t *v) {
    uint64_t i = s->count++;
    if (s->limit && s->count > s->limit && !s->over) {
        s->over = 1;
        void (*intr)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, "PyErr_SetInterrupt");
        if (intr) intr();
    }
    for (uint64_t k = 0; k < s->n; k++)
        if (i >= s->plan[k].start && i - s->plan[k].start < s->plan[k].len) {
            s->fired++;
            *v = s->plan[k].value;
            return 1;
        }
    return 0;
}

static uint64_t u64(void *p) { source *s = p; uint64_t v; return next(s, &v) ? v : s->orig.next_uint64(s->orig.state); }
static uint64_t raw(void *p) { source *s = p; uint64_t v; return next(s, &v) ? v : s->orig.next_raw(s->orig.state); }
static uint32_t u32(void *p) { source *s = p; uint64_t v; return next(s, &v) ? (uint32_t)(v >> 32) : s->orig.next_uint32(s->orig.state); }
static double dbl(void *p) { source *s = p; uint64_t v; return next(s, &v) ? (v >> 11) * (1.0 / 9007199254740992.0) : s->orig.next_double(s->orig.state); }

void bits_patch(bitgen *b, source *s) {
    s->orig = *b;
    b->state = s;
    b->next_uint64 = u64;
    b->next_uint32 = u32;
    b->next_double = dbl;
    b->next_raw = raw;
}
