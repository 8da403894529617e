/* Preloaded: blocks of a size are handed out in a pseudo-random order, so that nothing can rely on the order of addresses. */
#include <stddef.h>
#include <stdlib.h>
extern void *__libc_malloc(size_t);
#define CLASSES 33
#define POOL 24
static void *pool[CLASSES][POOL];
static unsigned long state;
static __thread int busy;
void *malloc(size_t n)
{
    size_t c = (n + 15) / 16;
    if (busy || c == 0 || c >= CLASSES)
        return __libc_malloc(n);
    busy = 1;
    if (state == 0) {
        const char *s = getenv("SHUFFLE_SEED");
        state = s ? strtoul(s, 0, 10) * 2654435761UL + 12345 : 12345;
    }
    if (!pool[c][0])
        for (int i = 0; i < POOL; i++)
            pool[c][i] = __libc_malloc(c * 16);
    state = state * 6364136223846793005UL + 1442695040888963407UL;
    int i = (int)((state >> 33) % POOL);
    void *r = pool[c][i];
    pool[c][i] = __libc_malloc(c * 16);
    busy = 0;
    return r;
}
