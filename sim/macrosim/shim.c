/* The compiler's random bytes come from the simulator. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>

static uint64_t state;

ssize_t getrandom(void *buf, size_t n, unsigned int flags) {
    (void)flags;
    if (!state) {
        const char *s = getenv("MACROSIM_RANDOM");
        state = s ? strtoull(s, 0, 10) | 1 : 1;
    }
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
        uint64_t x = __atomic_add_fetch(&state, 0x9E3779B97F4A7C15ull, __ATOMIC_RELAXED);
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        p[i] = (unsigned char)(x >> 33);
    }
    return (ssize_t)n;
}
