// random integers of the library under the Go program: the given ones first, then real ones
#include <gmp.h>
#include <stdlib.h>
#include <string.h>

void __real_mpz_urandom(mpz_t r, mpz_t m);
static char *all, *next;

void vf_draws(const char *s) {
    free(all);
    next = all = strdup(s);
}

void __wrap_mpz_urandom(mpz_t r, mpz_t m) {
    if (next && *next) {
        size_t n = strcspn(next, ",");
        char end = next[n];
        next[n] = 0;
        mpz_set_str(r, next, 16);
        next += n + (end != 0);
    } else
        __real_mpz_urandom(r, m);
}
