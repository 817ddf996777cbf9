/* native replays: random integers come from the harness */
static void (*source)(void *rop, void *max);
void vf_set_random(void *f) { source = f; }
void __wrap_mpz_urandom(void *rop, void *max) { source(rop, max); }
