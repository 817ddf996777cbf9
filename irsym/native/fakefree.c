/* native replays: what a block holds when it is released */
#include <stddef.h>
static void (*hook)(void *p);
void vf_set_free_hook(void *f) { hook = f; }
void __real_free(void *p);
void __wrap_free(void *p) { if (hook && p) hook(p); __real_free(p); }
void *__real_realloc(void *p, size_t n);
