/* native replays: the random device */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdarg.h>
#include <stddef.h>
#include <sys/types.h>
static long (*reader)(void *buf, size_t n);
static int (*opener)(const char *name);
void vf_set_device(void *o, void *r) { opener = o; reader = r; }
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m) { return opener(n) ? __real_fopen("/dev/null", "rb") : NULL; }
int __wrap_open(const char *n, int fl, ...) { return opener(n) ? 77 : -1; }
int __wrap_open64(const char *n, int fl, ...) { return opener(n) ? 77 : -1; }
int __wrap_close(int fd) { return 0; }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { return s ? reader(b, s * n) / s : 0; }
int __wrap_fgetc(FILE *f) { unsigned char c; return reader(&c, 1) == 1 ? c : EOF; }
int __wrap_getc(FILE *f) { unsigned char c; return reader(&c, 1) == 1 ? c : EOF; }
ssize_t __wrap_read(int fd, void *b, size_t n) { return reader(b, n); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { return reader(b, n); }
