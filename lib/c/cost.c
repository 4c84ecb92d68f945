/* Deterministic cost meter: edges executed, bytes moved by the C library on behalf of the program,
 * peak of live heap bytes.  Linked into the compiler with -fsanitize-coverage=trace-pc and --wrap. */
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint64_t edges, bytes, live, peak, calls;

void __sanitizer_cov_trace_pc(void) { edges++; }

static void grow(void *p) { if (p) { live += malloc_usable_size(p); if (live > peak) peak = live; } }
static void drop(void *p) { if (p) live -= malloc_usable_size(p); }

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); calls++; grow(p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); calls++; bytes += n * m; grow(p); return p; }
void *__wrap_realloc(void *q, size_t n)
{
	size_t old = q ? malloc_usable_size(q) : 0;
	drop(q);
	void *p = __real_realloc(q, n);
	calls++;
	bytes += old < n ? old : n;
	grow(p ? p : q);
	return p;
}
void __wrap_free(void *p) { drop(p); __real_free(p); }

void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
size_t __real_strlen(const char *); char *__real_strcpy(char *, const char *); int __real_strcmp(const char *, const char *);
char *__real_strcat(char *, const char *); char *__real_strchr(const char *, int); int __real_strncmp(const char *, const char *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { bytes += n; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { bytes += n; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { bytes += n; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { bytes += n; return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); bytes += n; return n; }
char *__wrap_strcpy(char *d, const char *s) { bytes += __real_strlen(s); return __real_strcpy(d, s); }
char *__wrap_strcat(char *d, const char *s) { bytes += __real_strlen(d) + __real_strlen(s); return __real_strcat(d, s); }
char *__wrap_strchr(const char *d, int c) { char *p = __real_strchr(d, c); bytes += p ? (size_t)(p - d) : __real_strlen(d); return p; }
int __wrap_strcmp(const char *a, const char *b)
{
	size_t i = 0;
	while (a[i] && a[i] == b[i]) i++;
	bytes += i;
	return (unsigned char)a[i] - (unsigned char)b[i];
}
int __wrap_strncmp(const char *a, const char *b, size_t n)
{
	size_t i = 0;
	while (i < n && a[i] && a[i] == b[i]) i++;
	bytes += i;
	return i == n ? 0 : (unsigned char)a[i] - (unsigned char)b[i];
}

static void report(void)
{
	const char *name = getenv("COST_FILE");
	FILE *f = name ? fopen(name, "w") : NULL;
	if (f)
	{
		fprintf(f, "%llu %llu %llu %llu\n", (unsigned long long)edges, (unsigned long long)bytes, (unsigned long long)peak, (unsigned long long)calls);
		fclose(f);
	}
}
__attribute__((constructor)) static void start(void) { atexit(report); }
