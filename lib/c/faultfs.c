/* Preloaded into the compiler: makes the n-th call of one file function fail the way the C library reports a fault. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *what;
static long at, seen;
static char log_name[512];

static void note(void)
{
	if (log_name[0])
	{
		FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen");
		FILE *f = real(log_name, "w");
		if (f) { char b[64]; int n = snprintf(b, sizeof b, "%ld\n", seen); fwrite(b, 1, n, f); fclose(f); }
	}
}

__attribute__((constructor)) static void begin(void)
{
	what = getenv("FAULT_FN");
	at = getenv("FAULT_AT") ? atol(getenv("FAULT_AT")) : 0;
	if (getenv("FAULT_LOG")) strncpy(log_name, getenv("FAULT_LOG"), sizeof log_name - 1);
	atexit(note);
}

static int hit(const char *fn)
{
	if (what == NULL || strcmp(what, fn)) return 0;
	seen++;
	return at && seen == at;
}

FILE *fopen(const char *p, const char *m)
{
	if (hit(strchr(m, 'w') ? "create" : "open")) { errno = EMFILE; return NULL; }
	FILE *(*real)(const char *, const char *) = dlsym(RTLD_NEXT, "fopen");
	return real(p, m);
}

FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }

int fclose(FILE *f)
{
	int (*real)(FILE *) = dlsym(RTLD_NEXT, "fclose");
	int bad = (f->_flags & 8) == 0 && hit("close");	/* not opened for reading only */
	int r = real(f);
	if (bad) { errno = EIO; return EOF; }
	return r;
}
