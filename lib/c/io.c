/* Universal input/output and UTF-8 against the C library.  usage: io <part> <seed> <rounds>
   Prints "saw <what> <count>" for what the monitors evaluated and "bad <key> <text>" for what disagreed. */
#include <ctype.h>
#include <inttypes.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "uniio.h"
#include "uniprinter.h"
#include "uniscanner.h"
#include "utf8.h"

static uint64_t state;
static uint64_t rnd(void)
{
	state ^= state << 13;
	state ^= state >> 7;
	state ^= state << 17;
	return state * 0x2545F4914F6CDD1Dull;
}
static uint64_t below(const uint64_t n)
{
	return (rnd() >> 11) % n;
}

#define MAX_SEEN 512
static struct { char what[96]; long count; } seen[MAX_SEEN];
static void saw(const char *const format, ...)
{
	char what[96];
	va_list args;
	va_start(args, format);
	vsnprintf(what, sizeof(what), format, args);
	va_end(args);
	for (int i = 0; i < MAX_SEEN; i++)
	{
		if (seen[i].what[0] == '\0')
		{
			strcpy(seen[i].what, what);
		}
		if (strcmp(seen[i].what, what) == 0)
		{
			seen[i].count++;
			return;
		}
	}
}
static int bad_count = 0;
static void bad(const char *const key, const char *const format, ...)
{
	if (bad_count++ > 50)
	{
		return;
	}
	char text[1500];
	va_list args;
	va_start(args, format);
	vsnprintf(text, sizeof(text), format, args);
	va_end(args);
	for (char *p = text; *p != '\0'; p++)
	{
		if (*p == '\n')
		{
			*p = ' ';
		}
	}
	printf("bad %s %s\n", key, text);
}

/* Reference encoding, by the ranges of the standard */
static size_t encode(char *const b, const uint32_t c)
{
	if (c < 0x80) { b[0] = (char)c; return 1; }
	if (c < 0x800) { b[0] = (char)(0xC0 | c >> 6); b[1] = (char)(0x80 | (c & 63)); return 2; }
	if (c < 0x10000) { b[0] = (char)(0xE0 | c >> 12); b[1] = (char)(0x80 | (c >> 6 & 63)); b[2] = (char)(0x80 | (c & 63)); return 3; }
	b[0] = (char)(0xF0 | c >> 18); b[1] = (char)(0x80 | (c >> 12 & 63)); b[2] = (char)(0x80 | (c >> 6 & 63)); b[3] = (char)(0x80 | (c & 63));
	return 4;
}

static bool is_russian(const uint32_t c)
{
	return c == 0x401 || c == 0x451 || (c >= 0x410 && c <= 0x44F);
}

static void part_utf8(void)
{
	for (uint32_t c = 0; c <= 0x10FFFF; c++)
	{
		char want[8], got[8];
		memset(got, 0x55, sizeof(got));
		const size_t n = encode(want, c);
		want[n] = '\0';
		if (utf8_size(c) != n) bad("utf8_size", "U+%04X: %zu", c, utf8_size(c));
		const size_t m = utf8_to_string(got, c);
		if (m != n || memcmp(got, want, n + 1) != 0 || got[n + 1] != 0x55) bad("utf8_to_string", "U+%04X gives %zu octets %02x %02x %02x %02x", c, m, got[0] & 255, got[1] & 255, got[2] & 255, got[3] & 255);
		char *exact = malloc(n);
		memcpy(exact, want, n);
		if (utf8_convert(exact) != c) bad("utf8_convert", "U+%04X gives U+%04X", c, utf8_convert(exact));
		if (utf8_symbol_size(exact[0]) != n) bad("utf8_symbol_size", "U+%04X: %zu", c, utf8_symbol_size(exact[0]));
		free(exact);
		char line[16] = "ab";
		memcpy(line + 2, want, n);
		line[2 + n] = 'z';
		for (size_t i = 0; i < n; i++)
		{
			if (utf8_to_first_byte(line, 2 + i) != 2) bad("utf8_to_first_byte", "U+%04X octet %zu: %zu", c, i, utf8_to_first_byte(line, 2 + i));
		}
		if (utf8_to_first_byte(line, 2 + n) != 2 + n || utf8_to_first_byte(line, 1) != 1) bad("utf8_to_first_byte", "neighbour of U+%04X", c);

		const bool digit = c >= '0' && c <= '9';
		const bool hexa = digit || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
		const bool letter = is_russian(c) || c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
		if (utf8_is_russian(c) != is_russian(c)) bad("utf8_is_russian", "U+%04X", c);
		if (utf8_is_letter(c) != letter) bad("utf8_is_letter", "U+%04X", c);
		if (utf8_is_digit(c) != digit) bad("utf8_is_digit", "U+%04X", c);
		if (utf8_is_hexa_digit(c) != hexa) bad("utf8_is_hexa_digit", "U+%04X", c);
		if (utf8_is_power(c) != (c == 'e' || c == 'E' || c == 0x435 || c == 0x415)) bad("utf8_is_power", "U+%04X", c);
		if (hexa && utf8_to_number(c) != (uint8_t)(digit ? c - '0' : (c | 32) - 'a' + 10)) bad("utf8_to_number", "U+%04X: %d", c, utf8_to_number(c));
		uint32_t up = c;
		if (c >= 'a' && c <= 'z') up = c - 32;
		if (c >= 0x430 && c <= 0x44F) up = c - 32;
		if (c == 0x451) up = 0x401;
		if (utf8_to_upper(c) != up) bad("utf8_to_upper", "U+%04X gives U+%04X", c, utf8_to_upper(c));
		if (c % 4096 == 0) saw("utf8 round trip, octets %zu", n);
	}
	for (int i = 0; i < 10000; i++)
	{
		const uint32_t c = 0x200000 + (uint32_t)below(0xFFFFFFFFu - 0x200000);
		char got[8];
		if (utf8_size(c) != 0 || utf8_to_string(got, c) != 0) bad("utf8 out of range", "%08x", c);
	}
	saw("utf8 out of range");
	if (utf8_to_string(NULL, 'a') != 0 || utf8_convert(NULL) != 0) bad("utf8 null", "NULL is not reported");
	/* Code pages: the caller compares these tables with its own */
	for (int b = 1; b < 256; b++)
	{
		const char src[2] = { (char)b, '\0' };
		char d[16];
		for (int page = 0; page < 2; page++)
		{
			const size_t n = page ? utf8_from_cp1251(src, d) : utf8_from_cp866(src, d);
			if (n != strlen(d)) bad("codepage size", "byte %02x", b);
			printf("from %s %d %" PRIu32 "\n", page ? "cp1251" : "cp866", b, (uint32_t)utf8_convert(d));
		}
	}
	for (uint32_t c = 1; c < 0x3000; c++)
	{
		char s[8], d[16];
		s[encode(s, c)] = '\0';
		for (int page = 0; page < 2; page++)
		{
			const size_t n = page ? utf8_to_cp1251(s, d) : utf8_to_cp866(s, d);
			if (n != 1 || d[1] != '\0') bad("codepage size", "U+%04X", c);
			if ((d[0] & 255) != 0x1A || c == 0x1A) printf("to %s %" PRIu32 " %d\n", page ? "cp1251" : "cp866", c, d[0] & 255);
		}
		const size_t n = utf8_transliteration(s, d);
		if (n != strlen(d)) bad("transliteration size", "U+%04X", c);
		if (!is_russian(c) && strcmp(s, d) != 0) bad("transliteration", "U+%04X is changed", c);
		for (size_t i = 0; is_russian(c) && i < n; i++)
		{
			if (!isalpha((unsigned char)d[i]) && d[i] != '\'') bad("transliteration", "U+%04X gives %s", c, d);
		}
	}
	saw("code pages");
}

/* --- output --- */
static char *ref = NULL;
static size_t ref_size = 0, ref_alloc = 0;
static void ref_add(const char *const format, va_list args)
{
	va_list copy;
	va_copy(copy, args);
	const int n = vsnprintf(NULL, 0, format, copy);
	va_end(copy);
	if (ref_size + (size_t)n + 1 > ref_alloc)
	{
		ref_alloc = 2 * (ref_size + (size_t)n + 1);
		ref = realloc(ref, ref_alloc);
	}
	vsnprintf(ref + ref_size, (size_t)n + 1, format, args);
	ref_size += (size_t)n;
}

static char *user = NULL;
static size_t user_size = 0;
static int user_func(const char *const format, va_list args)
{
	va_list copy;
	va_copy(copy, args);
	const int n = vsnprintf(NULL, 0, format, copy);
	va_end(copy);
	user = realloc(user, user_size + (size_t)n + 1);
	vsnprintf(user + user_size, (size_t)n + 1, format, args);
	user_size += (size_t)n;
	return n;
}

static const char *const KIND[] = { "buffer", "file", "function" };
struct target { int kind; universal_io io; char path[64]; char *want; size_t size; };

static void check_print(struct target *const t, const int got, const char *const format, ...)
{
	va_list args;
	ref_size = 0;
	va_start(args, format);
	ref_add(format, args);
	va_end(args);
	t->want = realloc(t->want, t->size + ref_size + 1);
	memcpy(t->want + t->size, ref, ref_size + 1);
	t->size += ref_size;
	if (got != (int)ref_size) bad("printf result", "%s, format %s: %d, the C library gives %zu", KIND[t->kind], format, got, ref_size);
	saw("print %s %s", KIND[t->kind], ref_size == 0 ? "nothing" : ref_size < 16 ? "short" : ref_size < 1000 ? "line" : "long");
}

#define PRINT(t, ...) check_print(t, uni_printf(&(t)->io, __VA_ARGS__), __VA_ARGS__)

static void random_text(char *const s, const size_t n, const bool percent)
{
	size_t i = 0;
	while (i + 5 < n)
	{
		static const uint32_t some[] = { 'a', 'Z', '0', ' ', '\n', '\t', '_', 0x430, 0x44F, 0x401, 0x7FF, 0x800, 0xFFF, 0x1000, 0x4E2D, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0x10FFFF };
		const uint32_t c = below(4) ? 33 + (uint32_t)below(94) : some[below(sizeof(some) / sizeof(some[0]))];
		if (c == '%' && !percent)
		{
			continue;
		}
		i += encode(s + i, c);
	}
	s[i] = '\0';
}

#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat-security"
static void print_one(struct target *const t)
{
	static char big[200000];
	char f[160], mod[40] = "";
	size_t k = 0;
	const char flags[] = "-+ #0";
	for (int i = 0; i < 5; i++)
	{
		if (below(6) == 0) mod[k++] = flags[i];
	}
	if (below(3) == 0) k += (size_t)sprintf(mod + k, "%d", (int)below(below(20) ? 30 : 5000));
	if (below(3) == 0) k += (size_t)sprintf(mod + k, ".%d", (int)below(20));
	mod[k] = '\0';
	char before[24], after[24];
	random_text(before, 1 + below(20), false);
	random_text(after, 1 + below(20), false);
#define FORMAT(spec) snprintf(f, sizeof(f), "%s%%%s%s%s", before, mod, spec, after)
	const uint64_t v = rnd() >> below(64);
	double d;
	memcpy(&d, &v, sizeof(d));
	switch (below(17))
	{
		case 0: FORMAT("d"); PRINT(t, f, (int)v); break;
		case 1: FORMAT("u"); PRINT(t, f, (unsigned)v); break;
		case 2: FORMAT("x"); PRINT(t, f, (unsigned)v); break;
		case 3: FORMAT("lld"); PRINT(t, f, (long long)v); break;
		case 4: FORMAT("zu"); PRINT(t, f, (size_t)v); break;
		case 5: FORMAT("llX"); PRINT(t, f, (long long)v); break;
		case 6: FORMAT("f"); PRINT(t, f, (double)(int64_t)v / 1000); break;
		case 7: FORMAT("g"); PRINT(t, f, d); break;
		case 8: FORMAT("e"); PRINT(t, f, d); break;
		case 9: FORMAT("c"); PRINT(t, f, 32 + (int)(v % 90)); break;
		case 10: FORMAT("o"); PRINT(t, f, (unsigned)v); break;
		case 11: random_text(big, 6 + below(200), true); FORMAT("s"); PRINT(t, f, big); break;
		case 12: random_text(big, 6 + below(below(10) ? 5000 : sizeof(big) - 10), true); PRINT(t, "%s", big); break;
		case 13: random_text(big, 40, true); PRINT(t, "%s%d%%%c|%5.2f|%s|%lld|%x\n", big, (int)v, 'q', 3.14159, "tail", (long long)v, (unsigned)v); break;
		case 14:
		{
			const int a = (int)below(20), b = (int)below(20), c = (int)below(8);
			PRINT(t, "%*d|%-*.*f", a, (int)v, b, c, 2.5);
			break;
		}
		case 15: random_text(big, 6 + below(3000), false); PRINT(t, big, 0); break;
		case 16: PRINT(t, "%s", ""); break;
	}
}

static void print_char(struct target *const t)
{
	static const uint32_t edge[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0x10FFFF };
	const uint32_t c = below(2) ? edge[below(12)] : 1 + (uint32_t)below(0x10FFFF);
	char b[8];
	b[encode(b, c)] = '\0';
	check_print(t, uni_print_char(&t->io, c), "%s", b);
	saw("print_char %zu octets", strlen(b));
}

static void target_check(struct target *const t)
{
	if (t->kind == 0)
	{
		char *const got = out_extract_buffer(&t->io);
		if (got == NULL || strlen(got) != t->size || memcmp(got, t->want, t->size) != 0) bad("out buffer", "%zu characters arrived of %zu", got ? strlen(got) : 0, t->size);
		if (out_is_correct(&t->io)) bad("out extract", "the output is still there after its buffer was taken");
		free(got);
	}
	else if (t->kind == 1)
	{
		char real[4096], path[4096] = "";
		realpath(t->path, real);
		if (out_get_path(&t->io, path) != strlen(real) || strcmp(path, real) != 0) bad("out path", "%s, not %s", path, real);
		if (out_close_file(&t->io) != 0) bad("out close", "not closed");
		FILE *const f = fopen(t->path, "rb");
		char *const got = malloc(t->size + 2);
		const size_t n = f != NULL ? fread(got, 1, t->size + 2, f) : 0;
		if (n != t->size || memcmp(got, t->want, n) != 0) bad("out file", "%zu characters arrived of %zu", n, t->size);
		free(got);
		if (f != NULL) fclose(f);
		unlink(t->path);
	}
	else
	{
		if (user_size != t->size || memcmp(user, t->want, t->size) != 0) bad("out function", "%zu characters arrived of %zu", user_size, t->size);
	}
	saw("compared %s", KIND[t->kind]);
}

static void part_out(const long rounds)
{
	for (long r = 0; r < rounds; r++)
	{
		struct target t[3];
		for (int i = 0; i < 3; i++)
		{
			t[i].kind = i;
			t[i].io = io_create();
			t[i].want = calloc(1, 1);
			t[i].size = 0;
			snprintf(t[i].path, sizeof(t[i].path), "out-%d-%ld.txt", (int)getpid(), r);
			if (out_is_correct(&t[i].io)) bad("out create", "correct before it is set");
			if (uni_printf(&t[i].io, "x") != -1) bad("out unset", "printing to nowhere is not reported");
		}
		static const size_t sizes[] = { 0, 1, 2, 7, 64, 1000, 5000 };
		if (out_set_buffer(&t[0].io, sizes[below(7)]) != 0) bad("out set", "buffer");
		if (out_set_file(&t[1].io, t[1].path) != 0) bad("out set", "file");
		user_size = 0;
		if (out_set_func(&t[2].io, &user_func) != 0) bad("out set", "function");
		const int ops = (int)below(60);
		for (int i = 0; i < ops; i++)
		{
			struct target *const x = &t[below(3)];
			if (below(3)) print_one(x); else print_char(x);
			if (below(8) == 0)
			{
				/* Swapping moves the whole output, position included */
				const int a = (int)below(3), b = (int)below(3);
				if (a != b)
				{
					if (out_swap(&t[a].io, &t[b].io) != 0) bad("out swap", "failed");
					const struct target keep = t[a];
					t[a].kind = t[b].kind; t[a].want = t[b].want; t[a].size = t[b].size; strcpy(t[a].path, t[b].path);
					t[b].kind = keep.kind; t[b].want = keep.want; t[b].size = keep.size; strcpy(t[b].path, keep.path);
					saw("swap outputs");
				}
			}
			if (below(40) == 0 && x->kind == 0)
			{
				/* Setting again starts anew */
				out_set_buffer(&x->io, below(10));
				x->size = 0;
				x->want[0] = '\0';
				saw("set again");
			}
		}
		for (int i = 0; i < 3; i++)
		{
			if (out_is_buffer(&t[i].io) != (t[i].kind == 0) || out_is_file(&t[i].io) != (t[i].kind == 1) || out_is_func(&t[i].io) != (t[i].kind == 2)) bad("out kind", "wrong kind");
			target_check(&t[i]);
			if (io_erase(&t[i].io) != 0) bad("erase", "failed");
			free(t[i].want);
		}
	}
	universal_io io = io_create();
	if (out_set_file(&io, "no/such/directory/file") != -1 || out_is_correct(&io)) bad("out missing", "an impossible file is not reported");
	if (out_set_file(&io, NULL) != -1 || out_set_file(&io, ".") != -1) bad("out missing", "an impossible file is not reported");
	saw("impossible output");
}

/* --- input --- */
static void part_in(const long rounds)
{
	for (long r = 0; r < rounds; r++)
	{
		char path[64];
		snprintf(path, sizeof(path), "in-%d-%ld.txt", (int)getpid(), r);
		const size_t max = 6 + below(below(3) ? 120 : 3000);
		char *const text = malloc(max + 64);
		random_text(text, max, true);
		if (below(2))
		{
			/* numbers and names among the text */
			static const char *const some[] = { "12 ", "-7 ", "3.5e2 ", "abc_9(", "0x1F ", "имя1+", " 42", "9", "x", "1e5", "\n\n", "ы" };
			size_t n = strlen(text);
			n = n > max / 2 ? 0 : n;
			while (n + 16 < max)
			{
				n += (size_t)sprintf(text + n, "%s", some[below(12)]);
			}
		}
		const size_t size = strlen(text);
		char *const exact = malloc(size + 1);
		memcpy(exact, text, size + 1);
		FILE *f = fopen(path, "wb");
		fwrite(text, 1, size, f);
		fclose(f);

		universal_io io[2] = { io_create(), io_create() };
		if (in_is_correct(&io[0])) bad("in create", "correct before it is set");
		int kind[2] = { 0, 1 };
		if (in_set_buffer(&io[0], exact) != 0) bad("in set", "buffer");
		if (in_set_file(&io[1], path) != 0) bad("in set", "file");
		size_t pos[2] = { 0, 0 };
		const int ops = 10 + (int)below(300);
		for (int k = 0; k < ops; k++)
		{
			const int w = (int)below(2);
			universal_io *const x = &io[w];
			const char *const name = kind[w] == 0 ? "buffer" : "file";
			const char *const at = text + pos[w];
			switch (below(9))
			{
				case 0: case 1: case 2:
				{
					const char32_t got = uni_scan_char(x);
					const char32_t want = *at != '\0' ? utf8_convert(at) : (char32_t)EOF;
					if (got != want) bad("scan_char", "%s position %zu of %zu: U+%04X, expected U+%04X", name, pos[w], size, got, want);
					if (*at != '\0') pos[w] += utf8_symbol_size(*at);
					saw("scan_char %s %s", name, *at != '\0' ? "character" : "end");
					if (*at != '\0' && below(4) == 0)
					{
						if (uni_unscan_char(x, got) != 0) bad("unscan_char", "%s at %zu of %zu", name, pos[w], size);
						pos[w] -= utf8_symbol_size(*at);
						saw("unscan_char %s", name);
					}
					break;
				}
				case 3:
				{
					/* any position at the start of a character */
					size_t p = below(size + 3);
					while (p < size && (text[p] & 0xC0) == 0x80) p--;
					const int got = in_set_position(x, p);
					if (got != (p <= size ? 0 : -1)) bad("set_position", "%s %zu of %zu: %d", name, p, size, got);
					if (p <= size) pos[w] = p;
					saw("set_position %s %s", name, p < size ? "inside" : p == size ? "end" : "beyond");
					break;
				}
				case 4:
				{
					static const char *const FORMATS[] = { "%d", "%5d", "%x", "%2x", "%o", "%i", "%u" };
					const char *const fmt = FORMATS[below(7)];
					int got = -77, want = -77;
					char with[16];
					int n = 0;
					sprintf(with, "%s%%n", fmt);
					const int ok = sscanf(at, with, &want, &n);
					const int res = uni_scanf(x, fmt, &got);
					if ((res > 0) != (ok > 0) || got != want) bad("scanf int", "%s %s at %zu of %zu: %d %d, the C library gives %d %d", name, fmt, pos[w], size, res, got, ok, want);
					if (ok > 0) pos[w] += (size_t)n;
					saw("scanf %s %s %s", name, fmt, ok > 0 ? "matched" : "not matched");
					if (ok <= 0)
					{
						in_set_position(x, pos[w]);
					}
					break;
				}
				case 5:
				{
					double got = -77, want = -77;
					int n = 0;
					const int ok = sscanf(at, "%lf%n", &want, &n);
					const int res = uni_scanf(x, "%lf", &got);
					if ((res > 0) != (ok > 0) || memcmp(&got, &want, sizeof(got)) != 0) bad("scanf double", "%s at %zu of %zu: %d %g, the C library gives %d %g", name, pos[w], size, res, got, ok, want);
					if (ok > 0) pos[w] += (size_t)n; else in_set_position(x, pos[w]);
					saw("scanf %s %%lf %s", name, ok > 0 ? "matched" : "not matched");
					break;
				}
				case 6:
				{
					/* several conversions in one call */
					int a = -1, b = -1, c = -1, d = -1, n = 0;
					static const char *const FORMATS[] = { "%d %d", "%d,%d", "%2d%2d", "%x %o", "%d(%d", "%1d%i" };
					const char *const fmt = FORMATS[below(6)];
					char with[24];
					sprintf(with, "%s%%n", fmt);
					const int ok = sscanf(at, with, &a, &b, &n);
					const int res = uni_scanf(x, fmt, &c, &d);
					if ((ok == 2) != (res == 2) || (ok == 2 && (a != c || b != d))) bad("scanf two", "%s %s at %zu of %zu: %d (%d %d), the C library gives %d (%d %d)", name, fmt, pos[w], size, res, c, d, ok, a, b);
					if (ok == 2 && in_get_position(x) != pos[w] + (size_t)n) bad("scanf two position", "%s at %zu: %zu, expected %zu, text %.20s", name, pos[w], in_get_position(x), pos[w] + (size_t)n, at);
					if (ok == 2) pos[w] += (size_t)n; else in_set_position(x, pos[w]);
					saw("scanf %s %s %s", name, fmt, ok == 2 ? "matched" : "not matched");
					break;
				}
				case 7:
				{
					char got[4000] = "", want[4000] = "";
					size_t n = 0;
					const char32_t first = *at != '\0' ? utf8_convert(at) : 0;
					if (utf8_is_letter(first))
					{
						while (at[n] != '\0' && (utf8_is_letter(utf8_convert(at + n)) || utf8_is_digit(utf8_convert(at + n)))) n += utf8_symbol_size(at[n]);
					}
					memcpy(want, at, n);
					const size_t res = uni_scan_identifier(x, got);
					if (res != n || strcmp(got, want) != 0) bad("scan_identifier", "%s at %zu of %zu: %zu %s, expected %zu %s", name, pos[w], size, res, got, n, want);
					pos[w] += n;
					saw("scan_identifier %s %s", name, n ? "name" : "no name");
					break;
				}
				default:
				{
					if (below(10) == 0)
					{
						if (in_swap(&io[0], &io[1]) != 0) bad("in swap", "failed");
						const size_t p = pos[0]; pos[0] = pos[1]; pos[1] = p;
						const int q = kind[0]; kind[0] = kind[1]; kind[1] = q;
						saw("swap inputs");
					}
					else if (*at != '\0' && isdigit((unsigned char)*at))
					{
						char got[4000] = "";
						double v;
						int n = 0;
						sscanf(at, "%lf%n", &v, &n);
						const size_t res = uni_scan_number(x, got);
						if (res != (size_t)n || strncmp(got, at, res) != 0 || got[res] != '\0') bad("scan_number", "%s at %zu of %zu: %zu, expected %d", name, pos[w], size, res, n);
						pos[w] += (size_t)n;
						saw("scan_number %s", name);
					}
					break;
				}
			}
			if (in_get_position(x) != pos[w])
			{
				bad("position", "%s: position %zu of %zu, expected %zu", name, in_get_position(x), size, pos[w]);
				pos[w] = in_get_position(x);
				if (pos[w] > size) { in_set_position(x, 0); pos[w] = 0; }
			}
			if (in_is_buffer(x) != (kind[w] == 0) || in_is_file(x) != (kind[w] == 1)) bad("in kind", "wrong kind");
		}
		for (int w = 0; w < 2; w++)
		{
			if (kind[w] == 1)
			{
				char real[4096], p[4096] = "";
				realpath(path, real);
				if (in_get_path(&io[w], p) != strlen(real) || strcmp(p, real) != 0) bad("in path", "%s, not %s", p, real);
			}
			else if (in_get_buffer(&io[w]) != exact) bad("in buffer", "another buffer");
			if (io_erase(&io[w]) != 0 || in_is_correct(&io[w])) bad("erase", "failed");
		}
		free(text);
		free(exact);
		unlink(path);
	}
	universal_io io = io_create();
	if (in_set_file(&io, "no/such/file") != -1 || in_is_correct(&io)) bad("in missing", "a missing file is not reported");
	if (in_set_file(&io, ".") != -1 || in_set_file(&io, NULL) != -1 || in_set_buffer(&io, NULL) != -1) bad("in missing", "an impossible input is not reported");
	if (uni_scan_char(&io) != (char32_t)EOF) bad("in unset", "reading from nowhere is not reported");
	in_clear(&io);
	/* Malformed text: progress at every step and the following characters intact */
	for (long r = 0; r < rounds; r++)
	{
		char raw[40];
		size_t n = 0;
		const size_t k = 1 + below(20);
		for (size_t i = 0; i < k; i++) raw[n++] = (char)(1 + below(255));
		memcpy(raw + n, "{end}", 6);
		universal_io x = io_create();
		char *const exact = strdup(raw);
		in_set_buffer(&x, exact);
		size_t last = 0;
		char tail[8] = "";
		for (char32_t c = uni_scan_char(&x); c != (char32_t)EOF; c = uni_scan_char(&x))
		{
			if (in_get_position(&x) <= last) { bad("malformed", "no progress at %zu", last); break; }
			last = in_get_position(&x);
			memmove(tail, tail + 1, 4);
			tail[4] = c < 128 ? (char)c : '?';
		}
		if (memcmp(tail + 2, "nd}", 3) != 0 && (raw[n - 1] & 0x80) == 0) bad("malformed", "the text after a malformed character is lost: %.5s", tail);
		in_clear(&x);
		free(exact);
	}
	saw("malformed input");
}

int main(int argc, const char *argv[])
{
	const char *const part = argv[1];
	state = strtoull(argv[2], NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
	const long rounds = argc > 3 ? atol(argv[3]) : 10;
	user = calloc(1, 1);
	for (int i = 0; i < 20; i++) rnd();
	if (strcmp(part, "utf8") == 0) part_utf8();
	if (strcmp(part, "out") == 0) part_out(rounds);
	if (strcmp(part, "in") == 0) part_in(rounds);
	for (int i = 0; i < MAX_SEEN && seen[i].what[0] != '\0'; i++)
	{
		printf("saw %ld %s\n", seen[i].count, seen[i].what);
	}
	free(ref);
	free(user);
	return 0;
}
