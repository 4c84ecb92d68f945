/* Executes a recorded history of container operations, one per line of standard input, and prints what each returned.
   Numbers: SIZE_MAX is printed as -1 (as a signed number), doubles by their bits, strings in hexadecimal. */
#include <inttypes.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "hash.h"
#include "item.h"
#include "map.h"
#include "node_vector.h"
#include "stack.h"
#include "strings.h"
#include "tree.h"
#include "uniio.h"
#include "uniscanner.h"
#include "utf8.h"
#include "vector.h"

static char line[1 << 20];
static char *tok;

static const char *word(void)
{
	char *w = strtok(tok, " \n");
	tok = NULL;
	return w != NULL ? w : "";
}

static long long num(void)
{
	const char *w = word();
	return w[0] == '-' ? strtoll(w, NULL, 0) : (long long)strtoull(w, NULL, 0);
}

static double dbl(void)
{
	const uint64_t b = strtoull(word(), NULL, 16);
	double d;
	memcpy(&d, &b, sizeof(d));
	return d;
}

static char text[1 << 16];
static const char *str(void)
{
	const char *w = word();
	if (w[0] == '!')
	{
		return NULL;
	}
	size_t n = 0;
	for (size_t i = 1; w[i] != '\0' && w[i + 1] != '\0'; i += 2)
	{
		char h[3] = { w[i], w[i + 1], '\0' };
		text[n++] = (char)strtol(h, NULL, 16);
	}
	/* An exact allocation lets AddressSanitizer see an access past the terminator */
	static char *keep = NULL;
	free(keep);
	keep = malloc(n + 1);
	memcpy(keep, text, n);
	keep[n] = '\0';
	return keep;
}

static const char32_t *wide(void)
{
	static char32_t *keep = NULL;
	const char *s = str();
	if (s == NULL)
	{
		return NULL;
	}
	size_t n = 0;
	const size_t len = strlen(s);
	free(keep);
	keep = malloc((len + 1) * sizeof(char32_t));
	for (size_t i = 0; i < len; i += utf8_symbol_size(s[i]))
	{
		keep[n++] = utf8_convert(&s[i]);
	}
	keep[n++] = 0;
	keep = realloc(keep, n * sizeof(char32_t));
	return keep;
}

static void out(const long long v)
{
	printf(" %lld", v);
}

static void outd(const double d)
{
	uint64_t b;
	memcpy(&b, &d, sizeof(d));
	printf(" %016" PRIx64, b);
}

static void outs(const char *s)
{
	if (s == NULL)
	{
		printf(" !");
		return;
	}
	printf(" x");
	for (; *s != '\0'; s++)
	{
		printf("%02x", (unsigned char)*s);
	}
}

static bool is(const char *const op, const char *const name)
{
	return strcmp(op, name) == 0;
}

/* --- vector --- */
static vector vec = { 0 };
static void do_vector(const char *const op)
{
	if (is(op, "create")) { vector_clear(&vec); vec = vector_create((size_t)num()); out(vector_is_correct(&vec)); }
	else if (is(op, "add")) out((long long)vector_add(&vec, (item_t)num()));
	else if (is(op, "addd")) out((long long)vector_add_double(&vec, dbl()));
	else if (is(op, "addl")) out((long long)vector_add_int64(&vec, num()));
	else if (is(op, "set")) { const size_t i = (size_t)num(); out(vector_set(&vec, i, (item_t)num())); }
	else if (is(op, "setd")) { const size_t i = (size_t)num(); out((long long)vector_set_double(&vec, i, dbl())); }
	else if (is(op, "setl")) { const size_t i = (size_t)num(); out((long long)vector_set_int64(&vec, i, num())); }
	else if (is(op, "get")) out((long long)vector_get(&vec, (size_t)num()));
	else if (is(op, "getd")) outd(vector_get_double(&vec, (size_t)num()));
	else if (is(op, "getl")) out(vector_get_int64(&vec, (size_t)num()));
	else if (is(op, "pop")) out((long long)vector_remove(&vec));
	else if (is(op, "popd")) outd(vector_remove_double(&vec));
	else if (is(op, "popl")) out(vector_remove_int64(&vec));
	else if (is(op, "inc")) out(vector_increase(&vec, (size_t)num()));
	else if (is(op, "resize")) out(vector_resize(&vec, (size_t)num()));
	else if (is(op, "size")) out((long long)vector_size(&vec));
	else if (is(op, "clear")) { out(vector_clear(&vec)); out(vector_is_correct(&vec)); }
	else if (is(op, "all"))
	{
		for (size_t i = 0; i < vector_size(&vec) && vector_is_correct(&vec); i++)
		{
			out((long long)vector_get(&vec, i));
		}
	}
	else abort();
}

/* --- stack --- */
static stack stk = { 0 };
static void do_stack(const char *const op)
{
	if (is(op, "create")) { stack_clear(&stk); stk = stack_create((size_t)num()); out(stack_is_correct(&stk)); }
	else if (is(op, "push")) out(stack_push(&stk, (item_t)num()));
	else if (is(op, "pushd")) out(stack_push_double(&stk, dbl()));
	else if (is(op, "pushl")) out(stack_push_int64(&stk, num()));
	else if (is(op, "pop")) out((long long)stack_pop(&stk));
	else if (is(op, "popd")) outd(stack_pop_double(&stk));
	else if (is(op, "popl")) out(stack_pop_int64(&stk));
	else if (is(op, "peek")) out((long long)stack_peek(&stk));
	else if (is(op, "peekd")) outd(stack_peek_double(&stk));
	else if (is(op, "peekl")) out(stack_peek_int64(&stk));
	else if (is(op, "reset")) out(stack_reset(&stk));
	else if (is(op, "size")) out((long long)stack_size(&stk));
	else if (is(op, "clear")) { out(stack_clear(&stk)); out(stack_is_correct(&stk)); }
	else abort();
}

/* --- strings --- */
static strings strs = { 0 };
static void do_strings(const char *const op)
{
	if (is(op, "create")) { strings_clear(&strs); strs = strings_create((size_t)num()); out(strings_is_correct(&strs)); }
	else if (is(op, "add")) out((long long)strings_add(&strs, str()));
	else if (is(op, "addw")) out((long long)strings_add_by_utf8(&strs, wide()));
	else if (is(op, "addv"))
	{
		/* Text, then whether the vector ends with a terminator and something after it */
		const char *const s = str();
		const int end = (int)num();
		vector v = vector_create(1);
		const size_t len = s != NULL ? strlen(s) : 0;
		for (size_t i = 0; i < len; i += utf8_symbol_size(s[i]))
		{
			vector_add(&v, (item_t)utf8_convert(&s[i]));
		}
		if (end)
		{
			vector_add(&v, 0);
			vector_add(&v, 'Z');
		}
		out((long long)strings_add_by_vector(&strs, s != NULL ? &v : NULL));
		vector_clear(&v);
	}
	else if (is(op, "get")) outs(strings_get(&strs, (size_t)num()));
	else if (is(op, "len")) out((long long)strings_get_length(&strs, (size_t)num()));
	else if (is(op, "pop")) outs(strings_remove(&strs));
	else if (is(op, "size")) out((long long)strings_size(&strs));
	else if (is(op, "clear")) { out(strings_clear(&strs)); out(strings_is_correct(&strs)); }
	else if (is(op, "all"))
	{
		for (size_t i = 0; strings_is_correct(&strs) && i < strings_size(&strs); i++)
		{
			outs(strings_get(&strs, i));
			out((long long)strings_get_length(&strs, i));
		}
	}
	else abort();
}

/* --- map --- */
static map as = { 0 };
static universal_io io;
static char *io_text = NULL;
static void do_map(const char *const op)
{
	char32_t last = 0;
	if (is(op, "create")) { map_clear(&as); as = map_create((size_t)num()); out(map_is_correct(&as)); }
	else if (is(op, "reserve")) out((long long)map_reserve(&as, str()));
	else if (is(op, "reservew")) out((long long)map_reserve_by_utf8(&as, wide()));
	else if (is(op, "reserveio")) { out((long long)map_reserve_by_io(&as, &io, &last)); out(last); }
	else if (is(op, "add")) { const item_t v = (item_t)num(); out((long long)map_add(&as, str(), v)); }
	else if (is(op, "addw")) { const item_t v = (item_t)num(); out((long long)map_add_by_utf8(&as, wide(), v)); }
	else if (is(op, "addio")) { out((long long)map_add_by_io(&as, &io, (item_t)num(), &last)); out(last); }
	else if (is(op, "set")) { const item_t v = (item_t)num(); out((long long)map_set(&as, str(), v)); }
	else if (is(op, "setw")) { const item_t v = (item_t)num(); out((long long)map_set_by_utf8(&as, wide(), v)); }
	else if (is(op, "setio")) { out((long long)map_set_by_io(&as, &io, (item_t)num(), &last)); out(last); }
	else if (is(op, "seti")) { const size_t i = (size_t)num(); out(map_set_by_index(&as, i, (item_t)num())); }
	else if (is(op, "idx")) out((long long)map_get_index(&as, str()));
	else if (is(op, "idxw")) out((long long)map_get_index_by_utf8(&as, wide()));
	else if (is(op, "idxio")) { out((long long)map_get_index_by_io(&as, &io, &last)); out(last); }
	else if (is(op, "get")) out((long long)map_get(&as, str()));
	else if (is(op, "getw")) out((long long)map_get_by_utf8(&as, wide()));
	else if (is(op, "getio")) { out((long long)map_get_by_io(&as, &io, &last)); out(last); }
	else if (is(op, "geti")) out((long long)map_get_by_index(&as, (size_t)num()));
	else if (is(op, "str")) outs(map_to_string(&as, (size_t)num()));
	else if (is(op, "last")) outs(map_last_read(&as));
	else if (is(op, "io"))
	{
		free(io_text);
		io_text = strdup(str());
		in_clear(&io);
		out(in_set_buffer(&io, io_text));
	}
	else if (is(op, "clear")) { out(map_clear(&as)); out(map_is_correct(&as)); }
	else abort();
}

/* --- hash --- */
static hash hs = { 0 };
static void do_hash(const char *const op)
{
	if (is(op, "create")) { hash_clear(&hs); hs = hash_create((size_t)num()); out(hash_is_correct(&hs)); }
	else if (is(op, "add")) { const item_t k = (item_t)num(); out((long long)hash_add(&hs, k, (size_t)num())); }
	else if (is(op, "idx")) out((long long)hash_get_index(&hs, (item_t)num()));
	else if (is(op, "key")) out((long long)hash_get_key(&hs, (size_t)num()));
	else if (is(op, "amount")) out((long long)hash_get_amount(&hs, (item_t)num()));
	else if (is(op, "amounti")) out((long long)hash_get_amount_by_index(&hs, (size_t)num()));
	else
	{
		const bool at = op[strlen(op) - 1] == 'i';
		if (is(op, "remove")) { out(hash_remove(&hs, (item_t)num())); return; }
		if (is(op, "removei")) { out(hash_remove_by_index(&hs, (size_t)num())); return; }
		if (is(op, "clear")) { out(hash_clear(&hs)); out(hash_is_correct(&hs)); return; }
		const long long k = num();
		const size_t n = (size_t)num();
		if (is(op, "get") || is(op, "geti")) out((long long)(at ? hash_get_by_index(&hs, (size_t)k, n) : hash_get(&hs, (item_t)k, n)));
		else if (is(op, "getd") || is(op, "getdi")) outd(at ? hash_get_double_by_index(&hs, (size_t)k, n) : hash_get_double(&hs, (item_t)k, n));
		else if (is(op, "getl") || is(op, "getli")) out(at ? hash_get_int64_by_index(&hs, (size_t)k, n) : hash_get_int64(&hs, (item_t)k, n));
		else if (is(op, "set")) out((long long)hash_set(&hs, (item_t)k, n, (item_t)num()));
		else if (is(op, "setd")) out((long long)hash_set_double(&hs, (item_t)k, n, dbl()));
		else if (is(op, "setl")) out((long long)hash_set_int64(&hs, (item_t)k, n, num()));
		else if (is(op, "seti")) out(hash_set_by_index(&hs, (size_t)k, n, (item_t)num()));
		else if (is(op, "setdi")) out((long long)hash_set_double_by_index(&hs, (size_t)k, n, dbl()));
		else if (is(op, "setli")) out((long long)hash_set_int64_by_index(&hs, (size_t)k, n, num()));
		else abort();
	}
}

/* --- tree --- */
static vector tree = { 0 };
#define LABELS 4096
static node nodes[LABELS];
static long label_of(const node *const nd)
{
	if (!node_is_correct(nd))
	{
		return -1;
	}
	for (long i = 0; i < LABELS; i++)
	{
		if (node_is_correct(&nodes[i]) && nodes[i].index == nd->index)
		{
			return i;
		}
	}
	return -2;
}

static node node_vec_buf[1];
static node_vector nvec;
static bool nvec_used = false;

static void do_tree(const char *const op)
{
	if (is(op, "create"))
	{
		vector_clear(&tree);
		tree = vector_create((size_t)num());
		for (long i = 0; i < LABELS; i++)
		{
			nodes[i] = (node){ NULL, SIZE_MAX };
		}
		nodes[0] = node_get_root(&tree);
		out(node_is_correct(&nodes[0]));
		if (nvec_used)
		{
			node_vector_clear(&nvec);
		}
		nvec = node_vector_create();
		nvec_used = true;
	}
	else if (is(op, "root")) { const node n = node_get_root(&tree); out(label_of(&n)); }
	else if (is(op, "child"))
	{
		const long p = num(), n = num();
		nodes[n] = node_add_child(&nodes[p], (item_t)num());
		out(node_is_correct(&nodes[n]));
	}
	else if (is(op, "arg")) { const long n = num(); out(node_add_arg(&nodes[n], (item_t)num())); }
	else if (is(op, "argd")) { const long n = num(); out(node_add_arg_double(&nodes[n], dbl())); }
	else if (is(op, "argl")) { const long n = num(); out(node_add_arg_int64(&nodes[n], num())); }
	else if (is(op, "sarg")) { const long n = num(); const size_t i = (size_t)num(); out(node_set_arg(&nodes[n], i, (item_t)num())); }
	else if (is(op, "sargd")) { const long n = num(); const size_t i = (size_t)num(); out((long long)node_set_arg_double(&nodes[n], i, dbl())); }
	else if (is(op, "sargl")) { const long n = num(); const size_t i = (size_t)num(); out((long long)node_set_arg_int64(&nodes[n], i, num())); }
	else if (is(op, "type")) { const long n = num(); out(node_set_type(&nodes[n], (item_t)num())); }
	else if (is(op, "gtype")) out((long long)node_get_type(&nodes[num()]));
	else if (is(op, "gargc")) out((long long)node_get_argc(&nodes[num()]));
	else if (is(op, "garg")) { const long n = num(); out((long long)node_get_arg(&nodes[n], (size_t)num())); }
	else if (is(op, "gargd")) { const long n = num(); outd(node_get_arg_double(&nodes[n], (size_t)num())); }
	else if (is(op, "gargl")) { const long n = num(); out(node_get_arg_int64(&nodes[n], (size_t)num())); }
	else if (is(op, "amount")) out((long long)node_get_amount(&nodes[num()]));
	else if (is(op, "gchild")) { const long n = num(); const node c = node_get_child(&nodes[n], (size_t)num()); out(label_of(&c)); }
	else if (is(op, "parent")) { const node c = node_get_parent(&nodes[num()]); out(label_of(&c)); }
	else if (is(op, "next")) { const node c = node_get_next(&nodes[num()]); out(label_of(&c)); }
	else if (is(op, "snext")) { node c = nodes[num()]; out(node_set_next(&c)); out(label_of(&c)); }
	else if (is(op, "copy")) { node c; node_copy(&c, &nodes[num()]); out(label_of(&c)); }
	else if (is(op, "saveload"))
	{
		const size_t i = node_save(&nodes[num()]);
		const node c = node_load(&tree, i);
		out(label_of(&c));
	}
	else if (is(op, "insert"))
	{
		const long at = num(), n = num();
		const item_t t = (item_t)num();
		nodes[n] = node_insert(&nodes[at], t, (size_t)num());
		out(node_is_correct(&nodes[n]));
	}
	else if (is(op, "swap")) { const long a = num(); out(node_swap(&nodes[a], &nodes[num()])); }
	else if (is(op, "order")) { const long a = num(); out(node_order(&nodes[a], &nodes[num()])); }
	else if (is(op, "remove"))
	{
		const long n = num();
		out(node_remove(&nodes[n]));
		out(node_is_correct(&nodes[n]));
	}
	else if (is(op, "forget")) { nodes[num()] = (node){ NULL, SIZE_MAX }; out(0); }
	else if (is(op, "nvadd")) out((long long)node_vector_add(&nvec, &nodes[num()]));
	else if (is(op, "nvset")) { const size_t i = (size_t)num(); out(node_vector_set(&nvec, i, &nodes[num()])); }
	else if (is(op, "nvget")) { const node c = node_vector_get(&nvec, (size_t)num()); out(label_of(&c)); }
	else if (is(op, "nvsize")) out((long long)node_vector_size(&nvec));
	else if (is(op, "walk"))
	{
		/* The tree by its traversal: label, type, arguments, number of children, parent */
		for (node n = node_get_root(&tree); node_is_correct(&n); n = node_get_next(&n))
		{
			const node p = node_get_parent(&n);
			printf(" [%ld %lld %ld", label_of(&n), (long long)node_get_type(&n), label_of(&p));
			for (size_t i = 0; i < node_get_argc(&n); i++)
			{
				out((long long)node_get_arg(&n, i));
			}
			printf(" :");
			for (size_t i = 0; i < node_get_amount(&n); i++)
			{
				const node c = node_get_child(&n, i);
				out(label_of(&c));
			}
			printf("]");
		}
	}
	else abort();
	(void)node_vec_buf;
}

/* --- item --- */
static void do_item(const char *const op)
{
	item_t cells[80];
	const item_t guard = (item_t)0x5A;
	if (is(op, "l") || is(op, "d"))
	{
		const item_status st = (item_status)num();
		for (size_t i = 0; i < 80; i++)
		{
			cells[i] = guard;
		}
		const char *const w = word();
		const bool isd = is(op, "d");
		double d = 0;
		long long l = 0;
		if (isd)
		{
			const uint64_t b = strtoull(w, NULL, 16);
			memcpy(&d, &b, sizeof(d));
		}
		else
		{
			l = w[0] == '-' ? strtoll(w, NULL, 0) : (long long)strtoull(w, NULL, 0);
		}
		const size_t n = isd ? (st == item_types ? item_store_double(d, cells) : item_store_double_for_target(st, d, cells))
			: (st == item_types ? item_store_int64(l, cells) : item_store_int64_for_target(st, l, cells));
		out((long long)n);
		for (size_t i = 0; i < n && i < 80; i++)
		{
			out((long long)cells[i]);
		}
		printf(" |");
		for (size_t i = n; i < 80; i++)
		{
			if (cells[i] != guard)
			{
				printf(" overrun");
				break;
			}
		}
		if (n <= 80)
		{
			/* Reading must not depend on what follows the stored words */
			for (size_t i = n; i < 80; i++)
			{
				cells[i] = (item_t)-1;
			}
			if (isd)
			{
				outd(st == item_types ? item_restore_double(cells) : item_restore_double_for_target(st, cells));
			}
			else
			{
				out(st == item_types ? item_restore_int64(cells) : item_restore_int64_for_target(st, cells));
			}
		}
	}
	else if (is(op, "check")) { const item_status st = (item_status)num(); out(item_check_var(st, (item_t)num())); }
	else if (is(op, "range")) { const item_status st = (item_status)num(); out((long long)item_get_min(st)); out((long long)item_get_max(st)); }
	else if (is(op, "null"))
	{
		const item_status st = (item_status)num();
		out((long long)item_store_int64_for_target(st, 1, NULL));
		out((long long)item_store_double_for_target(st, 1.0, NULL));
		out(item_restore_int64_for_target(st, NULL));
		outd(item_restore_double_for_target(st, NULL));
	}
	else abort();
}

int main(void)
{
	io = io_create();
	while (fgets(line, sizeof(line), stdin) != NULL)
	{
		tok = line;
		const char *const kind = word();
		char op[16];
		snprintf(op, sizeof(op), "%s", word());
		switch (kind[0])
		{
			case 'V': do_vector(op); break;
			case 'S': do_stack(op); break;
			case 'T': do_strings(op); break;
			case 'M': do_map(op); break;
			case 'H': do_hash(op); break;
			case 'N': do_tree(op); break;
			case 'I': do_item(op); break;
			default: abort();
		}
		printf("\n");
		fflush(stdout);
	}
	vector_clear(&vec);
	stack_clear(&stk);
	strings_clear(&strs);
	map_clear(&as);
	hash_clear(&hs);
	vector_clear(&tree);
	if (nvec_used)
	{
		node_vector_clear(&nvec);
	}
	in_clear(&io);
	free(io_text);
	return 0;
}
