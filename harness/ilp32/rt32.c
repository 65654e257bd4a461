/* What the library needs of a C library, for a machine with 32-bit pointers.
 * Linked with it into an image without any operating system (m_ilp32.c). */
#include <stddef.h>
#include <stdint.h>

uint8_t *kv_arena;		/* set by the loader */
uint32_t kv_arena_size, kv_arena_used, kv_blocks;
const char *kv_message;

void *memcpy(void *d, const void *s, size_t n) { uint8_t *a = d; const uint8_t *b = s; while(n--) *a++ = *b++; return d; }
void *memset(void *d, int c, size_t n) { uint8_t *a = d; while(n--) *a++ = c; return d; }
void *memmove(void *d, const void *s, size_t n)
{
	uint8_t *a = d; const uint8_t *b = s;
	if(a < b) while(n--) *a++ = *b++;
	else while(n--) a[n] = b[n];
	return d;
}
int memcmp(const void *x, const void *y, size_t n)
{
	const uint8_t *a = x, *b = y;
	for(; n--; a++, b++) if(*a != *b) return *a - *b;
	return 0;
}
size_t strlen(const char *s) { size_t n = 0; while(s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while(*a && *a == *b) a++, b++; return (uint8_t)*a - (uint8_t)*b; }

static void stop(const char *m) { kv_message = m; __builtin_trap(); }
void abort(void) { stop("abort"); }
void kv_assert(const char *e, const char *f, int l) { stop(e); }

/* blocks of powers of two, with marks before and after what was asked for */
struct head { uint32_t mark, n, class; struct head *next; };
static struct head *lists[32];
#define MARK 0x6B766D33u

void *malloc(size_t n)
{
	uint32_t c = 5;
	struct head *h;
	if(n > 0x60000000) return 0;
	while(((uint32_t)1 << c) < n + 8) c++;
	if((h = lists[c])) lists[c] = h->next;
	else
	{
		if(kv_arena_size - kv_arena_used < sizeof *h + ((uint32_t)1 << c)) return 0;
		h = (struct head *)(kv_arena + kv_arena_used);
		kv_arena_used += sizeof *h + ((uint32_t)1 << c);
	}
	h->mark = MARK; h->n = n; h->class = c;
	memset(h + 1, 0xC3, n < 4096 ? n : 4096);
	memset((uint8_t *)(h + 1) + n, 0x5C, 8);
	kv_blocks++;
	return h + 1;
}
void free(void *p)
{
	struct head *h = (struct head *)p - 1;
	int i;
	if(!p) return;
	if(h->mark != MARK) stop("free of what is no block");
	for(i = 0; i < 8; i++) if(((uint8_t *)p)[h->n + i] != 0x5C) stop("written past the end of a block");
	h->mark = 0;
	memset(p, 0xD7, h->n < 4096 ? h->n : 4096);
	h->next = lists[h->class];
	lists[h->class] = h;
	kv_blocks--;
}
void *calloc(size_t a, size_t b)
{
	void *p;
	if(b && a > 0x60000000 / b) return 0;
	p = malloc(a * b);
	if(p) memset(p, 0, a * b);
	return p;
}
void *realloc(void *p, size_t n)
{
	void *q = malloc(n);
	if(q && p)
	{
		uint32_t m = ((struct head *)p - 1)->n;
		memcpy(q, p, m < n ? m : n);
		free(p);
	}
	return q;
}

/* 64-bit division, which compilers leave to a library here */
static uint64_t divmod(uint64_t a, uint64_t b, uint64_t *rem)
{
	uint64_t q = 0, r = 0;
	int i;
	for(i = 63; i >= 0; i--)
	{
		uint64_t top = r >> 63;
		r = r << 1 | (a >> i & 1);
		if(top || r >= b) { r -= b; q |= (uint64_t)1 << i; }
	}
	*rem = r;
	return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return divmod(a, b, &r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; divmod(a, b, &r); return r; }
