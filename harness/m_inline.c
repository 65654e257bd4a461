/* The public inline helpers (rotate.h, loadstore.h) of several builds against arithmetic. */
#include "kv.h"
#include <dlfcn.h>

struct ent { const char *name; int kind, width, k; void *fn; };
static const struct ent *tab[16];
static int ntab[16];
static int total;

void init_inline(void)
{
	for(int i = 0; i < cfg.nlibs; i++)
	{
		void *h = dlopen(cfg.libs[i], RTLD_NOW | RTLD_LOCAL);
		if(!h || !(tab[i] = dlsym(h, "kv_shim"))) { fprintf(stderr, "%s: %s\n", cfg.libs[i], dlerror()); exit(3); }
		for(ntab[i] = 0; tab[i][ntab[i]].name; ntab[i]++);
		total += ntab[i];
	}
}

/* rotation to the left by taking the bits one by one */
static uint64_t rol(uint64_t x, uint w, uint k)
{
	uint64_t y = 0;
	for(uint i = 0; i < w; i++) if(x >> i & 1) y |= (uint64_t)1 << (i + k) % w;
	return y;
}

/* byte number i of a sequence of words in the given order */
static uint at(uint i, uint w, int big) { uint b = w / 8; return big ? i / b * b + (b - 1 - i % b) : i; }

static uint64_t val(struct rng *r, uint w)
{
	uint64_t x = rnd(r);
	switch(rn(r, 4)) { case 0: x = (uint64_t)1 << rn(r, 64); break; case 1: x = ~((uint64_t)1 << rn(r, 64)); break; case 2: rdata(r, &x, 8); }
	return w == 64 ? x : x & (((uint64_t)1 << w) - 1);
}

#if defined(__clang__)
__attribute__((no_sanitize("function")))
#endif
void m_inline(struct rng *r, long n)
{
	int i, j = total ? n % total : 0;
	for(i = 0; i < cfg.nlibs && j >= ntab[i]; i++) j -= ntab[i];
	if(!total) return;
	const struct ent *e = tab[i] + j;
	const char *lib = strrchr(cfg.libs[i], '/') + 1;
	uint w = e->width, b = w / 8, t;
	note("%s in build %s", e->name, lib);
	for(t = 0; t < 600; t++)
	{
		uint64_t x = val(r, w), y, z;
		if(e->kind <= 1)
		{
			uint k = e->k >= 0 ? e->k : rn(r, 4) ? rn(r, w) : (rn(r, 2) ? rn(r, 256) : (uint)rnd(r));
			if(w <= 16 && e->k >= 0 && !(n / total % 4)) x = (x & ~1023u) | (t & 1023), x &= (1u << w) - 1;
			z = rol(x, w, e->kind ? (w - k % w) % w : k % w);
			y = ((uint64_t (*)(uint64_t, uint))e->fn)(x, k);
			if(y != z) { viol("rotation", "%s(%#llx, %u) is %#llx and not %#llx in build %s", e->name, (long long)x, k, (long long)y, (long long)z, lib); return; }
			stat_add("rotations", 1);
			continue;
		}
		struct buf p, q;
		uint big = e->kind < 4 || rn(r, 12) ? 0 : rn(r, 30) ? 700 : 66000;
		uint len = big ? rr(r, big * 9 / 10 - rn(r, 600), big) : e->kind >= 4 ? rn(r, 6 * b + 1) : b, from = e->kind == 5 ? rn(r, big && rn(r, 2) ? big : 3 * b) : 0, m = (from + len + b - 1) / b * b, c;
		uint8_t *words = aligned_alloc(8, (m + 15) & ~7u), *want = malloc(m + 1);
		buf_new(r, &p, len);
		rbytes(r, p.p, len);
		int ok = 1;
		if(e->kind == 2)
		{
			for(z = 0, c = 0; c < b; c++) z |= (uint64_t)p.p[at(c, w, e->k)] << 8 * c;
			y = ((uint64_t (*)(const void *))e->fn)(p.p);
			ok = y == z;
		}
		else if(e->kind == 3)
		{
			((void (*)(uint64_t, void *))e->fn)(x, p.p);
			for(c = 0; c < b; c++) ok &= p.p[at(c, w, e->k)] == (uint8_t)(x >> 8 * c);
		}
		else if(e->kind == 4)
		{
			/* into zeroed words, as the library uses it; little endian machine */
			memset(words, 0, m); memset(words + m, 0x5A, 8);
			memset(want, 0, m);
			for(c = 0; c < len; c++) want[at(c, w, e->k)] = p.p[c];
			((void (*)(const void *, void *, uint))e->fn)(p.p, words, len);
			ok = !memcmp(words, want, m);
			for(c = 0; c < 8; c++) ok &= words[m + c] == 0x5A;
		}
		else
		{
			rbytes(r, words, m);
			buf_new(r, &q, m);
			memcpy(q.p, words, m);
			((void (*)(const void *, uint, void *, uint))e->fn)(words, from, p.p, len);
			for(c = 0; c < len; c++) ok &= p.p[c] == words[at(from + c, w, e->k)];
			ok &= !memcmp(q.p, words, m);
			buf_free(&q);
		}
		if(!ok) viol("load-store", "%s, length %u from byte %u, value %#llx, bytes %s: wrong result in build %s", e->name, len, from, (long long)x, hex(p.p, len < 60 ? len : 60), lib);
		if(!buf_ok(&p)) viol("load-store-bounds", "%s, length %u: wrote outside its bytes in build %s", e->name, len, lib);
		stat_add("loads_stores", 1);
		buf_free(&p);
		free(words); free(want);
		if(!ok) return;
	}
	stat_add("helpers_called", 1);
	distinct("%s %s %ld", e->name, lib, n / total);
	sample("%s in build %s: 600 values", e->name, lib);
}
