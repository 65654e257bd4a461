/* Positions no run can reach: the position counter of an object is found in its memory
 * by watching it count, set close below 2^32, and the crossing is compared with the
 * reference, whose counter is found and set in the same way. Objects whose counter is not
 * found, or which do not agree with the reference after small steps of it, are left out. */
#include "ops.h"
#include <malloc.h>

#define STEP 262144	/* bytes per step: so many that no index into a buffer grows as fast as a counter */
#define MIND 1024
#define SNAPS 6
struct far { const struct api *a; struct obj o; uint32_t off[32]; uint64_t d[32]; int nc; };

static void step(struct far *f, const uint8_t *msg, uint8_t *out)
{
	switch(f->o.p.kind)
	{
		case K_STREAM: f->a->stream_prng(f->o.h, out, STEP); break;
		case K_HASH: f->a->hash_input(f->o.h, msg, STEP); break;
		case K_MAC: f->a->mac_input(f->o.h, msg, STEP); break;
	}
}

/* 1 when at least one counter was found; the object is fresh afterwards but for SNAPS steps */
static int find(struct far *f, const uint8_t *msg, uint8_t *out)
{
	size_t n = malloc_usable_size(f->o.h), i, k;
	uint8_t *s = malloc(n * SNAPS);
	step(f, msg, out);
	for(k = 0; k < SNAPS; k++) { step(f, msg, out); memcpy(s + n * k, f->o.h, n); }
	f->nc = 0;
	for(i = 0; i + 8 <= n && f->nc < 32; i += 4)
	{
		uint64_t v[SNAPS];
		for(k = 0; k < SNAPS; k++) memcpy(v + k, s + n * k + i, 8);
		uint64_t d = v[1] - v[0];
		if(d < MIND || d > 8 * STEP || v[0] > (1u << 24)) continue;
		for(k = 2; k < SNAPS && v[k] - v[k - 1] == d; k++);
		if(k == SNAPS) { f->off[f->nc] = i; f->d[f->nc] = d; f->nc++; }
	}
	free(s);
	return f->nc;
}

/* move every counter on by s steps' worth (low 32 bits only, when they do not overflow) */
static int move(struct far *f, uint32_t s)
{
	for(int i = 0; i < f->nc; i++)
	{
		uint32_t v;
		uint64_t w;
		memcpy(&v, (uint8_t *)f->o.h + f->off[i], 4);
		w = v + s * f->d[i];
		if(w > UINT32_MAX) return 0;
		v = w;
		memcpy((uint8_t *)f->o.h + f->off[i], &v, 4);
	}
	return 1;
}

/* how many steps bring the first counter just below 2^32 */
static uint32_t room(const struct far *f, int c)
{
	uint32_t v;
	memcpy(&v, (uint8_t *)f->o.h + f->off[c], 4);
	return (UINT32_MAX - v) / f->d[c];
}

/* bytes of input until the c-th counter reaches 2^32 */
static uint64_t until(const struct far *f, int c)
{
	uint32_t v;
	memcpy(&v, (uint8_t *)f->o.h + f->off[c], 4);
	return ((1ull << 32) - v) * STEP / f->d[c];
}

static int end(struct far *f, const uint8_t *msg, const uint32_t *cut, uint32_t tot, uint8_t *out)
{
	uint32_t p = 0, i;
	for(i = 0; p < tot; i++)
	{
		uint32_t n = cut[i & 7] < tot - p ? cut[i & 7] : tot - p;
		if(f->o.p.kind == K_STREAM) f->a->stream_encrypt(f->o.h, msg + p, out + p, n);
		else if(f->o.p.kind == K_HASH) f->a->hash_input(f->o.h, msg + p, n);
		else f->a->mac_input(f->o.h, msg + p, n);
		p += n;
	}
	if(f->o.p.kind == K_HASH) f->a->hash_output(f->o.h, out, f->o.p.outlen);
	if(f->o.p.kind == K_MAC) f->a->mac_tag(f->o.h, out, f->o.p.outlen);
	return f->o.p.kind == K_STREAM ? tot : f->o.p.outlen;
}

static void go(struct rng *r, int kind, long n)
{
	static uint8_t msg[2 * STEP], x[2 * STEP], y[2 * STEP];
	struct par p;
	struct far t, g;
	uint32_t cut[8], i, moves[3], tot = 2 * STEP, most = 0;
	int c, len, last = kind == K_STREAM ? 3 : 10;

	do
	{
		par_pick(r, &p, kind);
		if(kind == K_STREAM) snprintf(p.spec, sizeof p.spec, "%s", STREAMS[n % NSTREAMS].name);
	}
	while((kind == K_HASH && p.h != HASHES + n % NHASHES) || (kind == K_STREAM && (strchr(p.s.name, '(') || strcmp(p.s.name, p.spec))) || (kind == K_MAC && strchr(p.spec, '(')));
	note("%s", par_str(&p));
	memset(&t, 0, sizeof t); memset(&g, 0, sizeof g);
	t.a = &T; g.a = &G;
	rbytes(r, msg, sizeof msg);
	for(i = 0; i < 8; i++) cut[i] = rn(r, 2) ? 1 + rn(r, 200) : 1 + rn(r, STEP / 4);
	/* pass 0: how far can it go; 1: a small move, 2: a larger one, 3 and on: to 2^32 */
	for(int pass = 0; pass <= last; pass++)
	{
		obj_desc(&T, &t.o, &p); obj_desc(&G, &g.o, &p);
		MUST(obj_create(&t.o)); MUST(obj_create(&g.o));
		if(!find(&t, msg, x) || !find(&g, msg, y)) { stat_add("no_counter_found", 1); goto out; }
		c = rn(r, g.nc);
		if(pass == 0)
		{
			most = room(&g, 0);
			for(c = 1; c < g.nc; c++) if(room(&g, c) < most) most = room(&g, c);
			if(t.nc != g.nc || most < 64) { stat_add("counters_differ", 1); goto out; }
			uint32_t tm = room(&t, 0);
			for(c = 1; c < t.nc; c++) if(room(&t, c) < tm) tm = room(&t, c);
			if(tm != most) { stat_add("counters_differ", 1); goto out; }
			moves[0] = 1 + rn(r, 20); moves[1] = most / 2; moves[2] = most - rn(r, 2);
			obj_close(&t.o); obj_close(&g.o);
			continue;
		}
		if(pass > 3)
		{
			/* close enough for the message to end there */
			moves[2] = most;
			for(int j = 0; j < g.nc; j++) if(moves[2] == most && until(&g, j) - (uint64_t)most * STEP <= 512) moves[2]--;
		}
		if(!move(&t, moves[pass > 3 ? 2 : pass - 1]) || !move(&g, moves[pass > 3 ? 2 : pass - 1])) { stat_add("counters_differ", 1); goto out; }
		if(kind == K_STREAM) { step(&t, msg, x); step(&g, msg, y); }
		memset(x, 1, sizeof x); memset(y, 1, sizeof y);
		tot = 2 * STEP;
		if(pass > 3)
		{
			/* the message ends around the crossing; the counter may lag by a buffered block */
			uint64_t u = UINT64_MAX;
			for(int j = 0; j < g.nc; j++) if(until(&g, j) < u) u = until(&g, j);
			int d = pass == 4 ? 0 : pass < 8 ? -(16 << (pass - 4)) : pass < 10 ? -(int)rr(r, 1, 128) : (int)rn(r, 401) - 200;
			if(u > 512 && u + 200 < 2 * STEP) { tot = u + d; stat_add("ends_at_crossing", 1); }
		}
		len = end(&t, msg, cut, tot, x);
		end(&g, msg, cut, tot, y);
		obj_close(&t.o); obj_close(&g.o);
		if(memcmp(x, y, len))
		{
			if(pass < 3) { stat_add("not_comparable", 1); return; }	/* not the counter after all */
			for(i = 0; x[i] == y[i]; i++);
			viol("far-position", "%s: after 2^32 %s (position moved by %u steps) byte %u of the output is %s, reference %s", par_str(&p), kind == K_STREAM ? "units of keystream" : "units of input",
				moves[2], i, hex(x + i, 8), hex(y + i, 8));
			return;
		}
	}
	stat_add("crossings_of_2^32", 1);
	stat_add("bytes_compared", len);
	distinct("%s rounds=%u key_len=%u iv_len=%u key=%s moved %u", p.spec, p.rounds, p.klen, p.ivlen, hex(p.key, p.klen > 16 ? 16 : p.klen), moves[2]);
	sample("%s rounds=%u key_len=%u iv_len=%u: position counter moved by %u steps of %d bytes, up to the crossing of 2^32", p.spec, p.rounds, p.klen, p.ivlen, moves[2], STEP);
	return;
out:	obj_close(&t.o); obj_close(&g.o);
}

void m_streamfar(struct rng *r, long n) { go(r, K_STREAM, n); }
void m_hashfar(struct rng *r, long n) { go(r, K_HASH, n); }
void m_macfar(struct rng *r, long n) { go(r, K_MAC, n); }
