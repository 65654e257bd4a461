/* The generator built into the library, used where the build names no source of the system.
 * The monitor stands between it and the clock, scrypt and the heap: it sees every seed, so it
 * can compute what must come out. */
#include "ops.h"
#include "alloc.h"
#include <time.h>

static time_t now;
static clock_t ticks;
static int on, lied;
static long seeds, fail_at;
static uint8_t lastkey[64];
static uint lastlen;

time_t __wrap_time(time_t *t) { time_t x = on ? now : time(0); if(t) *t = x; return x; }
clock_t __wrap_clock(void) { return on ? ticks : clock(); }

/* the same function with a small N: the real one takes a gigabyte */
int __wrap_kripto_scrypt(const kripto_desc_mac *mac, uint mr, uint64_t n, uint32_t r, uint32_t p, const void *pass, uint pn, const void *salt, uint sn, void *out, size_t on_)
{
	int x;
	seeds++;
	if(fail_at && seeds == fail_at) { lied = 1; return -1; }
	x = T.scrypt(mac, mr, n > 64 ? 16 : n, r, p, pass, pn, salt, sn, out, on_);
	if(!x && on_ <= sizeof lastkey) { memcpy(lastkey, out, on_); lastlen = on_; }
	return x;
}

#define LIMIT 5242880u
#define AGE 300
#define MAXG 3
struct gen { kripto_random *r; kripto_stream *m; uint64_t since; time_t at; long first; int known; };
#define NSEEN 4096
static uint64_t seen[NSEEN];
static uint nseen;

static void fresh(const uint8_t *p, const char *what)
{
	uint64_t h = hash_bytes(p, 16, 1);
	for(uint i = 0; i < nseen; i++) if(seen[i] == h) { viol("repeated-output", "%s: 16 bytes (%s) were delivered before", what, hex(p, 16)); return; }
	if(nseen < NSEEN) seen[nseen++] = h;
}

static const kripto_desc_stream *chacha(void) { struct descs d = {{0}, 0}; return mk_stream(&T, "chacha", &d); }

static int start(struct gen *g)
{
	long b = seeds;
	memset(g, 0, sizeof *g);
	g->r = T.random_create();
	if(!g->r) return 0;
	g->at = now;
	g->known = seeds > b && lastlen == 32;
	if(g->known)
	{
		mon_pause(1);
		g->m = T.stream_create(chacha(), 0, lastkey, 32, 0, 0);
		mon_pause(0);
	}
	stat_add("generators", 1);
	return 1;
}

static void stop(struct gen *g)
{
	if(g->m) { mon_pause(1); T.stream_destroy(g->m); mon_pause(0); }
	T.random_destroy(g->r);
	memset(g, 0, sizeof *g);
}

/* one request, compared with the model */
static void take(struct rng *r, struct gen *g, uint8_t *out, uint8_t *want, size_t len)
{
	long b = seeds;
	size_t i;
	int due = g->since + len > LIMIT || now - g->at > AGE;

	memset(out, 0xA5, len + 16);
	if(T.random_gen(g->r, out, len) != len) { viol("short-output", "request of %zu bytes was not filled", len); return; }
	for(i = len; i < len + 16; i++) if(out[i] != 0xA5) { viol("out-of-bounds", "request of %zu bytes wrote past its end", len); return; }
	if(seeds > b) { g->since = 0; g->at = now; stat_add("reseeds", 1); }
	else
	{
		g->since += len;
		if(due && g->known) viol("not-reseeded", "request of %zu bytes: %llu bytes and %ld s since the last seed, and no new seed", len, (unsigned long long)g->since, (long)(now - g->at));
	}
	if(g->m)
	{
		mon_pause(1);
		if(seeds > b)
		{
			uint8_t iv[8];
			T.stream_prng(g->m, iv, 8);
			g->m = T.stream_recreate(g->m, 0, lastkey, 32, iv, 8);
		}
		T.stream_prng(g->m, want, len);
		mon_pause(0);
		if(memcmp(out, want, len))
		{
			for(i = 0; out[i] == want[i]; i++);
			viol("random-keystream", "request of %zu bytes (%ld seeds so far): byte %zu is %s, the keystream of the seed has %s", len, seeds, i, hex(out + i, len - i > 16 ? 16 : len - i), hex(want + i, len - i > 16 ? 16 : len - i));
		}
		stat_add("bytes_predicted", len);
	}
	if(len >= 16) fresh(out, "start of a request");
	if(len >= 32) fresh(out + len - 16, "end of a request");
	(void)r;
}

static size_t ask(struct rng *r)
{
	switch(rn(r, 12))
	{
		case 0: return 0;
		case 1: return (1u << 20) + rn(r, 1u << 20);
		case 2: return LIMIT - rn(r, 3);
		case 3: return LIMIT + 1 + rn(r, 3);
		case 4: return rn(r, 100000);
		default: return rn(r, 3) ? rn(r, 300) : rn(r, 5);
	}
}

static void tick(struct rng *r)
{
	switch(rn(r, 7))
	{
		case 3: /* long pauses: a little more or less than hours, days, 2^16 or 2^32 seconds */
		{
			static const uint64_t big[] = {3600, 86400, 604800, 65536, 1u << 31, 1ull << 32};
			now += big[rn(r, 6)] * (1 + rn(r, 3)) + rn(r, 310) - rn(r, 2);
			stat_add("long_pauses", 1);
			break;
		}
		case 0: now += 299 + rn(r, 4); break;
		case 1: now += rn(r, 5000); break;
		case 2: now += rn(r, 3); break;
		default: ;
	}
	if(rn(r, 2)) ticks += rn(r, 100000);
}

void m_soft(struct rng *r, long n)
{
	static uint8_t out[LIMIT + 64], want[LIMIT + 64];
	struct gen g[MAXG];
	const char *e;
	uint i, k = 0, ng = rr(r, 1, MAXG), ops = rr(r, 3, 25), hash = 0, asked = ops;

	now = 1000000000 + rn(r, 100000000); ticks = rn(r, 1000000);
	seeds = fail_at = 0; nseen = 0; lied = 0; on = 1;
	note("%u generators, %u requests", ng, ops);
	mon_start();
	if(n % 4)
	{
		for(i = 0; i < ng; i++) if(!start(g + i)) { viol("api-null", "random_create failed"); goto end; }
		while(ops--)
		{
			i = rn(r, ng);
			tick(r);
			take(r, g + i, out, want, ask(r));
			hash = hash * 31 + out[0] + now;
		}
		for(i = 0; i < ng; i++) stop(g + i);
		stat_add("histories", 1);
	}
	else
	{
		/* creation fails at every allocation and at every seed in turn */
		long at;
		for(k = 0; k < 3; k++) for(at = 1; at < 60; at++)
		{
			long live = mon_live(), a0 = mon_allocs();
			lied = 0;
			mon_start();
			if(k < 2) mon_fail(at, k); else { seeds = 0; fail_at = at; }
			memset(g, 0, sizeof *g);
			g->r = T.random_create();
			if(g->r && (mon_failed() || lied)) viol("failure-ignored", "random_create succeeded although %s %ld failed", k < 2 ? "allocation" : "seeding", at);
			int hit = mon_failed() || lied;
			mon_fail(0, 0); fail_at = 0;
			if(g->r) T.random_destroy(g->r);
			if(mon_live()) viol("leak", "%ld blocks are left after random_create with %s %ld failing%s", mon_live(), k < 2 ? "allocation" : "seeding", at, hit ? "" : " (not reached)");
			if((e = mon_check())) viol("heap", "%s (random_create, failure %ld)", e, at);
			(void)live; (void)a0;
			if(!hit) break;
			stat_add("failures_of_create", 1);
		}
		/* and the new seed of a generator in use */
		for(k = 0; k < 3; k++) for(at = 1; at < 60; at++)
		{
			size_t got, len = rr(r, 1, 300);
			mon_start();
			lied = 0; seeds = 0;
			if(!start(g)) { viol("api-null", "random_create failed"); break; }
			take(r, g, out, want, rn(r, 500));
			if(g->m) { mon_pause(1); T.stream_destroy(g->m); mon_pause(0); g->m = 0; }
			now += AGE + 1 + rn(r, 5);
			if(k < 2) mon_fail(mon_allocs() + at, k); else fail_at = seeds + at;
			got = T.random_gen(g->r, out, len);
			int hit = mon_failed() || lied;
			mon_fail(0, 0); fail_at = 0;
			if(hit && got) viol("failure-ignored", "%zu bytes were delivered although the new seed failed at %s %ld", got, k < 2 ? "allocation" : "seeding", at);
			if(!hit && got != len) viol("short-output", "request of %zu bytes was not filled", len);
			/* memory is back: the generator works again, and is destroyed like any other */
			if((e = mon_check())) { viol("heap", "%s (random_gen, failure %ld)", e, at); break; }
			got = T.random_gen(g->r, out, len);
			if(got != len) { viol("no-retry", "after a failed seed a request of %zu bytes gives %zu", len, got); break; }
			if(len >= 16) fresh(out, "after a failed seed");
			hash = hash * 31 + out[0];
			T.random_destroy(g->r);
			if(mon_live()) viol("leak", "%ld blocks are left of a generator whose new seed failed at %s %ld", mon_live(), k < 2 ? "allocation" : "seeding", at);
			if((e = mon_check())) viol("heap", "%s (failure %ld)", e, at);
			if(!hit) break;
			stat_add("failures_of_reseeding", 1);
		}
	}
	if(mon_live()) viol("leak", "%ld blocks are left after all generators were destroyed (%ld seeds)", mon_live(), seeds);
	if((e = mon_check())) viol("heap", "%s", e);
	distinct("%u generators %u requests %u", ng, asked, hash);
	sample("%u generators, %ld seeds", ng, seeds);
end:
	mon_stop();
	on = 0;
}
