/* Heap monitor: allocation failures, leaks, invalid frees, writes after free,
 * and secrets left in freed memory. */
#define _GNU_SOURCE
#include "ops.h"
#include "alloc.h"
#include <sys/mman.h>

#define ARENA (64u << 20)
#define MAXB 65536
static uint8_t *arena;
static size_t used;
static int on;
static struct { uint8_t *p; size_t n; int freed; uint8_t *snap; } blk[MAXB];
static long nblk, live, nalloc, nfree, fail_at, nfail;
static int persistent;
static char err[300];

static int mine(const void *p) { return arena && (const uint8_t *)p >= arena && (const uint8_t *)p < arena + ARENA; }

static void *arena_get(size_t n)
{
	size_t need = ((n + 15) & ~(size_t)15) + 48;
	nalloc++;
	if(fail_at && (nalloc == fail_at || (persistent && nalloc > fail_at))) { nfail++; return 0; }
	if(n > ARENA || used + need > ARENA) return 0;
	if(nblk == MAXB) { fprintf(stderr, "too many blocks\n"); exit(3); }
	uint8_t *p = arena + used + 16;
	memset(arena + used, 0xA7, 16);
	memset(p, 0xCD, n);
	memset(p + n, 0x7A, need - n - 16);
	blk[nblk].p = p; blk[nblk].n = n; blk[nblk].freed = 0; blk[nblk].snap = 0;
	nblk++; live++;
	used += need;
	return p;
}

static int edges(const uint8_t *p, size_t n)
{
	size_t i, need = ((n + 15) & ~(size_t)15) + 48;
	for(i = 0; i < 16; i++) if(p[-16 + (long)i] != 0xA7) return 0;
	for(i = n; i < need - 16; i++) if(p[i] != 0x7A) return 0;
	return 1;
}

void *kv_malloc(size_t n) { return on ? arena_get(n) : malloc(n); }

void *kv_calloc(size_t a, size_t b)
{
	if(!on) return calloc(a, b);
	if(b && a > SIZE_MAX / b) return 0;
	void *p = arena_get(a * b);
	if(p) memset(p, 0, a * b);
	return p;
}

void kv_free(void *p)
{
	long i;
	if(!p) return;
	if(!mine(p)) { free(p); return; }
	for(i = nblk; i--;) if(blk[i].p == p) break;
	if(i < 0) { if(!*err) snprintf(err, sizeof err, "free of a pointer that was never allocated"); return; }
	if(blk[i].freed) { if(!*err) snprintf(err, sizeof err, "double free of a %zu byte block", blk[i].n); return; }
	if(!edges(blk[i].p, blk[i].n) && !*err) snprintf(err, sizeof err, "write outside a %zu byte block", blk[i].n);
	blk[i].freed = ++nfree;
	blk[i].snap = malloc(blk[i].n + 1);
	memcpy(blk[i].snap, p, blk[i].n);
	memset(p, 0xDD, blk[i].n);
	live--;
}

void *kv_realloc(void *p, size_t n)
{
	long i;
	void *q;
	if(!p) return kv_malloc(n);
	if(!mine(p)) return realloc(p, n);
	for(i = nblk; i--;) if(blk[i].p == p) break;
	if(i < 0 || blk[i].freed) { snprintf(err, sizeof err, "realloc of a block that is not live"); return 0; }
	q = arena_get(n);
	if(!q) return 0;
	memcpy(q, p, n < blk[i].n ? n : blk[i].n);
	kv_free(p);
	return q;
}

void *__wrap_malloc(size_t n) { return kv_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return kv_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return kv_realloc(p, n); }
void __wrap_free(void *p) { kv_free(p); }
void *__wrap_aligned_alloc(size_t a, size_t n) { (void)a; if(on && a > 16) { uint8_t *p = arena_get(n + a); return p; } return on ? arena_get(n) : aligned_alloc(a, n); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { (void)a; *o = kv_malloc(n); return *o ? 0 : 12; }
char *__wrap_strdup(const char *s) { char *p = kv_malloc(strlen(s) + 1); if(p) strcpy(p, s); return p; }

void mon_start(void)
{
	long i;
	if(!arena)
	{
		arena = mmap((void *)0x200000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(arena == MAP_FAILED) exit(3);
	}
	for(i = 0; i < nblk; i++) free(blk[i].snap);
	used = 0; nblk = live = nalloc = nfree = fail_at = nfail = 0; persistent = 0;
	*err = 0;
	on = 1;
}
void mon_stop(void) { on = 0; }
void mon_pause(int p) { on = !p; }
long mon_live(void) { return live; }
long mon_allocs(void) { return nalloc; }
long mon_frees(void) { return nfree; }
void mon_fail(long at, int p) { fail_at = at; persistent = p; }
int mon_failed(void) { return nfail > 0; }
const char *mon_check(void)
{
	long i;
	size_t k;
	if(*err) return err;
	for(i = 0; i < nblk; i++)
	{
		if(!edges(blk[i].p, blk[i].n)) { snprintf(err, sizeof err, "write outside a %zu byte block", blk[i].n); return err; }
		if(blk[i].freed) for(k = 0; k < blk[i].n; k++) if(blk[i].p[k] != 0xDD) { snprintf(err, sizeof err, "write to freed memory (%zu byte block, byte %zu)", blk[i].n, k); return err; }
	}
	return 0;
}

/* ---- scenarios ---- */
struct scen { struct par p, q[3]; int nre, ops[4]; uint64_t seed[4]; int oneshot; size_t len; uint sl, iter, N, R, P; size_t ol; };

static void scen_pick(struct rng *r, struct scen *s, long n)
{
	int i;
	memset(s, 0, sizeof *s);
	par_pick(r, &s->p, n % NKIND);
	s->nre = rn(r, 3);
	for(i = 0; i < s->nre; i++) { s->q[i] = i ? s->q[i - 1] : s->p; par_vary(r, &s->q[i]); }
	for(i = 0; i < 4; i++) { s->seed[i] = rnd(r); s->ops[i] = rn(r, 6); }
	if(rn(r, 3) == 0)
	{
		if(s->p.kind == K_HASH) s->oneshot = 1;
		if(s->p.kind == K_MAC) s->oneshot = 2 + rn(r, 3);
	}
	s->len = pick_len(r, 64);
	s->sl = rn(r, 40); s->iter = rr(r, 1, 3); s->N = 1u << rn(r, 4); s->R = rr(r, 1, 3); s->P = rr(r, 1, 3); s->ol = rr(r, 1, 200);
}

/* other secrets, same shape */
static void scen_secrets(struct scen *s, uint64_t k)
{
	struct rng r;
	int i;
	rng_seed(&r, k);
	if(s->p.kind == K_HASH) return;
	for(i = 0; i < (int)s->p.klen; i++) s->p.key[i] ^= 1 + rn(&r, 255);
	for(int j = 0; j < s->nre; j++) for(i = 0; i < (int)s->q[j].klen; i++) s->q[j].key[i] ^= 1 + rn(&r, 255);
}

static const char *scen_str(const struct scen *s)
{
	static char b[2600];
	static const char *const os[] = {"", " hash_all", " mac_all", " pbkdf2", " scrypt"};
	snprintf(b, sizeof b, "%s%s%s", par_str(&s->p), s->nre ? " then recreate" : "", os[s->oneshot]);
	return b;
}

/* 0 completed, 1 a call reported failure (and the object is gone) */
static int scen_run(const struct scen *s, const struct obj *desc, struct tr *t)
{
	struct obj o = *desc;
	int i, res;
	if(s->oneshot)
	{
		uint8_t *in = malloc(s->len + 1), *out = malloc(1200), *salt = malloc(s->sl + 1);
		struct rng r;
		size_t on_ = s->oneshot < 3 ? s->p.outlen : s->ol;
		rng_seed(&r, s->seed[0] ^ ops_salt);
		rbytes(&r, in, s->len);
		rng_seed(&r, s->seed[1]);
		rbytes(&r, salt, s->sl);
		memset(out, 0x11, 1200);
		switch(s->oneshot)
		{
			case 1: res = T.hash_all(o.desc, s->p.rounds, s->p.iv, s->p.ivlen, in, s->len, out, on_); break;
			case 2: res = T.mac_all(o.desc, s->p.rounds, s->p.key, s->p.klen, in, s->len, out, on_); break;
			case 3: res = T.pbkdf2(o.desc, s->p.rounds, s->iter, s->p.key, s->p.klen, salt, s->sl, out, on_); break;
			default: res = T.scrypt(o.desc, s->p.rounds, s->N, s->R, s->P, s->p.key, s->p.klen, salt, s->sl, out, on_);
		}
		if(!res) tr_add(t, out, on_);
		free(in); free(out); free(salt);
		return res != 0;
	}
	if(!obj_create(&o)) return 1;
	obj_ops(&o, s->seed[0], s->ops[0], t);
	for(i = 0; i < s->nre; i++)
	{
		if(!obj_recreate(&o, &s->q[i])) return 1;
		obj_ops(&o, s->seed[i + 1], s->ops[i + 1], t);
	}
	obj_end(&o);
	return 0;
}

/* ---- nothing leaks, nothing is freed twice or used after free ---- */
void m_leak(struct rng *r, long n)
{
	struct scen s;
	struct obj d;
	struct tr a;
	const char *e;

	scen_pick(r, &s, n);
	note("%s", scen_str(&s));
	tr_init(&a, 0);
	mon_start();
	obj_desc(&T, &d, &s.p);
	long base = mon_live();
	if(scen_run(&s, &d, &a)) viol("api-null", "%s failed without a fault", scen_str(&s));
	if((e = mon_check())) viol("heap", "%s: %s", scen_str(&s), e);
	else if(mon_live() != base) viol("leak", "%s: %ld blocks still allocated after everything was destroyed", scen_str(&s), mon_live() - base);
	/* recreating again and again must not grow */
	if(!s.oneshot && n % 4 == 0)
	{
		struct obj o = d;
		long l0 = 0;
		MUST(obj_create(&o));
		for(int i = 0; i < 12; i++)
		{
			struct par p = i & 1 ? s.p : s.nre ? s.q[0] : s.p;
			MUST(obj_recreate(&o, &p));
			if(i == 1) l0 = mon_live();
			else if(i > 1 && mon_live() > l0) { viol("leak", "%s: live blocks grow from %ld to %ld while recreating", scen_str(&s), l0, mon_live()); break; }
		}
		obj_end(&o);
		if(mon_live() != base) viol("leak", "%s: %ld blocks left after repeated recreate and destroy", scen_str(&s), mon_live() - base);
		stat_add("recreate_loops", 1);
	}
	stat_add("allocations", mon_allocs());
	stat_add("frees_checked", mon_frees());
	obj_close(&d);
	if(mon_live()) viol("leak", "%s: descriptors leave %ld blocks", scen_str(&s), mon_live());
	if((e = mon_check())) viol("heap", "%s: %s", scen_str(&s), e);
	mon_stop();
	distinct("%s re=%d oneshot=%d rounds=%u key_len=%u iv_len=%u out_len=%u t=%llx", s.p.spec, s.nre, s.oneshot, s.p.rounds, s.p.klen, s.p.ivlen, s.p.outlen, (unsigned long long)a.h);
}

/* ---- every allocation may fail ---- */
static int snap_diff(long na, struct fsnap *a, long nb, struct fsnap *b, const char **why)
{
	static char w[300];
	*why = w;
	if(na != nb) { snprintf(w, sizeof w, "%ld against %ld blocks freed", na, nb); return 2; }
	for(long i = 0; i < na; i++)
	{
		if(a[i].n != b[i].n) { snprintf(w, sizeof w, "block %ld has %zu against %zu bytes", i, a[i].n, b[i].n); return 2; }
		size_t d = 0, first = 0;
		for(size_t k = 0; k < a[i].n; k++) if(a[i].p[k] != b[i].p[k]) { if(!d) first = k; d++; }
		if(d) { snprintf(w, sizeof w, "%zu of the %zu bytes of a freed block (from byte %zu) depend on the key or message", d, a[i].n, first); return 1; }
	}
	return 0;
}

static long grab(struct fsnap **v)
{
	long k = 0, f;
	*v = calloc(nfree + 1, sizeof **v);
	for(f = 1; f <= nfree; f++)
		for(long i = 0; i < nblk; i++) if(blk[i].freed == f)
		{
			(*v)[k].n = blk[i].n;
			(*v)[k].p = malloc(blk[i].n + 1);
			memcpy((*v)[k].p, blk[i].snap, blk[i].n);
			k++;
		}
	return k;
}
static void ungrab(long n, struct fsnap *v) { while(n--) free(v[n].p); free(v); }

void m_oom(struct rng *r, long n)
{
	struct scen s;
	struct obj d;
	struct tr ok, t;
	const char *e;
	long total, at;
	int pers;

	scen_pick(r, &s, n);
	note("%s", scen_str(&s));
	obj_desc(&T, &d, &s.p);
	tr_init(&ok, 0);
	mon_start();
	if(scen_run(&s, &d, &ok)) { viol("api-null", "%s failed without a fault", scen_str(&s)); return; }
	total = mon_allocs();
	mon_stop();
	for(pers = 0; pers < 2; pers++) for(at = 1; at <= total && at <= 40; at++)
	{
		if(at > 12 && rn(r, 3)) continue;
		note("%s, allocation %ld of %ld %s", scen_str(&s), at, total, pers ? "and all later ones fail" : "fails");
		tr_init(&t, 0);
		mon_start();
		mon_fail(at, pers);
		int res = scen_run(&s, &d, &t);
		int failed = mon_failed();
		if((e = mon_check())) viol("oom-heap", "%s: allocation %ld of %ld fails: %s", scen_str(&s), at, total, e);
		if(mon_live()) viol("oom-leak", "%s: allocation %ld of %ld fails: %ld blocks are lost", scen_str(&s), at, total, mon_live());
		if(!res && !(ok.h == t.h && ok.n == t.n)) viol("oom-result", "%s: allocation %ld of %ld fails: success is reported but the output is wrong", scen_str(&s), at, total);
		if(res && !failed) viol("oom-result", "%s: failure reported without a failed allocation", scen_str(&s));
		mon_stop();
		stat_add("injected_failures", failed);
		stat_add(res ? "failures_reported" : "failures_absorbed", failed);
		distinct("%s oneshot=%d re=%d alloc=%ld/%ld pers=%d", s.p.spec, s.oneshot, s.nre, at, total, pers);
	}
	free_descs(&d.d);
	/* descriptor constructors */
	mon_start();
	static const char *const cs[] = {"cbc(aes)", "cfb(aes)", "ctr(aes)", "ecb(aes)", "ofb(aes)"};
	(void)cs;
	const kripto_desc_block *b = mk_block(&T, "aes", &d.d);
	const kripto_desc_hash *h = mk_hash(&T, "sha1");
	mon_fail(1, 1);
	void *x[] = {T.stream_cbc(b), T.stream_cfb(b), T.stream_ctr(b), T.stream_ecb(b), T.stream_ofb(b), T.mac_hmac(h), T.mac_omac(b), T.mac_xcbc(b),
		T.ae_eax(b), T.block_gost_cbr(), T.block_gost_r34_12_2015()};
	for(uint i = 0; i < sizeof x / sizeof *x; i++) if(x[i] && mine(x[i])) viol("oom-result", "a descriptor came out of a failed allocation");
	mon_stop();
}

/* ---- freed memory holds nothing that depends on keys or messages ---- */
static void __attribute__((noinline)) wipe_pair(const struct scen *s, const struct obj *d, long at, uint64_t k)
{
	struct scen s2 = *s;
	struct fsnap *a, *b;
	struct tr t;
	long na, nb;
	const char *why;
	scen_secrets(&s2, k);
	tr_init(&t, 0);
	mon_start();
	mon_fail(at, 0);
	ops_salt = 0;
	int r1 = scen_run(s, d, &t);
	na = grab(&a);
	mon_start();
	mon_fail(at, 0);
	ops_salt = k | 1;
	int r2 = scen_run(&s2, d, &t);
	nb = grab(&b);
	ops_salt = 0;
	mon_stop();
	if(r1 == r2)
	{
		int q = snap_diff(na, a, nb, b, &why);
		if(q == 1) viol(at ? "wipe-on-failure" : "wipe", "%s%s: %s", scen_str(s), at ? " with a failed allocation" : "", why);
		else if(q == 2) stat_add("incomparable_runs", 1);
		else { stat_add("freed_blocks_compared", na); for(long i = 0; i < na; i++) stat_add("freed_bytes_compared", a[i].n); }
	}
	else stat_add("incomparable_runs", 1);
	ungrab(na, a); ungrab(nb, b);
}

void m_wipe(struct rng *r, long n)
{
	struct scen s;
	struct obj d;
	struct tr t;
	long total;

	scen_pick(r, &s, n);
	note("%s", scen_str(&s));
	obj_desc(&T, &d, &s.p);
	ops_inplace = 0;
	tr_init(&t, 0);
	mon_start();
	scen_run(&s, &d, &t);
	total = mon_allocs();
	mon_stop();
	wipe_pair(&s, &d, 0, rnd(r));
	stat_add("scenarios", 1);
	if(rn(r, 2) && total > 1)
	{
		wipe_pair(&s, &d, 1 + rn(r, total), rnd(r));
		stat_add("failure_scenarios", 1);
	}
	distinct("%s re=%d oneshot=%d rounds=%u key_len=%u iv_len=%u out_len=%u t=%llx", s.p.spec, s.nre, s.oneshot, s.p.rounds, s.p.klen, s.p.ivlen, s.p.outlen, (unsigned long long)t.h);
	free_descs(&d.d);
}

#include "m_pure.inc"
