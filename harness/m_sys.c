/* Properties of whole objects, on random operation scenarios (ops.c). */
#include "ops.h"
#include <sched.h>
#include <sys/stat.h>
#include <pthread.h>
#include <malloc.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <fcntl.h>

static void diff(const char *key, const struct par *p, const struct tr *a, const struct tr *b, const char *what)
{
	size_t i = 0;
	if(a->n != b->n) { viol(key, "%s: %s: %zu bytes of output against %zu", par_str(p), what, a->n, b->n); return; }
	if(a->log && b->log) while(i < a->n && a->log[i] == b->log[i]) i++;
	viol(key, "%s: %s: outputs differ from byte %zu of %zu", par_str(p), what, i, a->n);
}

static int same(const struct tr *a, const struct tr *b) { return a->h == b->h && a->n == b->n; }

/* ---- recreate leaves nothing of the past ---- */
void m_recreate(struct rng *r, long n)
{
	struct par p, hist;
	struct obj f, o;
	struct tr a, b;
	uint64_t s = rnd(r);
	int i, k = rr(r, 1, 4), ops = rr(r, 1, 8);
	char trail[600] = "";

	par_pick(r, &p, n % NKIND);
	/* the history */
	hist = p;
	par_vary(r, &hist);
	note("history %s", par_str(&hist));
	obj_desc(&T, &o, &hist);
	MUST(obj_create(&o));
	for(i = 0; i < k; i++)
	{
		struct tr junk;
		tr_init(&junk, 0);
		snprintf(trail + strlen(trail), sizeof trail - strlen(trail), " -> rounds=%u key_len=%u iv_len=%u out_len=%u", hist.rounds, hist.klen, hist.ivlen, hist.outlen);
		obj_ops(&o, rnd(r), rn(r, 7), &junk);
		if(i < k - 1) { par_vary(r, &hist); note("history %s", par_str(&hist)); MUST(obj_recreate(&o, &hist)); }
	}
	if(rn(r, 3)) par_vary(r, &p);
	note("final %s", par_str(&p));
	MUST(obj_recreate(&o, &p));
	obj_desc(&T, &f, &p);
	MUST(obj_create(&f));
	if(o.p.kind == K_STREAM && T.stream_multof(o.h) != T.stream_multof(f.h)) viol("recreate-multof", "%s", par_str(&p));
	if(o.p.kind == K_AE && T.ae_multof(o.h) != T.ae_multof(f.h)) viol("recreate-multof", "%s", par_str(&p));
	const void *d = p.kind == K_BLOCK ? (const void *)T.block_getdesc(o.h) : p.kind == K_STREAM ? (const void *)T.stream_getdesc(o.h) :
		p.kind == K_HASH ? (const void *)T.hash_getdesc(o.h) : p.kind == K_MAC ? (const void *)T.mac_getdesc(o.h) : (const void *)T.ae_getdesc(o.h);
	if(d != o.desc) viol("recreate-desc", "%s: getdesc after recreate is not the descriptor of the object", par_str(&p));
	tr_init(&a, 1); tr_init(&b, 1);
	obj_ops(&f, s, ops, &a);
	obj_ops(&o, s, ops, &b);
	if(!same(&a, &b))
	{
		char w[800];
		snprintf(w, sizeof w, "recreated object (history%s) against fresh one", trail);
		diff("recreate", &p, &a, &b, w);
	}
	stat_add("recreates", k);
	stat_add("bytes_compared", a.n);
	distinct("%s final rounds=%u key_len=%u iv_len=%u out_len=%u history%s", p.spec, p.rounds, p.klen, p.ivlen, p.outlen, trail);
	tr_free(&a); tr_free(&b);
	obj_close(&o); obj_close(&f);
}

/* ---- arbitrary lifetimes; used under the memory-error sanitizers ---- */
void m_life(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct tr t;
	int i, k = 1 + rn(r, 4);

	par_pick(r, &p, n % NKIND);
	note("%s", par_str(&p));
	obj_desc(&T, &o, &p);
	MUST(obj_create(&o));
	tr_init(&t, 0);
	for(i = 0; i < k; i++)
	{
		obj_ops(&o, rnd(r), rn(r, 8), &t);
		if(i < k - 1)
		{
			par_vary(r, &p);
			note("%s", par_str(&p));
			MUST(obj_recreate(&o, &p));
		}
	}
	stat_add("lifetimes", 1);
	stat_add("output_bytes", t.n);
	distinct("%s rounds=%u key_len=%u iv_len=%u out_len=%u k=%d t=%llx", p.spec, p.rounds, p.klen, p.ivlen, p.outlen, k, (unsigned long long)t.h);
	obj_close(&o);
}

/* one-call functions, same purpose */
void m_oneshot(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct buf in, out;
	size_t len = pick_len(r, 64);
	int res;

	par_pick(r, &p, n & 1 ? K_HASH : K_MAC);
	note("%s len=%zu", par_str(&p), len);
	obj_desc(&T, &o, &p);
	buf_new(r, &in, len);
	buf_new(r, &out, p.outlen);
	rdata(r, in.p, len);
	if(p.kind == K_HASH) res = T.hash_all(o.desc, p.rounds, p.iv, p.ivlen, in.p, len, out.p, p.outlen);
	else res = T.mac_all(o.desc, p.rounds, p.key, p.klen, in.p, len, out.p, p.outlen);
	if(res) viol("oneshot-failed", "%s", par_str(&p));
	if(!buf_ok(&out) || !buf_ok(&in)) viol("out-of-bounds", "%s: one-call function wrote outside its output", par_str(&p));
	if(ops_out) ops_out(out.p, p.outlen);
	stat_add("one_shot_calls", 1);
	distinct("%s rounds=%u key_len=%u salt_len=%u out_len=%u len=%zu", p.spec, p.rounds, p.klen, p.ivlen, p.outlen, len);
	buf_free(&in); buf_free(&out);
	obj_close(&o);
}

struct job { struct par p; uint64_t seed; int ops; struct obj *o; struct tr t; pthread_barrier_t *bar; int fail; int mode, own; const void *blk; };

/* functions that make and discard what they need */
static void job_calls(struct job *j)
{
	struct rng r;
	rng_seed(&r, j->seed);
	for(int i = 0; i < 2 + j->ops; i++)
	{
		struct par p;
		struct obj o;
		uint8_t in[600], out[600], salt[40];
		uint n = rn(&r, sizeof in), k = rn(&r, 40), op = rn(&r, 7), x = 0;

		par_pick(&r, &p, op == 0 ? K_HASH : K_MAC);
		rbytes(&r, in, sizeof in); rbytes(&r, salt, sizeof salt);
		memset(out, 0, sizeof out);
		obj_desc(&T, &o, &p);
		switch(op)
		{
			case 0: x = T.hash_all(o.desc, p.rounds, p.iv, p.ivlen, in, n, out, p.outlen); break;
			case 1: case 2: x = T.mac_all(o.desc, p.rounds, p.key, p.klen, in, n, out, p.outlen); break;
			case 3: x = T.pbkdf2(o.desc, p.rounds, 1 + rn(&r, 5), p.key, p.klen, salt, k, out, 1 + rn(&r, 300)); break;
			case 4: x = T.scrypt(o.desc, p.rounds, 4, 1 + rn(&r, 3), 1 + rn(&r, 2), p.key, p.klen, salt, k, out, 1 + rn(&r, 300)); break;
			case 5:
			{
				size_t l = rn(&r, 255), m;
				memcpy(out, in, l);
				m = T.pkcs7_add(out, l, 1 + rn(&r, 255), sizeof out);
				x = T.pkcs7_rem(out, m) != l;
				break;
			}
			case 6:
				memcpy(out, in, n);
				x = T.memory_equals(in, out, n) != 1;
				T.memory_wipe(out, k);
				break;
		}
		if(x) j->fail = 1;
		tr_add(&j->t, out, sizeof out);
		obj_close(&o);
	}
}

/* ---- interleaved objects do not influence each other ---- */
#define MAXO 6
void m_interleave(struct rng *r, long n)
{
	struct par p[MAXO];
	struct obj o[MAXO];
	struct tr alone[MAXO], mixed[MAXO];
	uint64_t seed[MAXO][8];
	int step[MAXO], k = rr(r, 2, MAXO), i, s, steps = rr(r, 1, 6), left, rec[MAXO][8];
	char names[700] = "";
	struct par var[MAXO][8];

	(void)n;
	for(i = 0; i < k; i++)
	{
		/* often the same algorithm several times, sometimes sharing the key */
		if(i && rn(r, 2)) { p[i] = p[rn(r, i)]; if(rn(r, 2)) par_vary(r, p + i); }
		else par_pick(r, p + i, -1);
		snprintf(names + strlen(names), sizeof names - strlen(names), " %s", p[i].spec);
		var[i][0] = p[i];
		for(s = 0; s < steps; s++)
		{
			seed[i][s] = rnd(r);
			rec[i][s] = s && rn(r, 4) == 0;
			if(s) var[i][s] = var[i][s - 1];
			if(rec[i][s]) par_vary(r, &var[i][s]);
		}
	}
	note("%s", names);
	for(i = 0; i < k; i++)
	{
		obj_desc(&T, o + i, p + i);
		MUST(obj_create(o + i));
		tr_init(alone + i, 1);
		for(s = 0; s < steps; s++)
		{
			if(rec[i][s]) MUST(obj_recreate(o + i, &var[i][s]));
			obj_ops(o + i, seed[i][s], 2, alone + i);
		}
		obj_close(o + i);
	}
	int shared = rn(r, 2);	/* descriptors shared by equal objects */
	for(i = 0; i < k; i++)
	{
		int j;
		for(j = 0; shared && j < i && (p[j].kind != p[i].kind || strcmp(p[j].spec, p[i].spec)); j++);
		obj_desc(&T, o + i, p + i);
		if(shared && j < i) { free_descs(&o[i].d); o[i].desc = o[j].desc; }
		tr_init(mixed + i, 1);
		step[i] = -1;
	}
	for(left = k * (steps + 1); left;)
	{
		i = rn(r, k);
		if(step[i] == steps) continue;
		left--;
		if(step[i] == -1) MUST(obj_create(o + i));
		else
		{
			if(rec[i][step[i]]) MUST(obj_recreate(o + i, &var[i][step[i]]));
			obj_ops(o + i, seed[i][step[i]], 2, mixed + i);
		}
		if(rn(r, 5) == 0)
		{
			struct job noise;
			memset(&noise, 0, sizeof noise);
			noise.seed = rnd(r);
			tr_init(&noise.t, 0);
			job_calls(&noise);
			tr_free(&noise.t);
			stat_add("one_call_functions_between", 2);
		}
		step[i]++;
		if(step[i] == steps && rn(r, 2)) obj_end(o + i);
	}
	for(i = 0; i < k; i++)
	{
		if(!same(alone + i, mixed + i))
		{
			char w[900];
			snprintf(w, sizeof w, "alone against interleaved with%s", names);
			diff("isolation", p + i, alone + i, mixed + i, w);
		}
		stat_add("bytes_compared", alone[i].n);
		tr_free(alone + i); tr_free(mixed + i);
	}
	stat_add("schedules", 1);
	stat_add("objects", k);
	for(i = 0; i < k; i++) obj_end(o + i);
	for(i = 0; i < k; i++) free_descs(&o[i].d);
	distinct("k=%d steps=%d %s s=%llx", k, steps, names, (unsigned long long)seed[0][0]);
}

/* ---- the same work in several threads at once ---- */
static void job_run(struct job *j)
{
	struct obj o;
	if(j->mode == 1)
	{
		/* one const block object used by all threads */
		struct rng r;
		uint8_t in[128], x[128];
		rng_seed(&r, j->seed);
		for(int i = 0; i < 40; i++)
		{
			rbytes(&r, in, j->p.b->bs);
			if(i & 1) T.block_decrypt(j->blk, in, x); else T.block_encrypt(j->blk, in, x);
			tr_add(&j->t, x, j->p.b->bs);
		}
		return;
	}
	if(j->mode == 2) { job_calls(j); return; }
	o = *j->o;	/* shares the descriptor */
	if(j->own) obj_desc(&T, &o, &j->p);	/* or makes one of its own */
	if(!obj_create(&o)) { j->fail = 1; return; }
	for(int i = 0; i < 3; i++)
	{
		obj_ops(&o, j->seed + i, j->ops, &j->t);
		if(i < 2 && !obj_recreate(&o, &j->p)) { j->fail = 1; return; }
	}
	if(j->own) obj_close(&o); else obj_end(&o);
}

static void *job_thread(void *v)
{
	struct job *j = v;
	pthread_barrier_wait(j->bar);
	job_run(j);
	return 0;
}

static void threads(struct rng *r, int mode, const struct par *first)
{
	enum { N = 6 };
	static struct job ser[N], par[N];
	struct obj desc[N];
	pthread_t th[N];
	pthread_barrier_t bar;
	char names[700] = "";
	int i;
	kripto_block *blk = 0;

	for(i = 0; i < N; i++)
	{
		struct job *j = ser + i;
		memset(j, 0, sizeof *j);
		if(first) { j->p = *first; if(i & 1) par_vary(r, &j->p); }
		else if(i && (mode || rn(r, 2))) { j->p = ser[rn(r, i)].p; if(!mode && rn(r, 2)) par_vary(r, &j->p); }
		else par_pick(r, &j->p, mode == 1 ? K_BLOCK : mode == 2 ? K_MAC : -1);
		j->seed = rnd(r);
		j->ops = 1 + rn(r, 4);
		j->mode = mode;
		j->own = !mode && rn(r, 2);
		snprintf(names + strlen(names), sizeof names - strlen(names), " %s", j->p.spec);
	}
	note("%s", names);
	for(i = 0; i < N; i++)
	{
		int k;
		obj_desc(&T, desc + i, &ser[i].p);
		for(k = 0; k < i && (ser[k].p.kind != ser[i].p.kind || strcmp(ser[k].p.spec, ser[i].p.spec)); k++);
		if(k < i) { free_descs(&desc[i].d); desc[i].desc = desc[k].desc; }
		ser[i].o = desc + i;
	}
	if(mode == 1) MUST((blk = T.block_create(desc[0].desc, ser[0].p.rounds, ser[0].p.key, ser[0].p.klen)));
	for(i = 0; i < N; i++)
	{
		ser[i].blk = blk;
		par[i] = ser[i];
		tr_init(&ser[i].t, 1); tr_init(&par[i].t, 1);
	}
	/* the concurrent run comes first, so that one-time initialisation races too */
	pthread_barrier_init(&bar, 0, N);
	for(i = 0; i < N; i++) { par[i].bar = &bar; if(pthread_create(th + i, 0, job_thread, par + i)) exit(3); }
	for(i = 0; i < N; i++) pthread_join(th[i], 0);
	pthread_barrier_destroy(&bar);
	for(i = 0; i < N; i++)
	{
		job_run(ser + i);
		if(ser[i].fail || par[i].fail) viol("api-null", "creation failed in a thread: %s", par_str(&ser[i].p));
		else if(!same(&ser[i].t, &par[i].t)) diff("thread-results", &ser[i].p, &ser[i].t, &par[i].t, "alone against concurrently with other threads");
		stat_add("bytes_compared", ser[i].t.n);
		tr_free(&ser[i].t); tr_free(&par[i].t);
	}
	stat_add("thread_runs", N);
	if(mode == 1) { stat_add("shared_const_object_runs", 1); T.block_destroy(blk); }
	for(i = 0; i < N; i++) free_descs(&desc[i].d);
	distinct("mode=%d%s s=%llx", mode, names, (unsigned long long)ser[0].seed);
}

/* ---- objects that go from thread to thread ---- */
enum { HAND = 5, STEPS = 7 };
struct hand { struct par p[3]; struct obj o; uint64_t seed; int ops, fail, moves; struct tr t; };
struct ring { struct hand *h; pthread_barrier_t *bar; int me; };

static void hand_step(struct hand *h, int step)
{
	struct obj *o = &h->o;
	if(h->fail) return;
	if(!step) { h->fail = !obj_create(o); return; }
	if(step == STEPS - 1) { obj_end(o); return; }
	if(step == 3 || step == 5) h->fail = !obj_recreate(o, h->p + (step - 1) / 2);
	if(!h->fail) obj_ops(o, h->seed + (uint64_t)step, h->ops, &h->t);
}

static void *hand_thread(void *v)
{
	struct ring *g = v;
	for(int step = 0; step < STEPS; step++)
	{
		pthread_barrier_wait(g->bar);
		hand_step(g->h + (g->me + step) % HAND, step);
	}
	return 0;
}

/* or each step in a thread that ends right after it */
static void *hand_once(void *v)
{
	struct ring *g = v;
	for(int i = 0; i < HAND; i++) hand_step(g->h + i, g->me);
	return 0;
}

void m_handover(struct rng *r, long n)
{
	struct hand a[HAND], b[HAND];
	struct ring g[HAND];
	pthread_t th[HAND];
	pthread_barrier_t bar;
	char names[700] = "";
	int i;

	memset(a, 0, sizeof a);
	for(i = 0; i < HAND; i++)
	{
		if(i && rn(r, 2)) { a[i].p[0] = a[rn(r, i)].p[0]; par_vary(r, a[i].p); }
		else par_pick(r, a[i].p, -1);
		a[i].p[1] = a[i].p[2] = a[i].p[0];
		if(rn(r, 4)) par_vary(r, a[i].p + 1);
		if(rn(r, 4)) par_vary(r, a[i].p + 2);
		a[i].seed = rnd(r);
		a[i].ops = 1 + rn(r, 4);
		snprintf(names + strlen(names), sizeof names - strlen(names), " %s", a[i].p[0].spec);
	}
	note("%s", names);
	for(i = 0; i < HAND; i++)
	{
		obj_desc(&T, &a[i].o, a[i].p);
		b[i] = a[i];
		tr_init(&a[i].t, 1); tr_init(&b[i].t, 1);
	}
	if(n & 1)
	{
		for(i = 0; i < STEPS; i++)
		{
			g[0] = (struct ring){a, 0, i};
			if(pthread_create(th, 0, hand_once, g)) exit(3);
			pthread_join(th[0], 0);
		}
	}
	else
	{
		pthread_barrier_init(&bar, 0, HAND);
		for(i = 0; i < HAND; i++) { g[i] = (struct ring){a, &bar, i}; if(pthread_create(th + i, 0, hand_thread, g + i)) exit(3); }
		for(i = 0; i < HAND; i++) pthread_join(th[i], 0);
		pthread_barrier_destroy(&bar);
	}
	for(i = 0; i < HAND; i++)
	{
		for(int step = 0; step < STEPS; step++) hand_step(b + i, step);
		if(a[i].fail || b[i].fail) viol("api-null", "creation failed in a thread: %s", par_str(a[i].p));
		else if(!same(&a[i].t, &b[i].t)) diff("thread-handover", a[i].p, &b[i].t, &a[i].t, "in one thread against handed from thread to thread");
		stat_add("bytes_compared", a[i].t.n);
		tr_free(&a[i].t); tr_free(&b[i].t);
		free_descs(&a[i].o.d);
	}
	stat_add("handovers", HAND * (STEPS - 1));
	distinct("%s s=%llx", names, (unsigned long long)a[0].seed);
}

void m_threads(struct rng *r, long n)
{
	threads(r, n % 4 == 3 ? 1 : n % 4 == 2 ? 2 : 0, 0);
}

/* The first use of an algorithm in a process, by all threads at once: one case, one process.
 * Whatever is set up on first use races here and never again. */
void m_firstuse(struct rng *r, long n)
{
	struct par p;
	const char *want = 0;
	int kind = -1, mode = 0;
	uint k = n % (NBLOCKS + NHASHES + NSTREAMS + NMACS + 30);

	if(k < NBLOCKS) { kind = K_BLOCK; want = BLOCKS[k].name; }
	else if((k -= NBLOCKS) < NHASHES) { kind = K_HASH; want = HASHES[k].name; }
	else if((k -= NHASHES) < NSTREAMS) { kind = K_STREAM; want = STREAMS[k].name; }
	else if((k -= NSTREAMS) < NMACS) { kind = K_MAC; want = MACS[k].name; }
	else { k -= NMACS; if(k < 6) { kind = K_MAC; mode = 2; } else kind = k % 3 ? k % 3 == 1 ? K_AE : K_MAC : K_STREAM; }
	for(int i = 0; i < 20000; i++) { par_pick(r, &p, kind); if(!want || !strcmp(p.spec, want)) break; }
	threads(r, mode, &p);
}

/* ---- results do not depend on what memory contained before ---- */
static void __attribute__((noinline)) dirty_stack(int c)
{
	volatile uint8_t b[24000];
	for(size_t i = 0; i < sizeof b; i++) b[i] = c;
}

void m_determinism(struct rng *r, long n)
{
	struct par p, q;
	struct obj o;
	struct tr t[3];
	uint64_t s1 = rnd(r), s2 = rnd(r);
	int i, ops = rr(r, 1, 6), rec = rn(r, 2);
	static const int fill[3] = {0x00, 0xFF, 0x5C};

	par_pick(r, &p, n % NKIND);
	q = p;
	par_vary(r, &q);
	note("%s", par_str(&p));
	for(i = 0; i < 3; i++)
	{
		mallopt(M_PERTURB, fill[i]);
		tr_init(t + i, 1);
		obj_desc(&T, &o, &p);
		dirty_stack(fill[i] ^ 0x33);
		MUST(obj_create(&o));
		dirty_stack(fill[i]);
		obj_ops(&o, s1, ops, t + i);
		if(rec) { dirty_stack(fill[i]); MUST(obj_recreate(&o, &q)); obj_ops(&o, s2, ops, t + i); }
		obj_close(&o);
		if(i && !same(t, t + i)) diff("determinism", &p, t, t + i, "two runs with other memory contents");
	}
	mallopt(M_PERTURB, 0);
	stat_add("bytes_compared", t[0].n);
	distinct("%s rounds=%u key_len=%u iv_len=%u out_len=%u t=%llx", p.spec, p.rounds, p.klen, p.ivlen, p.outlen, (unsigned long long)t[0].h);
	for(i = 0; i < 3; i++) tr_free(t + i);
}

/* ---- one scenario on several builds ---- */
static struct api L[16];
void init_builds(void)
{
	for(int i = 0; i < cfg.nlibs; i++) api_load(L + i, cfg.libs[i]);
}

/* key derivation, padding and comparison on all builds */
static void builds_kdf(struct rng *r)
{
	struct par p;
	struct descs d;
	uint8_t salt[80], want[300], got[300], buf[2][600];
	uint sl = rn(r, 80), it = rr(r, 1, 4), sr = rr(r, 1, 3), sp = rr(r, 1, 3), ol = rr(r, 1, 290), len = rn(r, 300), pad = rr(r, 1, 255), max = rr(r, len, 599);
	uint64_t sn = (uint64_t)1 << rr(r, 1, 5);
	size_t a, b = 0, c;
	do par_pick(r, &p, K_MAC); while(strstr(p.spec, "toy") || (!p.m.h && !p.m.b && !p.m.maxtag));
	rdata(r, salt, sl);
	note("pbkdf2, scrypt, padding: %s", par_str(&p));
	for(int i = 0; i <= cfg.nlibs; i++)
	{
		const struct api *l = i ? L + i - 1 : &T;
		const char *name = strrchr(l->path, '/');
		int k, rc;
		for(k = 0; k < 2; k++)
		{
			memset(&d, 0, sizeof d);
			const kripto_desc_mac *m = mk_mac(l, p.spec, &d);
			memset(got, 0, sizeof got);
			rc = k ? l->scrypt(m, p.rounds, sn, sr, sp, p.key, p.klen, salt, sl, got, ol) : l->pbkdf2(m, p.rounds, it, p.key, p.klen, salt, sl, got, ol);
			free_descs(&d);
			if(rc) viol("build-kdf-failed", "%s with %s fails in build %s", k ? "scrypt" : "pbkdf2", par_str(&p), name);
			if(!i) { memcpy(buf[k], got, ol); continue; }
			if(memcmp(buf[k], got, ol)) viol("build-equivalence", "%s with %s of %u bytes: build %s gives %s, %s gives %s", k ? "scrypt" : "pbkdf2", par_str(&p), ol, strrchr(T.path, '/'), hex(buf[k], ol), name, hex(got, ol));
		}
		memset(want, 0, sizeof want); memcpy(want, p.key, len < sizeof p.key ? len : sizeof p.key);
		uint8_t box[600];
		memset(box, 0x11, sizeof box);
		memcpy(box, want, len);
		a = l->pkcs7_add(box, len, pad, max);
		c = hash_bytes(box, sizeof box, a * 7 + (a ? l->pkcs7_rem(box, a) : 0));
		if(sl) { uint8_t o[80]; memcpy(o, salt, sl); o[sl / 2] ^= 1; c = mix64(c + !!l->memory_equals(salt, o, sl) * 2 + !!l->memory_equals(salt, salt, sl)); l->memory_wipe(o, sl); c = hash_bytes(o, sl, c); }
		if(!i) b = c;
		else if(b != c) viol("build-equivalence", "padding of %u bytes to %u within %u, or comparing and wiping: build %s differs", len, pad, max, name);
	}
	stat_add("derivations_compared", 2 * cfg.nlibs);
}

void m_builds(struct rng *r, long n)
{
	struct par p, q;
	struct obj o;
	struct tr t[17];
	uint64_t s1 = rnd(r), s2 = rnd(r);
	int i, ops = rr(r, 1, 6), rec = rn(r, 2);

	if(n % 16 == 7) { builds_kdf(r); return; }
	par_pick(r, &p, n % NKIND);
	q = p;
	par_vary(r, &q);
	for(i = 0; i <= cfg.nlibs; i++)
	{
		const struct api *a = i ? L + i - 1 : &T;
		note("%s in %s", par_str(&p), a->path);
		tr_init(t + i, 1);
		if(is_ilp32(a) && strstr(p.spec, "toy")) continue;	/* those are 64-bit */
		obj_desc(a, &o, &p);
		MUST(obj_create(&o));
		obj_ops(&o, s1, ops, t + i);
		if(rec) { MUST(obj_recreate(&o, &q)); obj_ops(&o, s2, ops, t + i); }
		obj_close(&o);
		if(i && !same(t, t + i))
		{
			char w[500];
			snprintf(w, sizeof w, "build %s against build %s", strrchr(T.path, '/') ? strrchr(T.path, '/') + 1 : T.path, strrchr(a->path, '/') ? strrchr(a->path, '/') + 1 : a->path);
			diff("build-equivalence", &p, t, t + i, w);
		}
	}
	stat_add("bytes_compared", t[0].n * cfg.nlibs);
	stat_add("results_compared_between_builds", cfg.nlibs);
	distinct("%s rounds=%u key_len=%u iv_len=%u out_len=%u t=%llx", p.spec, p.rounds, p.klen, p.ivlen, p.outlen, (unsigned long long)t[0].h);
	for(i = 0; i <= cfg.nlibs; i++) tr_free(t + i);
}

/* ---- results do not depend on where the caller's buffers are ---- */
/* every buffer ends right at (or starts right after) an inaccessible page, at
 * any alignment; against plain aligned separate buffers */
static uint8_t *guard[4];
static size_t gsize;
void init_place(void)
{
	gsize = 16384;
	for(int i = 0; i < 4; i++)
	{
		uint8_t *p = mmap(0, gsize + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if(p == MAP_FAILED || mprotect(p + 4096, gsize, PROT_READ | PROT_WRITE)) exit(3);
		guard[i] = p + 4096;
	}
}
static uint8_t *place(struct rng *r, int i, size_t n, int how)
{
	memset(guard[i], 0x77, gsize);
	if(how == 0) return guard[i] + gsize - n;
	if(how == 1) return guard[i];
	return guard[i] + 64 + rn(r, 32);
}
static int around(int i, const uint8_t *p, size_t n)
{
	for(uint8_t *q = guard[i]; q < guard[i] + gsize; q++) if((q < p || q >= p + n) && *q != 0x77) return 0;
	return 1;
}

void m_place(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	uint8_t *in, *ref, *x, *y, *k, *v;
	size_t len, outn, i;
	int hi = rn(r, 3), ho = rn(r, 3), hk = rn(r, 3), inplace = rn(r, 4) == 0, ro = rn(r, 2), dec = rn(r, 2), tl;

	par_pick(r, &p, n % NKIND);
	len = pick_len(r, 32);
	if(p.kind == K_BLOCK) len = p.b->bs;
	if(p.kind == K_STREAM) len -= len % p.s.multof;
	if(p.kind == K_AE) len -= len % p.a.multof;
	if(len > 8000) len = 64;
	outn = p.kind == K_HASH || p.kind == K_MAC ? p.outlen : len;
	in = calloc(1, len + 64); ref = calloc(1, outn + 600);
	rdata(r, in, len);
	tl = p.outlen;
	note("%s len=%zu in/out/key placement %d%d%d in-place=%d", par_str(&p), len, hi, ho, hk, inplace);
	obj_desc(&T, &o, &p);
	for(int pass = 0; pass < 2; pass++)
	{
		k = p.key; v = p.iv; x = in; y = ref;
		uint8_t *tagp = ref + outn;
		if(pass)
		{
			size_t kn = p.klen, vn = p.ivlen;
			k = place(r, 0, kn, hk); memcpy(k, p.key, kn);
			v = place(r, 1, vn, hk); memcpy(v, p.iv, vn);
			if(ro) { mprotect(guard[0], gsize, PROT_READ); mprotect(guard[1], gsize, PROT_READ); }
		}
		o.h = 0;
		switch(p.kind)
		{
			case K_BLOCK: o.h = T.block_create(o.desc, p.rounds, k, p.klen); break;
			case K_STREAM: o.h = T.stream_create(o.desc, p.rounds, k, p.klen, v, p.ivlen); break;
			case K_HASH: o.h = T.hash_create(o.desc, p.rounds, v, p.ivlen, p.outlen); break;
			case K_MAC: o.h = T.mac_create(o.desc, p.rounds, k, p.klen, p.outlen); break;
			case K_AE: o.h = T.ae_create(o.desc, p.rounds, k, p.klen, v, p.ivlen, p.outlen); break;
		}
		MUST(o.h);
		if(pass)
		{
			/* the caller may reuse its key and IV memory at once */
			mprotect(guard[0], gsize, PROT_READ | PROT_WRITE); mprotect(guard[1], gsize, PROT_READ | PROT_WRITE);
			if(!around(0, k, p.klen) || !around(1, v, p.ivlen) || memcmp(k, p.key, p.klen) || memcmp(v, p.iv, p.ivlen))
				viol("input-modified", "%s: create wrote to its key or IV", par_str(&p));
			memset(guard[0], 0xEE, gsize); memset(guard[1], 0xEE, gsize);
			x = place(r, 2, len, hi); memcpy(x, in, len);
			y = place(r, 3, outn, ho);
			if(inplace && p.kind != K_HASH && p.kind != K_MAC) y = x;
			tagp = place(r, 1, tl, ho);
			if(ro && y != x) mprotect(guard[2], gsize, PROT_READ);
		}
		switch(p.kind)
		{
			case K_BLOCK:
				if(p.twlen) T.block_tweak(o.h, p.tweak, p.twlen);
				if(dec) T.block_decrypt(o.h, x, y); else T.block_encrypt(o.h, x, y);
				break;
			case K_STREAM: if(dec) T.stream_decrypt(o.h, x, y, len); else T.stream_encrypt(o.h, x, y, len); break;
			case K_HASH: T.hash_input(o.h, x, len); T.hash_output(o.h, y, outn); break;
			case K_MAC: T.mac_input(o.h, x, len); T.mac_tag(o.h, y, outn); break;
			case K_AE:
				T.ae_header(o.h, x, len);
				if(dec) T.ae_decrypt(o.h, x, y, len); else T.ae_encrypt(o.h, x, y, len);
				T.ae_tag(o.h, tagp, tl);
				break;
		}
		if(pass)
		{
			mprotect(guard[2], gsize, PROT_READ | PROT_WRITE);
			if(y != x && memcmp(x, in, len)) viol("input-modified", "%s: input of %zu bytes was changed", par_str(&p), len);
			if(!around(2, x, len) || (y != x && !around(3, y, outn))) viol("out-of-bounds", "%s: wrote outside its buffers (%zu bytes)", par_str(&p), len);
			if(p.kind == K_AE && !around(1, tagp, tl)) viol("out-of-bounds", "%s: wrote outside the tag", par_str(&p));
			if(memcmp(y, ref, outn))
			{
				for(i = 0; y[i] == ref[i]; i++);
				viol("placement", "%s: %s of %zu bytes with buffers at %% 16 = %u/%u%s differs from aligned separate buffers at byte %zu", par_str(&p), dec ? "decrypt" : "encrypt/digest", len, (uint)((uintptr_t)x % 16), (uint)((uintptr_t)y % 16), inplace ? " in place" : "", i);
			}
			if(p.kind == K_AE && memcmp(tagp, ref + outn, tl)) viol("placement", "%s: tag differs", par_str(&p));
			distinct("%s key_len=%u in%%16=%u out%%16=%u inplace=%d len=%zu edge=%d%d%d", p.spec, p.klen, (uint)((uintptr_t)x % 16), (uint)((uintptr_t)y % 16), y == x, len, hi, ho, hk);
		}
		obj_end(&o);
	}
	stat_add("placements", 1);
	stat_add(ro ? "read_only_inputs" : "writable_inputs", 1);
	stat_add("in_place", inplace);
	free(in); free(ref);
	obj_close(&o);
}

/* ---- descriptor metadata ---- */
void m_meta(struct rng *r, long n)
{
	struct descs d = {{0}, 0};
	uint8_t key[700], iv[700];
	uint i;

	rbytes(r, key, sizeof key);
	rbytes(r, iv, sizeof iv);
#define EQ(WHAT, GOT, WANT) do { uint g_ = (GOT), w_ = (WANT); if(g_ != w_) viol("metadata", "%s of %s is %u, expected %u", WHAT, spec, g_, w_); stat_add("values_checked", 1); } while(0)
	char spec[200];
	i = n % (NBLOCKS + NHASHES + NSTREAMS + NMACS);
	if(i < NBLOCKS)
	{
		const struct binfo *b = BLOCKS + i;
		snprintf(spec, sizeof spec, "%s", b->name);
		const kripto_desc_block *bd = mk_block(&T, spec, &d);
		EQ("block size", T.block_size(bd), b->bs);
		EQ("maximum key", T.block_maxkey(bd), b->mk);
		EQ("maximum tweak", T.block_maxtweak(bd), b->mt);
		/* every length up to the maximum is usable, and the object knows its descriptor */
		for(uint k = 1; k <= b->mk; k++)
		{
			kripto_block *o = T.block_create(bd, 0, key, k);
			uint8_t x[128], y[128];
			MUST(o);
			if(T.block_getdesc(o) != bd) viol("metadata", "getdesc of a %s object is another descriptor", spec);
			memcpy(x, iv, b->bs);
			T.block_encrypt(o, x, y);
			T.block_decrypt(o, y, y);
			if(memcmp(x, y, b->bs)) viol("metadata", "%s does not work with a %u byte key", spec, k);
			T.block_destroy(o);
			stat_add("key_lengths", 1);
		}
		static const char *const sm[] = {"cbc", "cfb", "ctr", "ecb", "ofb"};
		for(int m = 0; m < 5; m++)
		{
			snprintf(spec, sizeof spec, "%s(%s)", sm[m], b->name);
			const kripto_desc_stream *sd = mk_stream(&T, spec, &d);
			EQ("maximum key", T.stream_maxkey(sd), b->mk);
			EQ("maximum IV", T.stream_maxiv(sd), m == 3 ? 0 : b->bs);
			for(uint v = 0; v <= T.stream_maxiv(sd); v++)
			{
				kripto_stream *o = T.stream_create(sd, 0, key, b->mk, iv, v);
				MUST(o);
				if(v == 0) EQ("multiple of", T.stream_multof(o), m == 0 || m == 3 ? b->bs : 1);
				if(T.stream_getdesc(o) != sd) viol("metadata", "getdesc of a %s object is another descriptor", spec);
				T.stream_destroy(o);
				stat_add("iv_lengths", 1);
			}
		}
		for(int m = 0; m < 2; m++)
		{
			snprintf(spec, sizeof spec, "%s(%s)", m ? "xcbc" : "omac", b->name);
			const kripto_desc_mac *md = mk_mac(&T, spec, &d);
			EQ("maximum key", T.mac_maxkey(md), b->mk);
			EQ("maximum tag", T.mac_maxtag(md), b->bs);
		}
		snprintf(spec, sizeof spec, "eax(%s)", b->name);
		const kripto_desc_ae *ad = mk_ae(&T, spec, &d);
		EQ("maximum key", T.ae_maxkey(ad), b->mk);
		EQ("maximum IV", T.ae_maxiv(ad), b->bs);
		EQ("maximum tag", T.ae_maxtag(ad), b->bs);
		kripto_ae *o = T.ae_create(ad, 0, key, b->mk, iv, b->bs, b->bs);
		MUST(o);
		EQ("multiple of", T.ae_multof(o), 1);
		if(T.ae_getdesc(o) != ad) viol("metadata", "getdesc of a %s object is another descriptor", spec);
		T.ae_destroy(o);
	}
	else if(i < NBLOCKS + NHASHES)
	{
		const struct hinfo *h = HASHES + i - NBLOCKS;
		snprintf(spec, sizeof spec, "%s", h->name);
		const kripto_desc_hash *hd = mk_hash(&T, spec);
		EQ("maximum output", T.hash_maxout(hd), h->maxout);
		EQ("maximum salt", T.hash_maxsalt(hd), h->maxsalt);
		EQ("block size", T.hash_blocksize(hd), h->bs);
		for(uint k = 1; k <= (h->maxout ? h->maxout : h->cap); k++)
		{
			uint8_t x[512];
			kripto_hash *o = T.hash_create(hd, 0, iv, h->maxsalt > 300 ? 0 : h->maxsalt, k);
			MUST(o);
			if(T.hash_getdesc(o) != hd) viol("metadata", "getdesc of a %s object is another descriptor", spec);
			T.hash_input(o, key, k);
			T.hash_output(o, x, k);
			T.hash_destroy(o);
			stat_add("output_lengths", 1);
		}
		snprintf(spec, sizeof spec, "hmac(%s)", h->name);
		const kripto_desc_mac *md = mk_mac(&T, spec, &d);
		EQ("maximum key", T.mac_maxkey(md), 0xFFFFFFFF);
		EQ("maximum tag", T.mac_maxtag(md), h->maxout);
		kripto_mac *o = T.mac_create(md, 0, key, 600, h->maxout ? h->maxout : h->cap);
		MUST(o);
		if(T.mac_getdesc(o) != md) viol("metadata", "getdesc of a %s object is another descriptor", spec);
		T.mac_destroy(o);
	}
	else if(i < NBLOCKS + NHASHES + NSTREAMS)
	{
		const struct sinfo *s = STREAMS + i - NBLOCKS - NHASHES;
		snprintf(spec, sizeof spec, "%s", s->name);
		const kripto_desc_stream *sd = mk_stream(&T, spec, &d);
		EQ("maximum key", T.stream_maxkey(sd), s->mk);
		EQ("maximum IV", T.stream_maxiv(sd), s->miv);
		for(uint k = 1; k <= (s->mk > 300 ? 300 : s->mk); k++)
		{
			kripto_stream *o = T.stream_create(sd, 0, key, k, iv, s->miv > 300 ? k : k % (s->miv + 1));
			uint8_t x[70];
			MUST(o);
			EQ("multiple of", T.stream_multof(o), 1);
			if(T.stream_getdesc(o) != sd) viol("metadata", "getdesc of a %s object is another descriptor", spec);
			T.stream_prng(o, x, 70);
			T.stream_destroy(o);
			stat_add("key_lengths", 1);
		}
	}
	else
	{
		const struct minfo *m = MACS + i - NBLOCKS - NHASHES - NSTREAMS;
		snprintf(spec, sizeof spec, "%s", m->name);
		const kripto_desc_mac *md = mk_mac(&T, spec, &d);
		EQ("maximum key", T.mac_maxkey(md), 0xFFFFFFFF);
		EQ("maximum tag", T.mac_maxtag(md), m->maxtag);
		for(uint k = 1; k <= m->maxtag; k++)
		{
			uint8_t x[512];
			kripto_mac *o = T.mac_create(md, 0, key, 1 + k, k);
			MUST(o);
			if(T.mac_getdesc(o) != md) viol("metadata", "getdesc of a %s object is another descriptor", spec);
			T.mac_input(o, iv, k);
			T.mac_tag(o, x, k);
			T.mac_destroy(o);
			stat_add("tag_lengths", 1);
		}
	}
	/* a random EAX2 composition */
	struct aspec a;
	do pick_ae(r, &a); while(!a.eax2);
	snprintf(spec, sizeof spec, "%s", a.name);
	free_descs(&d);
	const kripto_desc_ae *ad = mk_ae(&T, spec, &d);
	EQ("maximum key", T.ae_maxkey(ad), a.mk);
	EQ("maximum IV", T.ae_maxiv(ad), a.miv);
	EQ("maximum tag", T.ae_maxtag(ad), a.maxtag);
	uint kl = keylen_ae(r, &a);
	kripto_ae *o = T.ae_create(ad, 0, key, kl > 600 ? 600 : kl, iv, a.miv > 600 ? 600 : a.miv, a.maxtag);
	MUST(o);
	EQ("multiple of", T.ae_multof(o), a.multof);
	if(T.ae_getdesc(o) != ad) viol("metadata", "getdesc of a %s object is another descriptor", spec);
	T.ae_destroy(o);
	distinct("%u %s", i, a.name);
	free_descs(&d);
}

/* ---- memory helpers ---- */
void m_memory(struct rng *r, long n)
{
	size_t len = n % 3 ? rn(r, 300) : (size_t)(n / 3) % 70, i;
	struct buf a, b;
	uint8_t *c;
	int e;

	buf_new(r, &a, len); buf_new(r, &b, len);
	c = malloc(len + 1);
	rdata(r, a.p, len);
	memcpy(b.p, a.p, len);
	memcpy(c, a.p, len);
	note("len=%zu", len);
	e = T.memory_equals(a.p, b.p, len);
	if(e != 1) viol("memory-equals", "equal buffers of %zu bytes: returned %d", len, e);
	/* every single bit, then other differences */
	for(i = 0; i < len * 8 && len <= 40; i++)
	{
		b.p[i / 8] ^= 1u << i % 8;
		e = T.memory_equals(a.p, b.p, len);
		if(e) viol("memory-equals", "%zu bytes differing in bit %zu: returned %d", len, i, e);
		b.p[i / 8] ^= 1u << i % 8;
		stat_add("single_bit_differences", 1);
	}
	for(int k = 0; k < 6 && len; k++)
	{
		switch(k)
		{
			case 0: b.p[rn(r, len)] ^= 1 + rn(r, 255); break;
			case 1: { uint8_t v = 1 + rn(r, 255); uint x = rn(r, len), y = rn(r, len); b.p[x] ^= v; if(y != x) b.p[y] ^= v; break; }
			case 2: for(i = 0; i < len; i++) b.p[i] = ~b.p[i]; break;
			case 3: for(i = 0; i < len; i++) b.p[i] ^= 0x80; break;
			case 4: { uint x = rn(r, len); b.p[x] += 128; if(len > 1) b.p[(x + 1) % len] += 128; break; }
			case 5: b.p[len - 1] ^= 1 + rn(r, 255); break;
		}
		if(memcmp(a.p, b.p, len) && T.memory_equals(a.p, b.p, len)) viol("memory-equals", "different buffers of %zu bytes (%s / %s) were found equal", len, hex(a.p, len), hex(b.p, len));
		if(memcmp(a.p, c, len)) viol("memory-equals", "comparison changed its argument");
		stat_add("differences", 1);
		memcpy(b.p, a.p, len);
	}
	/* wipe exactly the given range */
	size_t from = rn(r, len + 1), cnt = rn(r, len - from + 1);
	T.memory_wipe(b.p + from, cnt);
	for(i = 0; i < len; i++) if(b.p[i] != (i >= from && i < from + cnt ? 0 : c[i])) { viol("memory-wipe", "wiping %zu bytes at %zu of %zu left byte %zu as %02x (was %02x)", cnt, from, len, i, b.p[i], c[i]); break; }
	if(!buf_ok(&a) || !buf_ok(&b)) viol("out-of-bounds", "memory helpers wrote outside %zu bytes", len);
	stat_add("wipes", 1);
	distinct("len=%zu from=%zu cnt=%zu a=%s", len, from, cnt, hex(c, len > 20 ? 20 : len));
	buf_free(&a); buf_free(&b);
	free(c);
}

/* ---- the instructions executed do not depend on the data compared ---- */
/* single-steps one call with the trap flag and hashes the program counters */
static volatile uint64_t step_hash, step_count;
static volatile int stepping;
#if defined(__x86_64__)
#include <ucontext.h>
static void on_trap(int sig, siginfo_t *si, void *uc)
{
	(void)sig; (void)si;
	ucontext_t *u = uc;
	if(!stepping) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100; return; }
	step_hash = (step_hash ^ (uint64_t)u->uc_mcontext.gregs[REG_RIP]) * 0x9E3779B97F4A7C15u;
	step_hash ^= step_hash >> 29;
	step_count++;
}
#define STEP_ON() do { step_hash = 1; step_count = 0; stepping = 1; __asm__ volatile("pushf; orl $0x100, (%%rsp); popf" ::: "memory", "cc"); } while(0)
#define STEP_OFF() do { __asm__ volatile("pushf; andl $~0x100, (%%rsp); popf" ::: "memory", "cc"); stepping = 0; } while(0)
#endif

void init_ct(void)
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGTRAP, &sa, 0);
}

static int __attribute__((noinline)) step_equals(const void *a, const void *b, size_t n)
{
	int e;
	STEP_ON();
	e = T.memory_equals(a, b, n);
	STEP_OFF();
	return e;
}
static int __attribute__((noinline)) step_mac(kripto_mac *s, const void *t, uint n)
{
	int e;
	STEP_ON();
	e = T.mac_verify(s, t, n);
	STEP_OFF();
	return e;
}
static int __attribute__((noinline)) step_ae(kripto_ae *s, const void *t, uint n)
{
	int e;
	STEP_ON();
	e = T.ae_verify(s, t, n);
	STEP_OFF();
	return e;
}

static uint8_t ct_buf[2][9100];
void m_ct(struct rng *r, long n)
{
	int far = n % 8 == 0;	/* long ranges, fewer patterns */
	size_t len = far ? rr(r, 4200, 9000) : n % 2 ? rr(r, 1, 64) : rr(r, 1, 1000);
	uint8_t *a = ct_buf[0] + rn(r, 16), *b = ct_buf[1] + rn(r, 16);
	uint64_t h0 = 0, c0 = 0;
	int k;

	if(n % 4 < 2)
	{
		rdata(r, a, len);
		for(k = 0; k < 9; k++)
		{
			if(far && k > 3 && k != 8) continue;
			memcpy(b, a, len);
			switch(k)
			{
				case 0: break;
				case 1: b[0] ^= 1; break;
				case 2: b[len - 1] ^= 1; break;
				case 3: b[len / 2] ^= 0x80; break;
				case 4: for(size_t i = 0; i < len; i++) b[i] = ~b[i]; break;
				case 5: rbytes(r, b, len); break;
				case 6: b[rn(r, len)] ^= 1 + rn(r, 255); break;
				case 7: memset(a, 0, len); memset(b, 0, len); break;
				case 8: memset(a, 0, len); memset(b, 0xFF, len); break;
			}
			if(!far) step_equals(a, b, len);	/* warm */
			step_equals(a, b, len);
			if(!k) { h0 = step_hash; c0 = step_count; }
			else if(h0 != step_hash || c0 != step_count)
			{
				viol("timing", "comparing %zu bytes executes %llu instructions when equal and %llu (other path) with difference pattern %d", len, (unsigned long long)c0, (unsigned long long)step_count, k);
				break;
			}
			stat_add("instructions_traced", step_count);
			stat_add("traces", 1);
		}
		distinct("equals len=%zu a=%s", len, hex(a, len > 8 ? 8 : len));
		return;
	}
	/* verification: fixed key and message, only the offered tag differs */
	struct par p;
	struct obj o;
	struct rng q;
	struct tr t;
	uint8_t tag[512];
	par_pick(r, &p, n % 4 == 2 ? K_MAC : K_AE);
	note("%s", par_str(&p));
	obj_desc(&T, &o, &p);
	uint64_t s = rnd(r);
	for(k = 0; k < 7; k++)
	{
		uint8_t m[40];
		MUST(obj_create(&o));
		rng_seed(&q, s);
		rbytes(&q, m, 40);
		if(p.kind == K_MAC) T.mac_input(o.h, m, 33);
		else T.ae_header(o.h, m, 33);
		if(k == 0)
		{
			if(p.kind == K_MAC) T.mac_tag(o.h, ct_buf[0], p.outlen); else T.ae_tag(o.h, ct_buf[0], p.outlen);
			memcpy(tag, ct_buf[0], p.outlen);
			obj_end(&o);
			continue;
		}
		memcpy(ct_buf[1], tag, p.outlen);
		switch(k)
		{
			case 3: ct_buf[1][0] ^= 1; break;
			case 4: ct_buf[1][p.outlen - 1] ^= 0x80; break;
			case 5: for(uint i = 0; i < p.outlen; i++) ct_buf[1][i] = ~ct_buf[1][i]; break;
			case 6: ct_buf[1][p.outlen / 2] ^= 0x10; break;
		}
		if(p.kind == K_MAC) step_mac(o.h, ct_buf[1], p.outlen); else step_ae(o.h, ct_buf[1], p.outlen);
		if(k == 2) { h0 = step_hash; c0 = step_count; }
		if(k > 2 && (h0 != step_hash || c0 != step_count))
		{
			viol("timing-verify", "%s: verification executes %llu instructions for the right tag and %llu (other path) for wrong tag pattern %d", par_str(&p), (unsigned long long)c0, (unsigned long long)step_count, k);
			obj_end(&o);
			break;
		}
		if(step_count > 40000 && k < 3) { stat_add("too_long_to_trace", 1); obj_end(&o); break; }
		if(k >= 2) { stat_add("instructions_traced", step_count); stat_add("traces", 1); }
		obj_end(&o);
	}
	(void)t;
	distinct("verify %s tag_len=%u key_len=%u", p.spec, p.outlen, p.klen);
	obj_close(&o);
}

/* ---- random source ---- */
static void random_case(struct rng *r, long n)
{
	char path[600];
	size_t flen, k, got, off, want;
	uint8_t *f, *b;
	kripto_random *s;

	snprintf(path, sizeof path, "%s/kv-random-%d", cfg.tmp ? cfg.tmp : "/tmp", (int)getpid());
	switch(n % 4)
	{
		case 0: case 1:
		{
			/* a file with known bytes: output is exactly those bytes, in order, and
			 * the return value says how many there were */
			flen = rn(r, 3) ? rn(r, 10000) : rn(r, 40);
			f = malloc(flen + 1); b = malloc(20001);
			rbytes(r, f, flen);
			FILE *fp = fopen(path, "wb");
			if(!fp || fwrite(f, 1, flen, fp) != flen || fclose(fp)) exit(3);
			setenv("KRIPTO_RANDOM", path, 1);
			note("file of %zu bytes", flen);
			s = T.random_create();
			if(!s) { viol("random-create", "KRIPTO_RANDOM names a readable file of %zu bytes, create failed", flen); break; }
			for(off = 0; off <= flen;)
			{
				k = 1 + rn(r, rn(r, 2) ? 6000 : 40);
				memset(b, 0x3B, k + 16);
				got = T.random_gen(s, b, k);
				want = k < flen - off ? k : flen - off;
				if(got != want) { viol("random-short", "asked for %zu bytes with %zu left, returned %zu", k, flen - off, got); break; }
				if(memcmp(b, f + off, got)) { viol("random-bytes", "output is not what the source delivered (%zu bytes at %zu)", got, off); break; }
				for(size_t i = k; i < k + 16; i++) if(b[i] != 0x3B) { viol("out-of-bounds", "random_gen wrote past its %zu byte output", k); break; }
				off += k;
				stat_add("reads", 1);
			}
			if(off > flen)
			{
				got = T.random_gen(s, b, 10);
				if(got) viol("random-short", "exhausted source still returned %zu bytes", got);
				stat_add("short_reads", 1);
			}
			T.random_destroy(s);
			/* two objects read independently */
			if(flen > 8)
			{
				kripto_random *s1 = T.random_create(), *s2 = T.random_create();
				if(s1 && s2)
				{
					got = T.random_gen(s1, b, 4) + T.random_gen(s2, b + 4, 4) + T.random_gen(s1, b + 8, 4);
					if(got != 12 || memcmp(b, f, 4) || memcmp(b + 4, f, 4) || memcmp(b + 8, f + 4, 4)) viol("random-bytes", "two objects on one source disturb each other");
				}
				if(s1) T.random_destroy(s1);
				if(s2) T.random_destroy(s2);
			}
			unlink(path);
			distinct("file %zu %s", flen, hex(f, flen > 8 ? 8 : flen));
			free(f); free(b);
			break;
		}
		case 2:
		{
			/* a source that cannot be opened */
			snprintf(path, sizeof path, "%s/kv-does-not-exist-%d/x%u", cfg.tmp ? cfg.tmp : "/tmp", (int)getpid(), rn(r, 1000));
			setenv("KRIPTO_RANDOM", path, 1);
			s = T.random_create();
			if(s) { viol("random-create", "source does not exist, create returned an object"); T.random_destroy(s); }
			stat_add("missing_sources", 1);
			distinct("missing %u", (uint)n % 64);
			break;
		}
		default:
		{
			/* the default source: full reads, changing output, plausible statistics */
			static uint8_t last[64];
			unsetenv("KRIPTO_RANDOM");
			s = T.random_create();
			if(!s) { viol("random-create", "default source: create failed"); break; }
			k = 64 + rn(r, 70000);
			b = calloc(1, k + 16);
			memset(b + k, 0x3B, 16);
			got = T.random_gen(s, b, k);
			if(got != k) viol("random-short", "default source returned %zu of %zu bytes", got, k);
			if(!memcmp(b, last, 64)) viol("random-repeat", "two objects of the default source produced the same 64 bytes");
			memcpy(last, b, 64);
			for(off = 0; off + 64 <= k && k >= 128; off += 64)
			{
				size_t z;
				for(z = 1; z < 64 && b[off + z] == b[off]; z++);
				if(z == 64) { viol("random-repeat", "64 equal bytes at %zu of %zu", off, k); break; }
			}
			for(size_t i = k; i < k + 16; i++) if(b[i] != 0x3B) { viol("out-of-bounds", "random_gen wrote past its %zu byte output", k); break; }
			/* the self-test recognises a good source (it may reject one sample in
			 * fifty) and refuses plainly bad ones */
			int good = 0, tries;
			for(tries = 0; tries < 12 && !good; tries++) good = T.random_test(s);
			if(!good) viol("random-test", "self-test rejected the default source %d times in a row", tries);
			stat_add("self_test_accepts", !!good);
			stat_add("default_reads", 1);
			/* parent and child after a fork */
			int fd[2];
			uint8_t pa[32], ch[32];
			note("fork");
			MUST(!pipe(fd));
			T.random_gen(s, pa, 1 + rn(r, 32));
			fflush(stdout);
			pid_t pid = fork();
			if(!pid)
			{
				memset(ch, 0, 32);
				if(T.random_gen(s, ch, 32) != 32) memset(ch, 1, 32);
				if(write(fd[1], ch, 32) < 0) {}
				_exit(0);
			}
			got = T.random_gen(s, pa, 32);
			MUST(pid > 0 && read(fd[0], ch, 32) == 32);
			waitpid(pid, 0, 0);
			close(fd[0]); close(fd[1]);
			if(got != 32 || !memcmp(pa, ch, 16) || !memcmp(pa + 16, ch + 16, 16) || !memcmp(pa, ch + 16, 16)) viol("random-fork", "parent and child read the same bytes (%s, %s)", hex(pa, 32), hex(ch, 32));
			stat_add("forks", 1);
			T.random_destroy(s);
			/* a pipe that delivers in dribbles */
			flen = 1 + rn(r, 9000);
			f = malloc(flen + 1);
			rbytes(r, f, flen);
			note("fifo of %zu bytes", flen);
			MUST(!mkfifo(path, 0600));
			uint64_t ws = rnd(r);
			if(!(pid = fork()))
			{
				struct rng q;
				rng_seed(&q, ws);
				int w = open(path, O_WRONLY);
				for(size_t o = 0; o < flen; o += got)
				{
					got = 1 + rn(&q, rn(&q, 2) ? 900 : 20);
					if(got > flen - o) got = flen - o;
					if(write(w, f + o, got) != (ssize_t)got) _exit(1);
					if(rn(&q, 4) == 0) sched_yield();
				}
				_exit(0);
			}
			setenv("KRIPTO_RANDOM", path, 1);
			s = T.random_create();
			if(!s) { viol("random-create", "create failed on a pipe"); kill(pid, SIGKILL); }
			else
			{
				uint8_t *fb = malloc(flen + 1);
				for(off = 0; off < flen; off += want)
				{
					want = 1 + rn(r, flen - off);
					got = T.random_gen(s, fb + off, want);
					if(got != want) { viol("random-short", "a pipe delivering %zu bytes in pieces: asked for %zu, returned %zu", flen, want, got); break; }
				}
				if(off >= flen && memcmp(fb, f, flen)) viol("random-bytes", "output is not what the pipe delivered");
				if(off >= flen && T.random_gen(s, fb, 1)) viol("random-short", "a closed pipe still returns a byte");
				stat_add("pipes", 1);
				free(fb);
				T.random_destroy(s);
			}
			waitpid(pid, 0, 0);
			unlink(path);
			unsetenv("KRIPTO_RANDOM");
			free(f);
			int bad = rn(r, 18);
			uint8_t *f2 = malloc(4200);
			rbytes(r, f2, 4200);
			size_t fl = 4200;
			static const char *const badname[] = {"zeros", "one constant byte", "a counter", "7-bit data", "odd bytes only", "fewer bytes than the test needs", "two alternating bytes", "a short repeated block", "a biased coin",
				"bytes that repeat too often", "a source that follows its last byte", "a source that avoids its last byte", "too many bit changes", "an uneven byte distribution", "too low a mean", "too high a mean", "too even a byte distribution", "values that stay away for long"};
			uint8_t perm[256];
			for(size_t i = 0; i < fl; i++) switch(bad)
			{
				case 0: f2[i] = 0; break;
				case 1: f2[i] = f2[0]; break;
				case 2: f2[i] = i; break;
				case 3: f2[i] &= 0x7F; break;
				case 4: f2[i] |= 1; break;
				case 6: f2[i] = f2[i & 1]; break;
				case 7: f2[i] = f2[i % 40]; break;
				case 8: f2[i] = f2[i] & (f2[i] >> 1 | f2[i] << 7); break;
				/* good in every respect but one */
				case 9: if(i) { uint x = rn(r, 100); if(x < 15) f2[i] = f2[i - 1]; else if(x < 28) f2[i] = ~f2[i - 1]; } break;
				case 10: if(i && rn(r, 10) < 3) f2[i] = f2[i - 1] + 1; break;
				case 11: if(i && rn(r, 10) < 3) f2[i] = ~f2[i - 1]; break;
				case 12: if(i) f2[i] = (f2[i] & 0x7F) | (f2[i - 1] & 1 ? 0 : 0x80); break;
				case 13: if(__builtin_parity(f2[i]) && rn(r, 100) < 27) f2[i] ^= 1u << rn(r, 8); break;
				case 14: case 15: if(rn(r, 4) == 0) { uint8_t x = rn(r, 256); if(bad == 14 ? x < f2[i] : x > f2[i]) f2[i] = x; } break;
				case 16: if(i % 256 == 0) { for(int j = 0; j < 256; j++) { int q = rn(r, j + 1); perm[j] = perm[q]; perm[q] = j; } } f2[i] = perm[i % 256]; break;
				case 17: f2[i] = (f2[i] & 0xFC) | ((i / 1024) & 3); break;
			}
			if(bad == 5) fl = rn(r, 4096);
			FILE *fp = fopen(path, "wb");
			if(!fp || fwrite(f2, 1, fl, fp) != fl || fclose(fp)) exit(3);
			free(f2);
			setenv("KRIPTO_RANDOM", path, 1);
			note("self-test on %s", badname[bad]);
			s = T.random_create();
			if(s)
			{
				if(T.random_test(s)) viol("random-test", "self-test accepts %s", badname[bad]);
				T.random_destroy(s);
				stat_add("self_test_refusals", 1);
			}
			unlink(path);
			unsetenv("KRIPTO_RANDOM");
			distinct("default %zu", k);
			free(b);
		}
	}
}

/* the lowest descriptor that is free */
static int lowest(void)
{
	int fd = open("/dev/null", O_RDONLY);
	if(fd >= 0) close(fd);
	return fd;
}

void m_random(struct rng *r, long n)
{
	int before = lowest();
	if(n % 64 == 6)
	{
		/* a source that opens but cannot be read */
		uint8_t b[40];
		setenv("KRIPTO_RANDOM", cfg.tmp ? cfg.tmp : "/tmp", 1);
		note("a directory");
		kripto_random *s = T.random_create();
		if(s)
		{
			memset(b, 0x3B, sizeof b);
			size_t got = T.random_gen(s, b, 20);
			if(got) viol("random-short", "a source that cannot be read returned %zu bytes", got);
			if(T.random_test(s)) viol("random-test", "self-test accepts a source that cannot be read");
			T.random_destroy(s);
		}
		unsetenv("KRIPTO_RANDOM");
		stat_add("unreadable_sources", 1);
		distinct("directory %ld", n);
	}
	else random_case(r, n);
	int after = lowest();
	if(before != after) viol("random-descriptor", "the lowest free descriptor was %d before and is %d after every source was destroyed", before, after);
}

/* one request of more than 2^32 bytes, from a sparse file with marks */
void m_hugerandom(struct rng *r, long n)
{
	char path[600];
	enum { MARKS = 40 };
	size_t want = (1ull << 32) + 4096 + rn(r, 100000), at[MARKS], got;
	uint8_t mark[MARKS][16], *b;
	int fd, i;

	(void)n;
	snprintf(path, sizeof path, "%s/kv-random-huge-%d", cfg.tmp ? cfg.tmp : "/tmp", (int)getpid());
	fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
	MUST(fd >= 0);
	MUST(!ftruncate(fd, want + 100));
	for(i = 0; i < MARKS; i++)
	{
		static const uint64_t edge[] = {0, 1ull << 31, (1ull << 31) - 4096, 1ull << 32, (1ull << 32) - 4096};
		at[i] = i < 5 ? edge[i] : rnd(r) % (want - 16);
		rbytes(r, mark[i], 16);
		MUST(pwrite(fd, mark[i], 16, at[i]) == 16);
	}
	close(fd);
	b = mmap(0, want + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	MUST(b != MAP_FAILED);
	b[want] = 0x3B;
	setenv("KRIPTO_RANDOM", path, 1);
	note("request of %zu bytes", want);
	kripto_random *s = T.random_create();
	if(!s) viol("random-create", "create failed on a readable file");
	else
	{
		got = T.random_gen(s, b, want);
		if(got != want) viol("random-short", "asked for %zu bytes, the source has more, returned %zu", want, got);
		else for(i = 0; i < MARKS; i++) if(memcmp(b + at[i], mark[i], 16))
		{
			int j;
			for(j = 0; j < MARKS && (j == i || at[j] + 16 <= at[i] || at[i] + 16 <= at[j]); j++);
			if(j < MARKS) continue;	/* marks that overlap */
			viol("random-bytes", "request of %zu bytes: byte %zu on is not what the source delivered", want, at[i]);
			break;
		}
		if(b[want] != 0x3B) viol("out-of-bounds", "random_gen wrote past its %zu byte output", want);
		T.random_destroy(s);
	}
	unsetenv("KRIPTO_RANDOM");
	unlink(path);
	munmap(b, want + 4096);
	stat_add("huge_requests", 1);
	distinct("%zu", want);
}
