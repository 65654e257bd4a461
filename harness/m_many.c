/* Very many uses of the same thing: counts of calls, of recreations and of objects past 2^16,
 * for every algorithm. */
#include "ops.h"
#include <time.h>

#define MANY 70000

static double cpu(void)
{
	struct timespec t;
	clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
	return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}

static const char *const MODES5[] = {"ecb", "cbc", "cfb", "ofb", "ctr"};
static const char *const MACS3[] = {"hmac", "omac", "xcbc"};

/* parameters of the n-th algorithm: the block ciphers, the streams, the hashes, the MACs, EAX,
 * EAX2. What a mode is made of is picked at random among the faster ciphers. */
static int is_fast(const struct binfo *b)
{
	static const char *const F[] = {"rc5", "xtea", "tea", "sm4", "rectangle", "speck128", "speck64", "speck32", "rijndael128", "serpent", "idea", "noekeon", "rc6", "gost"};
	for(size_t i = 0; b && i < sizeof F / sizeof *F; i++) if(!strcmp(b->name, F[i])) return 1;
	return !b;
}

static void pick_nth(struct rng *r, struct par *p, long n, int kind)
{
	uint cnt[NKIND], k, i;
	cnt[K_BLOCK] = NBLOCKS; cnt[K_STREAM] = NSTREAMS + 5; cnt[K_HASH] = NHASHES; cnt[K_MAC] = NMACS + 3; cnt[K_AE] = 2;
	if(kind >= 0) { k = (uint)kind; i = (uint)(n % cnt[k]); }
	else
	{
		uint sum = 0;
		for(k = 0; k < NKIND; k++) sum += cnt[k];
		i = (uint)(n % sum);
		for(k = 0; i >= cnt[k]; k++) i -= cnt[k];
	}
	for(int tries = 0; tries < 20000; tries++)
	{
		par_pick(r, p, (int)k);
		const struct binfo *b = k == K_STREAM ? p->s.b : k == K_MAC ? p->m.b : k == K_AE ? p->a.b : 0;
		if(tries < 10000 && !is_fast(b)) continue;
		if(k == K_BLOCK && p->b != BLOCKS + i) continue;
		if(k == K_STREAM && (i < NSTREAMS ? p->s.s != STREAMS + i || p->s.b : !p->s.b || strcmp(p->s.mode, MODES5[i - NSTREAMS]))) continue;
		if(k == K_HASH && p->h != HASHES + i) continue;
		if(k == K_MAC && (i < NMACS ? strcmp(p->spec, MACS[i].name) : strcmp(p->m.kind, MACS3[i - NMACS]))) continue;
		if(k == K_AE && p->a.eax2 != (int)i) continue;
		return;
	}
	fprintf(stderr, "no parameters for %ld/%d\n", n, kind);
	exit(3);
}

/* C02: a chain of encryptions and the way back */
void m_manyuse(struct rng *r, long n)
{
	struct par p;
	struct obj o, f;
	uint8_t x[128], y[128], z[128];
	long i, k;
	double t0;

	pick_nth(r, &p, n, K_BLOCK);
	note("%s: a long chain of blocks", par_str(&p));
	obj_desc(&T, &o, &p);
	obj_desc(&T, &f, &p);
	MUST(obj_create(&o));
	rdata(r, x, p.b->bs);
	memcpy(y, x, p.b->bs);
	t0 = cpu();
	for(k = 0; k < MANY && !(k % 256 == 0 && cpu() - t0 > 4); k++)
	{
		if(n / NBLOCKS & 1) T.block_decrypt(o.h, y, y); else T.block_encrypt(o.h, y, y);
	}
	MUST(obj_create(&f));
	memcpy(z, y, p.b->bs);
	for(i = 0; i < k; i++)
	{
		/* a fresh object, which makes the same number of calls in the end, and the old one */
		if(n / NBLOCKS & 1) { T.block_encrypt(o.h, y, y); T.block_encrypt(f.h, z, z); }
		else { T.block_decrypt(o.h, y, y); T.block_decrypt(f.h, z, z); }
		if(memcmp(y, z, p.b->bs)) break;
	}
	if(i < k || memcmp(x, y, p.b->bs))
		viol("block-many", "%s: after %ld calls one way the way back fails at call %ld", par_str(&p), k, i);
	stat_add("block_calls", k * 3);
	stat_add("longest_enough", k > 65536);
	distinct("%s key_len=%u rounds=%u calls=%ld key=%s", p.spec, p.klen, p.rounds, k, hex(p.key, p.klen > 16 ? 16 : p.klen));
	obj_close(&o); obj_close(&f);
}

/* what: 0 recreates one object, 1 creates and destroys; the two parameter sets alternate and
 * each must go on giving what it gave at first */
static void many_lives(struct rng *r, long n, int make)
{
	struct par p[2];
	struct obj o, f;
	struct tr t, first[2];
	uint64_t s = rnd(r);
	long i;
	double t0;

	pick_nth(r, p, n, -1);
	p[1] = p[0];
	par_vary(r, p + 1);
	/* the same rounds and small sizes, where the time goes */
	note("%s and other parameters, very often", par_str(p));
	for(i = 0; i < 2; i++)
	{
		obj_desc(&T, &f, p + i);
		MUST(obj_create(&f));
		tr_init(first + i, 0);
		obj_ops(&f, s + (uint64_t)i, 2, first + i);
		obj_close(&f);
	}
	obj_desc(&T, &o, p);
	if(!make) MUST(obj_create(&o));
	t0 = cpu();
	for(i = 0; i < MANY && !(i % 64 == 0 && cpu() - t0 > 5); i++)
	{
		int k = i & 1;
		if(make) { o.p = p[k]; MUST(obj_create(&o)); }
		else MUST(obj_recreate(&o, p + k));
		/* most are not used: it is the number of them that counts */
		if(i < 4 || i % 16 == (i / 16 & 15) || i > MANY - 100 || (i > 65500 && i < 65600))
		{
			tr_init(&t, 0);
			obj_ops(&o, s + (uint64_t)k, 2, &t);
			if(t.h != first[k].h || t.n != first[k].n)
			{
				viol(make ? "many-objects" : "many-recreates", "%s: %s number %ld does not give what a fresh object gives", par_str(p + k), make ? "object" : "recreation", i + 1);
				break;
			}
			stat_add("compared", 1);
		}
		if(make) obj_end(&o);
	}
	stat_add(make ? "objects" : "recreations", i);
	stat_add("beyond_65536", i > 65536);
	distinct("%s rounds=%u,%u key_len=%u,%u count=%ld", p->spec, p[0].rounds, p[1].rounds, p[0].klen, p[1].klen, i);
	obj_close(&o);
}

void m_manyre(struct rng *r, long n) { many_lives(r, n, 0); }
void m_manymake(struct rng *r, long n) { many_lives(r, n, 1); }

/* C26: thousands of objects alive at once */
void m_manylive(struct rng *r, long n)
{
	enum { LIVE = 3000 };
	struct obj *o = malloc(LIVE * sizeof *o);
	uint64_t *want = malloc(LIVE * sizeof *want), s = rnd(r);
	struct tr t;
	struct par p;
	int i, k, one = n & 1;	/* all of one algorithm, or of all */

	note("%d objects alive", LIVE);
	for(i = 0; i < LIVE; i++)
	{
		if(one && i) par_vary(r, &p);
		else pick_nth(r, &p, one ? n / 2 : i, -1);
		obj_desc(&T, o + i, &p);
		tr_init(&t, 0);
		if(!obj_create(o + i)) { viol("api-null", "create failed: %s", par_str(&p)); goto end; }
		obj_ops(o + i, s + (uint64_t)i, 3, &t);
		want[i] = t.h;
		obj_end(o + i);
	}
	for(i = 0; i < LIVE; i++)
		if(!obj_create(o + i)) { viol("api-null", "create failed with %d objects alive: %s", i, par_str(&o[i].p)); goto end; }
	for(k = 0; k < LIVE; k++)
	{
		i = (int)((long)k * 1999 % LIVE);
		tr_init(&t, 0);
		obj_ops(o + i, s + (uint64_t)i, 3, &t);
		if(t.h != want[i]) { viol("many-alive", "%s: gives something else among %d objects", par_str(&o[i].p), LIVE); break; }
	}
	i = LIVE;
	stat_add("objects_alive", LIVE);
	distinct("%d objects of %s", LIVE, one ? p.spec : "all algorithms");
end:
	for(k = 0; k < i; k++) obj_close(o + k);
	free(o); free(want);
}

/* C06, C08, C10, C12: the smallest pieces, and more than 2^16 of them */
void m_manycalls(struct rng *r, long n, int kind)
{
	struct par p;
	struct obj o, q;
	uint8_t *m, *x, *y, a[1024], b[1024];
	uint u = 1, k = MANY + rn(r, 1000);
	size_t len;

	pick_nth(r, &p, n, kind);
	if(kind == K_STREAM) u = p.s.multof;
	if(kind == K_AE) u = p.a.multof;
	len = (size_t)k * u;
	m = malloc(len); x = malloc(len); y = malloc(len);
	rdata(r, m, len);
	note("%s: %u calls of %u bytes", par_str(&p), k, u);
	obj_desc(&T, &o, &p); obj_desc(&T, &q, &p);
	MUST(obj_create(&o)); MUST(obj_create(&q));
	memset(a, 0, sizeof a); memset(b, 1, sizeof b);
	if(kind == K_HASH)
	{
		T.hash_input(o.h, m, len);
		for(size_t i = 0; i < len; i++) T.hash_input(q.h, m + i, 1);
		T.hash_output(o.h, a, p.outlen); T.hash_output(q.h, b, p.outlen);
		if(memcmp(a, b, p.outlen)) viol("hash-many", "%s: %u calls and one differ", par_str(&p), k);
	}
	if(kind == K_MAC)
	{
		T.mac_input(o.h, m, len);
		for(size_t i = 0; i < len; i++) T.mac_input(q.h, m + i, 1);
		T.mac_tag(o.h, a, p.outlen);
		if(rn(r, 2)) { if(!T.mac_verify(q.h, a, p.outlen)) viol("mac-many", "%s: the tag of one call is refused after %u calls", par_str(&p), k); }
		else
		{
			T.mac_tag(q.h, b, p.outlen);
			if(memcmp(a, b, p.outlen)) viol("mac-many", "%s: %u calls and one differ", par_str(&p), k);
		}
	}
	if(kind == K_STREAM)
	{
		T.stream_encrypt(o.h, m, x, len);
		if(n & 1) for(size_t i = 0; i < len; i += u) T.stream_encrypt(q.h, m + i, y + i, u);
		else for(size_t i = 0; i < len; i += u) T.stream_decrypt(q.h, x + i, y + i, u);
		if(memcmp(n & 1 ? x : m, y, len)) viol("stream-many", "%s: %u calls of %u bytes and one differ", par_str(&p), k, u);
	}
	if(kind == K_AE)
	{
		T.ae_header(o.h, m, k);
		for(size_t i = 0; i < k; i++) T.ae_header(q.h, m + i, 1);
		T.ae_encrypt(o.h, m, x, len);
		for(size_t i = 0; i < len; i += u) T.ae_decrypt(q.h, x + i, y + i, u);
		if(memcmp(m, y, len)) viol("ae-many", "%s: %u calls of %u bytes do not decrypt what one encrypted", par_str(&p), k, u);
		T.ae_tag(o.h, a, p.outlen);
		if(!T.ae_verify(q.h, a, p.outlen)) viol("ae-many", "%s: the tag is refused after %u calls", par_str(&p), k);
	}
	stat_add("calls", k);
	distinct("%s rounds=%u key_len=%u iv_len=%u calls=%u of %u", p.spec, p.rounds, p.klen, p.ivlen, k, u);
	obj_close(&o); obj_close(&q);
	free(m); free(x); free(y);
}

void m_manystream(struct rng *r, long n) { m_manycalls(r, n, K_STREAM); }
void m_manyhash(struct rng *r, long n) { m_manycalls(r, n, K_HASH); }
void m_manymac(struct rng *r, long n) { m_manycalls(r, n, K_MAC); }
void m_manyae(struct rng *r, long n) { m_manycalls(r, n, K_AE); }
