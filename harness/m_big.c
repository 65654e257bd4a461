/* Long messages: single calls above 2^32 bytes, and messages of many megabytes against
 * the reference. The long buffers are address space only: one window of memory mapped
 * over and over. */
#define _GNU_SOURCE
#include "ops.h"
#include <sys/mman.h>
#include <sys/file.h>
#include <fcntl.h>
#include <unistd.h>

#define WIN ((size_t)4 << 20)

struct vast { uint8_t *p; size_t n; int fd; };

static void vast_new(struct vast *v, size_t n, int prot)
{
	v->n = (n + WIN - 1) / WIN * WIN;
	v->fd = memfd_create("kv", 0);
	if(v->fd < 0 || ftruncate(v->fd, WIN)) exit(3);
	v->p = mmap(0, v->n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(v->p == MAP_FAILED) exit(3);
	for(size_t o = 0; o < v->n; o += WIN)
		if(mmap(v->p + o, WIN, prot, MAP_SHARED | MAP_FIXED, v->fd, 0) == MAP_FAILED) exit(3);
}

static void vast_fill(struct vast *v, struct rng *r)
{
	uint8_t *w = mmap(0, WIN, PROT_READ | PROT_WRITE, MAP_SHARED, v->fd, 0);
	if(w == MAP_FAILED) exit(3);
	rbytes(r, w, WIN);
	munmap(w, WIN);
}

static void vast_free(struct vast *v) { munmap(v->p, v->n); if(v->fd >= 0) close(v->fd); }

/* A function may read back what it wrote, which the shared window does not allow: a
 * difference is believed only if it shows with memory of its own, too. One process at a
 * time does this. */
static int lockfd = -1;
static int vast_real(struct vast *v, int alone)
{
	uint8_t *p;
	if(lockfd < 0) lockfd = open("/proc/self/exe", O_RDONLY);
	if(lockfd < 0 || (alone && flock(lockfd, LOCK_EX))) return 0;
	p = mmap(0, v->n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) { flock(lockfd, LOCK_UN); stat_add("no_memory_to_confirm", 1); return 0; }
	vast_free(v);
	v->p = p;
	v->fd = -1;
	return 1;
}
static void vast_unlock(void) { if(lockfd >= 0) flock(lockfd, LOCK_UN); }

static uint64_t seen(const uint8_t *p, size_t n)
{
	uint64_t h = 7, w;
	for(; n >= 8; n -= 8, p += 8) { memcpy(&w, p, 8); h = (h ^ w) * 0x9E3779B97F4A7C15u; h ^= h >> 32; }
	return hash_bytes(p, n, h);
}

/* cheapest rounds: what matters here is the length */
static uint few_stream(const struct par *p)
{
	const char *n = p->spec;
	if(p->s.b || !strcmp(n, "rc4")) return p->s.b ? 1 : 0;
	return strncmp(n, "skein", 5) ? 2 : 8;
}

static uint few_hash(const char *n)
{
	if(!strncmp(n, "blake", 5) || !strncmp(n, "keccak", 6) || !strcmp(n, "sha3") || !strcmp(n, "whirlpool")) return 1;
	if(!strncmp(n, "skein", 5)) return 8;
	if(!strncmp(n, "sha2", 4)) return 16;
	return 0;
}

static size_t above(struct rng *r, uint unit)
{
	size_t n = ((size_t)1 << 32) + rr(r, 1, 1000) * (size_t)unit;
	return n;
}

static const char *const hs[] =
{
	"rc4", "keccak800", "chacha", "salsa20", "keccak1600", "skein256", "skein512", "skein1024",
	"ctr(rc6)", "ofb(rc6)", "cfb(rc6)", "cbc(rc6)", "ecb(rc6)"
};
enum { NHS = sizeof hs / sizeof *hs };

static void stream_par(struct rng *r, struct par *p, const char *name)
{
	memset(p, 0, sizeof *p);
	p->kind = K_STREAM;
	strcpy(p->spec, name);
	strcpy(p->s.name, name);
	if(strchr(name, '('))
	{
		p->s.b = binfo("rc6");
		p->klen = 16;
		p->ivlen = strncmp(name, "ecb", 3) ? 16 : 0;
		p->s.multof = name[0] == 'e' || !strncmp(name, "cbc", 3) ? 16 : 1;
	}
	else
	{
		p->s.s = sinfo(name);
		p->klen = 32;
		p->ivlen = !strcmp(name, "rc4") ? 0 : 8;
		p->s.multof = 1;
	}
	p->rounds = few_stream(p);
	rbytes(r, p->key, p->klen);
	rbytes(r, p->iv, p->ivlen);
}

/* kind of call: 0 encrypt, 1 decrypt, 2 prng */
static void scall(const struct api *a, kripto_stream *s, int op, const uint8_t *in, uint8_t *out, size_t n)
{
	if(op == 0) a->stream_encrypt(s, in, out, n);
	else if(op == 1) a->stream_decrypt(s, in, out, n);
	else a->stream_prng(s, out, n);
}

static void pieces(struct rng *r, size_t total, uint unit, size_t *v)
{
	v[0] = (size_t)rr(r, 1, 5) * unit;
	v[1] = ((size_t)1 << 31) - (size_t)rn(r, 5) * unit;
	v[2] = ((size_t)1 << 30) + (size_t)rn(r, 100) * unit;
	v[3] = total - v[0] - v[1] - v[2];
}

void m_hugestream(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct vast in, out;
	uint8_t tail[2][272], x[272];
	uint64_t h[2];
	size_t c[4], v[4], total, at;
	int op = n / NHS % 3, k, real = 0;

	stream_par(r, &p, hs[n % NHS]);
	if(op == 2 && p.s.b && strncmp(p.spec, "ctr", 3) && strncmp(p.spec, "ofb", 3)) return;
	if(op == 1 && !strcmp(p.spec, "rc4") && cfg.quick) return;	/* slow */
	static const char *const what[] = {"encrypt", "decrypt", "prng"};
	total = above(r, 16);
	note("%s %s of %zu bytes in one call", par_str(&p), what[op], total);
	pieces(r, total, 16, c);
	vast_new(&in, total, PROT_READ); vast_new(&out, total, PROT_READ | PROT_WRITE);
	vast_fill(&in, r);
	rbytes(r, x, sizeof x);
	obj_desc(&T, &o, &p);
again:
	memcpy(v, c, sizeof v);
	for(k = 0; k < 2; k++)
	{
		if(!real) memset(out.p, 0, WIN);
		MUST(obj_create(&o));
		if(!k) scall(&T, o.h, op, in.p, out.p, total);
		else for(at = 0; at < total; at += v[0], v[0] = v[1], v[1] = v[2], v[2] = v[3]) scall(&T, o.h, op, in.p + at, out.p + at, v[0]);
		h[k] = real ? seen(out.p, total) : seen(out.p, WIN);
		scall(&T, o.h, op, x, tail[k], sizeof x);
		obj_end(&o);
	}
	if((h[0] != h[1] || memcmp(tail[0], tail[1], sizeof x)) && !real && (real = vast_real(&out, 1))) goto again;
	if(real) vast_unlock();
	if(real && (h[0] != h[1] || memcmp(tail[0], tail[1], sizeof x)))
		viol("huge-call", "%s: %s of %zu bytes in one call and in four calls differ%s", par_str(&p), what[op], total, h[0] == h[1] ? " in what follows" : "");
	stat_add("huge_calls", 1);
	stat_add("bytes", total);
	distinct("%s %s %zu", p.spec, what[op], total);
	vast_free(&in); vast_free(&out);
	obj_close(&o);
}

static const char *const hh[] =
{
	"sha1", "md5", "tiger", "sha2_256", "sha2_512", "blake256", "blake2b", "blake2s", "blake512", "keccak1600", "keccak800", "sha3",
	"skein1024", "skein256", "skein512", "whirlpool",
	/* long outputs */
	"skein256", "skein512", "skein1024"
};
enum { NHH = sizeof hh / sizeof *hh };

void m_hugehash(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct vast in;
	uint8_t out[2][64];
	uint64_t h[2];
	size_t v[4], total, at;
	int k, i = n % NHH, longout = i >= 16;

	memset(&p, 0, sizeof p);
	p.kind = K_HASH;
	p.h = hinfo(hh[i]);
	strcpy(p.spec, p.h->name);
	p.outlen = p.h->maxout ? p.h->maxout : strncmp(p.spec, "keccak", 6) ? 64 : 8;	/* small capacity, fast */
	p.rounds = few_hash(p.spec);
	total = longout ? 0xFFFFFFFFu - 64 - rn(r, 100) : above(r, 1);	/* out_len is 32 bits wide */
	note("%s %s of %zu bytes in one call", par_str(&p), longout ? "output" : "input", total);
	pieces(r, total, 1, v);
	vast_new(&in, total, longout ? PROT_READ | PROT_WRITE : PROT_READ);
	vast_fill(&in, r);
	if(longout) p.outlen = UINT32_MAX;
	obj_desc(&T, &o, &p);
	for(k = 0; k < 2; k++)
	{
		h[k] = 0;
		memset(out[k], 0, 64);
		MUST(obj_create(&o));
		if(longout)
		{
			T.hash_input(o.h, "message", 7);
			memset(in.p, 0, WIN);
		}
		if(!k) { if(longout) T.hash_output(o.h, in.p, total); else T.hash_input(o.h, in.p, total); }
		else for(at = 0; at < total; at += v[0], v[0] = v[1], v[1] = v[2], v[2] = v[3])
		{
			if(longout) T.hash_output(o.h, in.p + at, v[0]); else T.hash_input(o.h, in.p + at, v[0]);
		}
		if(longout) h[k] = seen(in.p, WIN);
		T.hash_output(o.h, out[k], longout ? 64 : p.outlen);
		obj_end(&o);
	}
	if(h[0] != h[1] || memcmp(out[0], out[1], 64))
		viol("huge-call", "%s: %s of %zu bytes in one call and in four calls differ: %s, %s", par_str(&p), longout ? "output" : "input", total, hex(out[0], 64), hex(out[1], 64));
	stat_add("huge_calls", 1);
	stat_add("bytes", total);
	distinct("%s %d %zu", p.spec, longout, total);
	vast_free(&in);
	obj_close(&o);
}

static const char *const hm[] = {"hmac(md5)", "omac(rc6)", "xcbc(rc6)", "keccak1600", "keccak800", "skein256", "skein512", "skein1024", "hmac(skein512)"};
enum { NHM = sizeof hm / sizeof *hm };

static void mac_par(struct rng *r, struct par *p, const char *name)
{
	memset(p, 0, sizeof *p);
	p->kind = K_MAC;
	strcpy(p->spec, name);
	strcpy(p->m.name, name);
	p->klen = 16;
	p->outlen = 16;
	p->rounds = strchr(name, '(') ? (name[0] == 'h' ? few_hash(name + 5) : 1) : (name[0] == 'k' ? 1 : 8);
	if(!strncmp(name, "hmac(skein", 10)) p->rounds = 8;
	rbytes(r, p->key, p->klen);
}

void m_hugemac(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct vast in;
	uint8_t tag[2][16];
	size_t v[4], total, at;
	int k, i = n % NHM, all = n / NHM % 2;

	mac_par(r, &p, hm[i]);
	total = all ? 0xFFFFFFFFu - rn(r, 100) : above(r, 1);
	note("%s message of %zu bytes in one call", par_str(&p), total);
	pieces(r, total, 1, v);
	vast_new(&in, total, PROT_READ);
	vast_fill(&in, r);
	obj_desc(&T, &o, &p);
	for(k = 0; k < 2; k++)
	{
		if(!k && all)
		{
			if(T.mac_all(o.desc, p.rounds, p.key, p.klen, in.p, total, tag[0], 16)) viol("mac-all-failed", "%s", par_str(&p));
			continue;
		}
		MUST(obj_create(&o));
		if(!k) T.mac_input(o.h, in.p, total);
		else for(at = 0; at < total; at += v[0], v[0] = v[1], v[1] = v[2], v[2] = v[3]) T.mac_input(o.h, in.p + at, v[0]);
		T.mac_tag(o.h, tag[k], 16);
		obj_end(&o);
	}
	if(memcmp(tag[0], tag[1], 16))
		viol("huge-call", "%s: message of %zu bytes in one call%s and in four calls: %s, %s", par_str(&p), total, all ? " of kripto_mac_all" : "", hex(tag[0], 16), hex(tag[1], 16));
	stat_add("huge_calls", 1);
	stat_add("bytes", total);
	distinct("%s %d %zu", p.spec, all, total);
	vast_free(&in);
	obj_close(&o);
}

static const char *const ha[] = {"eax(rc6)", "eax2(salsa20,keccak800)"};
enum { NHA = sizeof ha / sizeof *ha };

static void ae_par(struct rng *r, struct par *p, const char *name)
{
	memset(p, 0, sizeof *p);
	p->kind = K_AE;
	strcpy(p->spec, name);
	strcpy(p->a.name, name);
	p->klen = 16; p->ivlen = 8; p->outlen = 16;
	p->rounds = strchr(name, '2') == name + 3 ? 0 : 1;
	rbytes(r, p->key, p->klen);
	rbytes(r, p->iv, p->ivlen);
}

static void acall(const struct api *a, kripto_ae *s, int op, const uint8_t *in, uint8_t *out, size_t n)
{
	if(op == 0) a->ae_encrypt(s, in, out, n);
	else if(op == 1) a->ae_decrypt(s, in, out, n);
	else a->ae_header(s, in, n);
}

void m_hugeae(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct vast in, out;
	uint8_t tag[2][16];
	uint64_t h[2];
	size_t c[4], v[4], total, at;
	int k, op = n / NHA % 3, real = 0;
	static const char *const what[] = {"encrypt", "decrypt", "header"};

	ae_par(r, &p, ha[n % NHA]);
	total = above(r, 1);
	note("%s %s of %zu bytes in one call", par_str(&p), what[op], total);
	pieces(r, total, 1, c);
	vast_new(&in, total, PROT_READ); vast_new(&out, total, PROT_READ | PROT_WRITE);
	vast_fill(&in, r);
	obj_desc(&T, &o, &p);
	if(op == 0) real = vast_real(&out, 0);	/* what is written is authenticated */
	if(op == 0 && !real) goto end;
again:
	memcpy(v, c, sizeof v);
	for(k = 0; k < 2; k++)
	{
		if(!real) memset(out.p, 0, WIN);
		MUST(obj_create(&o));
		if(!k) acall(&T, o.h, op, in.p, out.p, total);
		else for(at = 0; at < total; at += v[0], v[0] = v[1], v[1] = v[2], v[2] = v[3]) acall(&T, o.h, op, in.p + at, out.p + at, v[0]);
		h[k] = op == 2 ? 0 : real ? seen(out.p, total) : seen(out.p, WIN);
		T.ae_tag(o.h, tag[k], 16);
		obj_end(&o);
	}
	if((h[0] != h[1] || memcmp(tag[0], tag[1], 16)) && !real && (real = vast_real(&out, 1))) goto again;
	if(real) vast_unlock();
	if(real && (h[0] != h[1] || memcmp(tag[0], tag[1], 16)))
		viol("huge-call", "%s: %s of %zu bytes in one call and in four calls differ: tags %s, %s", par_str(&p), what[op], total, hex(tag[0], 16), hex(tag[1], 16));
	stat_add("huge_calls", 1);
	stat_add("bytes", total);
	distinct("%s %s %zu", p.spec, what[op], total);
end:
	vast_free(&in); vast_free(&out);
	obj_close(&o);
}

/* ---- megabytes, against the reference ---- */
static size_t megs(struct rng *r)
{
	static const uint lim[] = {18, 20, 22, 25};
	return ((size_t)1 << lim[rn(r, 4)]) + rn(r, 1u << 16);
}

/* n: every construction in turn; the reference is fed with other cuts */
static void longrun(struct rng *r, struct par *p, int op, uint unit)
{
	struct obj o[2];
	size_t total = megs(r) / unit * unit, at, k;
	uint8_t *in = malloc(total), *out[2] = {malloc(total), malloc(total)}, tag[2][128];
	uint tl = p->outlen > 128 ? 128 : p->outlen;
	int i;

	rbytes(r, in, total);
	memset(tag, 0, sizeof tag);
	memset(out[0], 0, total); memset(out[1], 0, total);
	note("%s, %zu bytes, op %d", par_str(p), total, op);
	for(i = 0; i < 2; i++)
	{
		obj_desc(i ? &G : &T, o + i, p);
		MUST(obj_create(o + i));
		const struct api *a = o[i].a;
		int whole = rn(r, 3) == 0;
		for(at = 0; at < total; at += k)
		{
			k = (size_t)rr(r, 1, 1u << (rn(r, 3) ? 17 : 9)) / unit * unit;
			if(!k) k = unit;
			if(whole || k > total - at) k = total - at;
			if(p->kind == K_STREAM) scall(a, o[i].h, op, in + at, out[i] + at, k);
			else if(p->kind == K_MAC) a->mac_input(o[i].h, in + at, k);
			else if(p->kind == K_AE) acall(a, o[i].h, op, in + at, out[i] + at, k);
		}
		if(p->kind == K_MAC) a->mac_tag(o[i].h, tag[i], tl);
		if(p->kind == K_AE) a->ae_tag(o[i].h, tag[i], tl);
	}
	if(memcmp(out[0], out[1], total))
	{
		for(at = 0; out[0][at] == out[1][at]; at++);
		viol("long-message", "%s: op %d over %zu bytes departs from the reference at byte %zu", par_str(p), op, total, at);
	}
	else if(memcmp(tag[0], tag[1], tl)) viol("long-message", "%s: tag of %zu bytes is %s, reference %s", par_str(p), total, hex(tag[0], tl), hex(tag[1], tl));
	stat_add("long_messages", 1);
	stat_add("message_bytes", total);
	distinct("%s rounds=%u op=%d len=%zu", p->spec, p->rounds, op, total);
	obj_close(o); obj_close(o + 1);
	free(in); free(out[0]); free(out[1]);
}

void m_streamlong(struct rng *r, long n)
{
	struct par p;
	int op;
	par_pick(r, &p, K_STREAM);
	if(n % 2 == 0)
	{
		/* natives in turn */
		do par_pick(r, &p, K_STREAM); while(strncmp(p.spec, STREAMS[n / 2 % NSTREAMS].name, strlen(STREAMS[n / 2 % NSTREAMS].name)));
	}
	op = rn(r, p.s.prng && (!p.s.b || strcmp(p.s.mode, "cfb")) ? 3 : 2);
	longrun(r, &p, op, p.s.multof);
}

void m_maclong(struct rng *r, long n)
{
	struct par p;
	const char *want = n % 8 < 5 ? MACS[n % 8].name : n % 8 == 5 ? "hmac(" : n % 8 == 6 ? "omac(" : "xcbc(";
	do par_pick(r, &p, K_MAC); while(strncmp(p.spec, want, strlen(want)));
	longrun(r, &p, 0, 1);
}

void m_aelong(struct rng *r, long n)
{
	struct par p;
	(void)n;
	par_pick(r, &p, K_AE);
	longrun(r, &p, rn(r, 3), p.a.multof);
}
