#include "kv.h"
#include "alloc.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

struct cfg cfg;
struct api T, G;

void api_load(struct api *a, const char *path)
{
	size_t n = strlen(path);
	if(n > 4 && !strcmp(path + n - 4, ".m32")) { ilp32_load(a, path); no_toys |= a == &T; return; }
	a->path = path;
	a->h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
	if(!a->h) { fprintf(stderr, "dlopen %s: %s\n", path, dlerror()); exit(3); }
#define X(R, N, A) *(void **)&a->N = dlsym(a->h, "kripto_" #N); \
	if(!a->N) { printf("VIOL\tapi-missing\tthe library does not define kripto_" #N "\n"); fflush(stdout); _exit(0); }
	API_FUNCS(X)
#undef X
}

/* ---- RNG (xoshiro256**) ---- */
uint64_t mix64(uint64_t x)
{
	x += 0x9E3779B97F4A7C15u;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9u;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBu;
	return x ^ (x >> 31);
}

void rng_seed(struct rng *r, uint64_t seed)
{
	for(int i = 0; i < 4; i++) r->s[i] = seed = mix64(seed + i);
}

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

uint64_t rnd(struct rng *r)
{
	uint64_t *s = r->s, res = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return res;
}

void rbytes(struct rng *r, void *p, size_t n)
{
	uint8_t *b = p;
	while(n >= 8) { uint64_t x = rnd(r); memcpy(b, &x, 8); b += 8; n -= 8; }
	if(n) { uint64_t x = rnd(r); memcpy(b, &x, n); }
}

void rdata(struct rng *r, void *p, size_t n)
{
	uint8_t *b = p;
	size_t i;
	static const uint16_t sp[8] = {0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x00FF, 0xFF00, 0x0100};

	switch(rn(r, 8))
	{
		case 0: memset(b, rn(r, 2) ? 0 : 0xFF, n); if(n && rn(r, 2)) b[rn(r, n)] ^= 1u << rn(r, 8); break;
		case 1: case 2:
			for(i = 0; i + 1 < n; i += 2)
			{
				uint16_t w = rn(r, 2) ? sp[rn(r, 8)] : (uint16_t)rnd(r);
				b[i] = w; b[i + 1] = w >> 8;
			}
			if(i < n) b[i] = rnd(r);
			break;
		case 3:
			for(i = 0; i < n;)
			{
				uint8_t v = rn(r, 3) ? (rn(r, 2) ? 0 : 0xFF) : (uint8_t)rnd(r);
				size_t k = 1 + rn(r, 9);
				while(k-- && i < n) b[i++] = v;
			}
			break;
		default: rbytes(r, b, n);
	}
}

/* ---- tables ---- */
const struct binfo BLOCKS[] =
{
	{"3way", 12, 12, 0}, {"anubis", 16, 40, 0}, {"aria", 16, 32, 0}, {"blowfish", 8, 56, 0},
	{"camellia", 16, 32, 0}, {"cast5", 8, 16, 0}, {"crax_s", 8, 16, 0}, {"des", 8, 24, 0},
	{"gost:cbr", 8, 32, 0}, {"gost:r34", 8, 32, 0}, {"idea", 8, 16, 0}, {"khazad", 8, 16, 0},
	{"lea", 16, 32, 0}, {"noekeon", 16, 16, 0}, {"rc2", 8, 128, 0}, {"rc5", 8, 255, 0},
	{"rc6", 16, 255, 0}, {"rectangle", 8, 16, 0}, {"rijndael128", 16, 32, 0},
	{"rijndael256", 32, 32, 0}, {"safer", 8, 16, 0}, {"safer_sk", 8, 16, 0}, {"saferpp", 16, 32, 0},
	{"seed", 16, 16, 0}, {"serpent", 16, 32, 0}, {"shacal2", 32, 64, 0}, {"simon128", 16, 32, 0},
	{"simon32", 4, 8, 0}, {"simon64", 8, 16, 0}, {"skipjack", 8, 10, 0}, {"sm4", 16, 16, 0},
	{"speck128", 16, 32, 0}, {"speck32", 4, 8, 0}, {"speck64", 8, 16, 0}, {"tea", 8, 16, 0},
	{"threefish1024", 128, 128, 16}, {"threefish256", 32, 32, 16}, {"threefish512", 64, 64, 16},
	{"trax_l", 32, 32, 16}, {"trax_m", 16, 16, 8}, {"twofish", 16, 32, 0}, {"xtea", 8, 16, 0},
	{"aes", 16, 32, 0}, {"gost:u0", 8, 32, 0}, {"gost:u1", 8, 32, 0}, {"gost:u2", 8, 32, 0}
};
const uint NBLOCKS = sizeof(BLOCKS) / sizeof(*BLOCKS);

/* cap: longest output we declare where the hash has no maximum */
const struct hinfo HASHES[] =
{
	{"blake256", 32, 64, 16, 32}, {"blake2b", 64, 128, 16, 64}, {"blake2s", 32, 64, 8, 32}, {"blake512", 64, 128, 32, 64},
	{"keccak1600", 0, 200, 0, 300}, {"keccak800", 0, 100, 0, 200}, {"md5", 16, 64, 0, 16}, {"sha1", 20, 64, 0, 20},
	{"sha2_256", 32, 64, 0, 32}, {"sha2_512", 64, 128, 0, 64}, {"sha3", 64, 200, 0, 64},
	{"skein1024", 0, 128, 0xFFFFFFFF, 400}, {"skein256", 0, 32, 0xFFFFFFFF, 200}, {"skein512", 0, 64, 0xFFFFFFFF, 300},
	{"tiger", 24, 64, 0, 24}, {"whirlpool", 64, 64, 0, 64}
};
const uint NHASHES = sizeof(HASHES) / sizeof(*HASHES);

const struct sinfo STREAMS[] =
{
	{"chacha", 32, 24}, {"salsa20", 32, 24}, {"rc4", 256, 0}, {"keccak1600", 99, 0xFFFFFFFF}, {"keccak800", 49, 0xFFFFFFFF},
	{"skein256", 0xFFFFFFFF, 0xFFFFFFFF}, {"skein512", 0xFFFFFFFF, 0xFFFFFFFF}, {"skein1024", 0xFFFFFFFF, 0xFFFFFFFF}
};
const uint NSTREAMS = sizeof(STREAMS) / sizeof(*STREAMS);

const struct minfo MACS[] =
{
	{"keccak1600", 99}, {"keccak800", 49}, {"skein256", 32}, {"skein512", 64}, {"skein1024", 128}
};
const uint NMACS = sizeof(MACS) / sizeof(*MACS);

#define FIND(TYPE, TAB, N, F) const struct TYPE *F(const char *n) { for(uint i = 0; i < N; i++) if(!strcmp(TAB[i].name, n)) return TAB + i; \
	fprintf(stderr, "no such algorithm %s\n", n); exit(3); }
FIND(binfo, BLOCKS, NBLOCKS, binfo_)
const struct binfo *binfo(const char *n) { return strncmp(n, "toy:", 4) ? binfo_(n) : toy_info(atoi(n + 4)); }
FIND(hinfo, HASHES, NHASHES, hinfo_)
const struct hinfo *hinfo(const char *n) { return strncmp(n, "toyh:", 5) ? hinfo_(n) : toyh_info(atoi(n + 5)); }
FIND(sinfo, STREAMS, NSTREAMS, sinfo_)
const struct sinfo *sinfo(const char *n) { return strncmp(n, "toys:", 5) ? sinfo_(n) : toys_info(atoi(n + 5)); }


/* seldom far more rounds than anyone uses: counts over 64 and over 255 */
uint far_rounds;	/* and, one in so many of those, more than 2^16 */
static uint many(struct rng *r, uint lo, uint hi)
{
	if(rn(r, 40)) return rr(r, lo, hi);
	return far_rounds && !rn(r, far_rounds) ? rr(r, 65530, 66000) : rr(r, 60, 300);
}

uint pick_rounds_block(struct rng *r, const struct binfo *b, uint kl)
{
	const char *n = b->name;
	uint m;

	if(rn(r, 5) < 3) return 0;
	if(!strncmp(n, "toy:", 4)) return rr(r, 1, 4);
	if(!strcmp(n, "3way")) return rr(r, 1, 11);
	if(!strcmp(n, "anubis")) return rr(r, 1, 64);
	if(!strcmp(n, "aria")) return 2 * rr(r, 1, 16);
	if(!strcmp(n, "blowfish")) return rr(r, 1, 34);
	if(!strcmp(n, "camellia") || !strcmp(n, "cast5")) return 0;
	if(!strcmp(n, "khazad")) return rr(r, 1, 8);
	if(!strcmp(n, "lea")) return 4 * rr(r, 1, 10);
	if(!strcmp(n, "noekeon")) return rr(r, 1, 33);
	if(!strcmp(n, "rectangle")) return rr(r, 1, 25);
	if(!strcmp(n, "serpent")) return 8 * rr(r, 1, 6);
	if(!strcmp(n, "shacal2")) return 8 * rr(r, 2, 15);
	if(!strncmp(n, "simon", 5)) return many(r, 4, n[5] == '3' ? 40 : n[5] == '6' ? 60 : 80);
	if(!strcmp(n, "skipjack")) return 32;
	if(!strcmp(n, "sm4")) return 4 * rr(r, 1, 8);
	if(!strncmp(n, "threefish", 9)) return 8 * many(r, 1, 14);
	if(!strcmp(n, "twofish")) return 2 * rr(r, 1, 12);
	if(!strncmp(n, "gost", 4)) { m = (kl + 3) / 4 * 2; return m + 2 * rn(r, 24); }
	m = many(r, 1, rn(r, 3) ? 24 : 72);
	return m;
}

uint pick_rounds_hash(struct rng *r, const struct hinfo *h)
{
	if(rn(r, 5) < 3) return 0;
	if(!strncmp(h->name, "toyh:", 5)) return rr(r, 1, 4);
	if(!strncmp(h->name, "blake", 5)) return many(r, 1, 30);
	if(!strcmp(h->name, "keccak800")) return rr(r, 1, 40);
	if(!strcmp(h->name, "keccak1600") || !strcmp(h->name, "sha3")) return rr(r, 1, 48);
	if(!strncmp(h->name, "skein", 5)) return 8 * many(r, 1, 12);
	if(!strcmp(h->name, "whirlpool")) return rr(r, 1, 9);
	if(!strcmp(h->name, "tiger")) return many(r, 1, 9);
	if(!strcmp(h->name, "sha2_256")) return 16 + 8 * rn(r, rn(r, 3) ? 7 : 15);
	if(!strcmp(h->name, "sha2_512")) return 16 + 8 * rn(r, rn(r, 3) ? 9 : 19);
	return 0;
}

uint pick_rounds_stream(struct rng *r, const struct sinfo *s)
{
	if(rn(r, 5) < 3) return 0;
	if(!strncmp(s->name, "toys:", 5)) return rr(r, 1, 8);
	if(!strcmp(s->name, "keccak800")) return rr(r, 1, 40);
	if(!strcmp(s->name, "keccak1600")) return rr(r, 1, 48);
	if(!strncmp(s->name, "skein", 5)) return 8 * many(r, 1, 12);
	if(!strcmp(s->name, "rc4")) return rn(r, 3) ? rn(r, 2000) : 0;
	return many(r, 1, 30);
}

uint pick_keylen(struct rng *r, uint max)
{
	if(max > 300) return rn(r, 4) ? rr(r, 1, 140) : rr(r, 1, 300);
	switch(rn(r, 6))
	{
		case 0: return max;
		case 1: return rr(r, 1, max < 4 ? max : 4);
		case 2: { uint k = 8 * rr(r, 1, max / 8 ? max / 8 : 1); return k > max ? max : k; }
		case 3: { uint k = 16; return k > max ? max : k; }
		default: return rr(r, 1, max);
	}
}

uint pick_ivlen(struct rng *r, uint max)
{
	if(!max) return 0;
	if(max > 300) return rn(r, 3) ? rn(r, 70) : rn(r, 300);
	switch(rn(r, 5))
	{
		case 0: return 0;
		case 1: case 2: return max;
		default: return rn(r, max + 1);
	}
}

size_t pick_len(struct rng *r, uint unit)
{
	static const uint u[] = {4, 8, 12, 16, 32, 64, 72, 100, 128, 136, 144, 200};
	switch(rn(r, 8))
	{
		case 0: return rn(r, 4);
		case 1: case 2: { size_t n = (size_t)unit * rn(r, 5) + rn(r, 5); return n >= 2 ? n - 2 : n; }
		case 3: { size_t n = (size_t)u[rn(r, 12)] * rr(r, 1, 4) + rn(r, 5); return n - 2; }
		case 4: return rn(r, 40);
		case 5: return rn(r, 300);
		case 6: return rn(r, 700);
		default: return rn(r, rn(r, 10) ? 300 : 5000);
	}
}

/* ---- descriptors ---- */
static const void *sym(const struct api *a, const char *fmt, const char *n)
{
	char s[128];
	void *p;
	snprintf(s, sizeof s, fmt, n);
	if(is_ilp32(a) && (p = (void *)ilp32_sym(s))) return p;
	p = is_ilp32(a) ? 0 : dlsym(a->h, s);
	if(!p) { viol("api-missing", "the library does not define %s", s); fflush(stdout); _exit(0); }
	return *(const void **)p;
}

static int args(const char *spec, const char *fn, char *out, size_t n)
{
	size_t l = strlen(fn);
	if(strncmp(spec, fn, l) || spec[l] != '(') return 0;
	snprintf(out, n, "%s", spec + l + 1);
	out[strlen(out) - 1] = 0;
	return 1;
}

static void *keep(struct descs *d, void *p)
{
	if(!p) { viol("api-null", "descriptor creation returned NULL outside fault injection"); fflush(stdout); _exit(0); }
	if(d->n == 64) { fprintf(stderr, "too many descriptors\n"); exit(3); }
	d->v[d->n++] = p;
	return p;
}

/* GOST with boxes of the user's own: permutations, any functions, one row unlike the others.
 * They lie in a page that cannot be written. */
#include <sys/mman.h>
static unsigned char (*gost_box)[8][16];

static void __attribute__((constructor)) gost_make(void)
{
	struct rng r;
	rng_seed(&r, 0x60575);
	gost_box = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if(gost_box == MAP_FAILED) exit(3);
	for(int k = 0; k < 3; k++) for(int i = 0; i < 8; i++) for(int j = 0; j < 16; j++)
	{
		int o = rn(&r, j + 1);
		if(k == 0) { gost_box[k][i][j] = gost_box[k][i][o]; gost_box[k][i][o] = j; }
		else if(k == 1) gost_box[k][i][j] = rn(&r, 16);
		else gost_box[k][i][j] = i == 5 ? 15 - j : j;
	}
	mprotect(gost_box, 4096, PROT_READ);
}

const kripto_desc_block *mk_block(const struct api *a, const char *spec, struct descs *d)
{
	if(!strcmp(spec, "gost:cbr")) return keep(d, a->block_gost_cbr());
	if(!strcmp(spec, "gost:r34")) return keep(d, a->block_gost_r34_12_2015());
	if(!strncmp(spec, "gost:u", 6)) return keep(d, a->block_gost((const unsigned char (*)[16])gost_box[spec[6] - '0']));
	if(!strncmp(spec, "toy:", 4)) return toy_desc(spec);
	return sym(a, "kripto_block_%s", spec);
}

const kripto_desc_stream *mk_stream(const struct api *a, const char *spec, struct descs *d)
{
	char b[128];
	if(args(spec, "cbc", b, sizeof b)) return keep(d, a->stream_cbc(mk_block(a, b, d)));
	if(args(spec, "cfb", b, sizeof b)) return keep(d, a->stream_cfb(mk_block(a, b, d)));
	if(args(spec, "ctr", b, sizeof b)) return keep(d, a->stream_ctr(mk_block(a, b, d)));
	if(args(spec, "ecb", b, sizeof b)) return keep(d, a->stream_ecb(mk_block(a, b, d)));
	if(args(spec, "ofb", b, sizeof b)) return keep(d, a->stream_ofb(mk_block(a, b, d)));
	if(!strncmp(spec, "toys:", 5)) return toys_desc(spec);
	return sym(a, "kripto_stream_%s", spec);
}

const kripto_desc_hash *mk_hash(const struct api *a, const char *spec)
{
	if(!strncmp(spec, "toyh:", 5)) return toyh_desc(spec);
	return sym(a, "kripto_hash_%s", spec);
}

const kripto_desc_mac *mk_mac(const struct api *a, const char *spec, struct descs *d)
{
	char b[128];
	if(args(spec, "hmac", b, sizeof b)) return keep(d, a->mac_hmac(mk_hash(a, b)));
	if(args(spec, "omac", b, sizeof b)) return keep(d, a->mac_omac(mk_block(a, b, d)));
	if(args(spec, "xcbc", b, sizeof b)) return keep(d, a->mac_xcbc(mk_block(a, b, d)));
	if(!strncmp(spec, "toym:", 5)) return toym_desc(spec);
	return sym(a, "kripto_mac_%s", spec);
}

const kripto_desc_ae *mk_ae(const struct api *a, const char *spec, struct descs *d)
{
	char b[256], *c;
	if(args(spec, "eax", b, sizeof b)) return keep(d, a->ae_eax(mk_block(a, b, d)));
	if(args(spec, "eax2", b, sizeof b))
	{
		int depth = 0;
		for(c = b; *c && !(*c == ',' && !depth); c++) depth += (*c == '(') - (*c == ')');
		*c++ = 0;
		const kripto_desc_stream *s = mk_stream(a, b, d);
		const kripto_desc_mac *m = mk_mac(a, c, d);
		return keep(d, a->ae_eax2(s, m));
	}
	fprintf(stderr, "bad ae spec %s\n", spec);
	exit(3);
}

void free_descs(struct descs *d)
{
	while(d->n) { d->n--; if(!ilp32_free(d->v[d->n])) kv_free(d->v[d->n]); }
}

/* ---- random specs ---- */
static int allowed(const char *name) { return !cfg.only || strstr(name, cfg.only); }

int no_toys;	/* the library's own algorithms only */
static const char *const MODES[] = {"cbc", "cfb", "ctr", "ecb", "ofb"};

static const struct binfo *pick_b(struct rng *r) { return rn(r, 10) || no_toys ? BLOCKS + rn(r, NBLOCKS) : toy_info(rn(r, 3) ? rr(r, 1, 255) : rr(r, 1, 20)); }

void pick_stream(struct rng *r, struct sspec *o, int modes, int natives)
{
	for(int tries = 0; ; tries++)
	{
		memset(o, 0, sizeof *o);
		if(natives && (!modes || rn(r, 2)))
		{
			o->s = STREAMS + rn(r, NSTREAMS);
			snprintf(o->name, sizeof o->name, "%s", o->s->name);
			o->mk = o->s->mk; o->miv = o->s->miv; o->multof = 1; o->prng = 1;
		}
		else
		{
			o->b = pick_b(r);
			o->mode = MODES[rn(r, 5)];
			snprintf(o->name, sizeof o->name, "%s(%s)", o->mode, o->b->name);
			o->mk = o->b->mk;
			o->miv = o->b->bs;
			o->multof = (o->mode[0] == 'e' || !strcmp(o->mode, "cbc")) ? o->b->bs : 1;
			o->prng = o->mode[0] != 'e' && strcmp(o->mode, "cbc");
			if(o->mode[0] == 'e') o->miv = 0;
		}
		if(allowed(o->name) || tries > 5000) return;
	}
}

uint rounds_stream(struct rng *r, const struct sspec *s, uint kl)
{
	return s->b ? pick_rounds_block(r, s->b, kl) : pick_rounds_stream(r, s->s);
}

void pick_mac(struct rng *r, struct mspec *o)
{
	for(int tries = 0; ; tries++)
	{
		memset(o, 0, sizeof *o);
		switch(rn(r, 8))
		{
			case 0: case 1: case 2:
				o->kind = "hmac"; o->h = rn(r, 8) || no_toys ? HASHES + rn(r, NHASHES) : toyh_info(rn(r, toy_count()));
				snprintf(o->name, sizeof o->name, "hmac(%s)", o->h->name);
				o->maxtag = o->h->maxout; o->mk = 0xFFFFFFFF;
				break;
			case 3: case 4:
				o->kind = "omac"; o->b = pick_b(r);
				snprintf(o->name, sizeof o->name, "omac(%s)", o->b->name);
				o->maxtag = o->b->bs; o->mk = o->b->mk;
				break;
			case 5: case 6:
				o->kind = "xcbc"; o->b = pick_b(r);
				snprintf(o->name, sizeof o->name, "xcbc(%s)", o->b->name);
				o->maxtag = o->b->bs; o->mk = o->b->mk;
				break;
			default:
			{
				const struct minfo *m = MACS + rn(r, NMACS);
				o->kind = m->name[0] == 'k' ? "keccak" : "skein";
				snprintf(o->name, sizeof o->name, "%s", m->name);
				o->maxtag = m->maxtag; o->mk = 0xFFFFFFFF;
			}
		}
		if(allowed(o->name) || tries > 5000) return;
	}
}

uint rounds_mac(struct rng *r, const struct mspec *m, uint kl)
{
	if(m->b)
	{
		uint x = pick_rounds_block(r, m->b, kl);
		/* XCBC rekeys with a block-sized key at the same number of rounds */
		if(m->kind[0] == 'x' && x && !strncmp(m->b->name, "gost", 4) && x < (m->b->bs + 3) / 4 * 2) x = 0;
		return x;
	}
	if(m->h) return pick_rounds_hash(r, m->h);
	if(!strncmp(m->name, "toym:", 5)) return rn(r, 5);
	if(!strcmp(m->name, "keccak800")) return rn(r, 2) ? 0 : rr(r, 1, 40);
	if(!strcmp(m->name, "keccak1600")) return rn(r, 2) ? 0 : rr(r, 1, 48);
	return rn(r, 2) ? 0 : 8 * many(r, 1, 12);
}

uint taglen_mac(struct rng *r, const struct mspec *m)
{
	uint mx = m->maxtag ? m->maxtag : m->h->cap;
	if(m->maxtag && rn(r, 2)) return mx;
	return rr(r, 1, mx);
}

int mac_partial_ok(const struct mspec *m) { return m->kind[0] != 'h'; }

/* MACs of the user's own occur only inside constructions */
void mac_toy(struct rng *r, struct mspec *o)
{
	uint i = rn(r, toy_count());
	memset(o, 0, sizeof *o);
	o->kind = "toy";
	snprintf(o->name, sizeof o->name, "%s", toym_info(i)->name);
	o->maxtag = toym_info(i)->maxtag; o->mk = toym_maxkey(i);
}

void pick_ae(struct rng *r, struct aspec *o)
{
	for(int tries = 0; ; tries++)
	{
		memset(o, 0, sizeof *o);
		if(rn(r, 2))
		{
			o->b = pick_b(r);
			snprintf(o->name, sizeof o->name, "eax(%s)", o->b->name);
			o->mk = o->b->mk; o->miv = o->maxtag = o->b->bs; o->multof = 1;
		}
		else
		{
			const char *only = cfg.only;
			cfg.only = 0;
			pick_stream(r, &o->s, 1, 1);
			if(rn(r, 6) == 0 && !no_toys)
			{
				uint i = rn(r, toy_count());
				memset(&o->s, 0, sizeof o->s);
				o->s.s = toys_info(i);
				snprintf(o->s.name, sizeof o->s.name, "%s", o->s.s->name);
				o->s.mk = o->s.s->mk; o->s.miv = o->s.s->miv;
				o->s.multof = toys_unit(i);
				o->s.prng = o->s.multof == 1;
			}
			/* a MAC without a maximum tag leaves EAX2 a maximum of 0 */
			do if(rn(r, 6) || no_toys) pick_mac(r, &o->m); else mac_toy(r, &o->m); while(!o->m.maxtag);
			cfg.only = only;
			o->eax2 = 1;
			snprintf(o->name, sizeof o->name, "eax2(%s,%s)", o->s.name, o->m.name);
			o->maxtag = o->m.maxtag;
			o->miv = o->s.miv;
			o->mk = o->m.mk > 0xFFFFFFFF - o->s.mk ? 0xFFFFFFFF : o->s.mk + o->m.mk;
			o->multof = o->s.multof;
		}
		if(allowed(o->name) || tries > 5000) return;
	}
}

uint keylen_ae(struct rng *r, const struct aspec *a)
{
	uint k, s, m;
	if(!a->eax2) return pick_keylen(r, a->mk);
	do
	{
		k = 1 + pick_keylen(r, a->mk > 300 ? 300 : a->mk - 1);
		/* the key is split in two: both halves must be valid */
		s = (k + 1) / 2; if(s > a->s.mk) s = a->s.mk;
		m = k - s;
	} while(!m || m > a->m.mk);
	return k;
}

uint rounds_ae(struct rng *r, const struct aspec *a, uint kl)
{
	if(!a->eax2) return pick_rounds_block(r, a->b, kl);
	/* one rounds argument for two algorithms: a number both accept, if there is one */
	uint x[40], i, j, s, y;
	if(rn(r, 2)) return 0;
	s = (kl + 1) / 2; if(s > a->s.mk) s = a->s.mk;
	for(i = 0; i < 40; i++) x[i] = rounds_stream(r, &a->s, s);
	for(i = 0; i < 40; i++)
	{
		y = rounds_mac(r, &a->m, kl - s);
		for(j = 0; y && j < 40; j++) if(x[j] == y) return y;
	}
	return 0;
}

uint taglen_ae(struct rng *r, const struct aspec *a)
{
	return rn(r, 2) ? a->maxtag : rr(r, 1, a->maxtag);
}

/* ---- reporting ---- */
static char *progress;	/* shared with the runner through a file */
static long cur_case;
static const char *cur_mode = "";
#define NSTAT 256
static struct { char n[48]; long v; } st[NSTAT];
static int nst;
static uint64_t *dset; static size_t dcap, dn;
static int nviol;
static struct { char k[96]; int n; } vk[64];
static int nvk, nsample;

void case_begin(long n, const char *mode)
{
	cur_case = n;
	cur_mode = mode;
	if(progress) snprintf(progress, 4096, "case %ld of %s", n, mode);
	/* watchdog in CPU time: a case normally takes milliseconds */
	struct itimerval it = {{0, 0}, {strncmp(mode, "huge", 4) && !strstr(mode, "long") ? 120 : 360, 0}};
	setitimer(ITIMER_PROF, &it, 0);
}

void note(const char *fmt, ...)
{
	va_list ap;
	char b[3000];
	if(!progress) return;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	snprintf(progress, 4096, "case %ld of %s: %s", cur_case, cur_mode, b);
}

void viol(const char *key, const char *fmt, ...)
{
	va_list ap;
	int i;
	for(i = 0; i < nvk && strcmp(vk[i].k, key); i++);
	if(i == nvk && nvk < 64) { snprintf(vk[nvk].k, sizeof vk[0].k, "%s", key); vk[nvk++].n = 0; }
	if(i < 64 && vk[i].n++ >= 3) return;
	printf("VIOL\t%s\tcase %ld of %s: ", key, cur_case, cur_mode);
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
	fflush(stdout);
	nviol++;
}

void stat_add(const char *name, long n)
{
	int i;
	for(i = 0; i < nst && strcmp(st[i].n, name); i++);
	if(i == nst) { if(nst == NSTAT) return; snprintf(st[nst].n, sizeof st[0].n, "%s", name); nst++; }
	st[i].v += n;
}

void distinct_h(uint64_t h)
{
	if(!h) h = 1;
	if((dn + 1) * 2 > dcap)
	{
		size_t oc = dcap, i;
		uint64_t *o = dset;
		dcap = dcap ? dcap * 2 : 4096;
		dset = calloc(dcap, 8);
		dn = 0;
		for(i = 0; i < oc; i++) if(o[i]) distinct_h(o[i]);
		free(o);
	}
	size_t i = mix64(h) & (dcap - 1);
	while(dset[i] && dset[i] != h) i = (i + 1) & (dcap - 1);
	if(!dset[i]) { dset[i] = h; dn++; }
}

uint64_t hash_bytes(const void *p, size_t n, uint64_t h)
{
	const uint8_t *b = p;
	for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001B3u;
	return mix64(h);
}

void distinct(const char *fmt, ...)
{
	va_list ap;
	char b[1024];
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	distinct_h(hash_bytes(b, n > 1023 ? 1023 : n, 77));
	if(nsample < 3 && (cur_case % 7) == 0) { nsample++; printf("SAMPLE\t%s\n", b); }
}

void sample(const char *fmt, ...)
{
	va_list ap;
	printf("SAMPLE\t");
	va_start(ap, fmt);
	vprintf(fmt, ap);
	va_end(ap);
	printf("\n");
}

const char *hex(const void *p, size_t n)
{
	static char b[8][200];
	static int k;
	char *o = b[k = (k + 1) & 7];
	size_t i;
	for(i = 0; i < n && i < 80; i++) sprintf(o + 2 * i, "%02x", ((const uint8_t *)p)[i]);
	if(i < n) strcpy(o + 2 * i, "..."); else o[2 * i] = 0;
	return o;
}

#if defined(__SANITIZE_ADDRESS__)
#define EXACT 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EXACT 1
#endif
#endif
#ifdef EXACT
#include <sanitizer/asan_interface.h>
#endif

void buf_new(struct rng *r, struct buf *b, size_t n)
{
	b->off = rn(r, 2) ? 0 : rn(r, 16);
	b->n = n;
#ifdef EXACT
	b->total = b->off + n;
	b->base = malloc(b->total ? b->total : 1);
	b->p = b->base + b->off;
	ASAN_POISON_MEMORY_REGION(b->base, b->off & ~7u);
	if(!n) ASAN_POISON_MEMORY_REGION(b->base, b->total ? b->total : 1);
#else
	b->total = 32 + b->off + n + 48;
	b->base = malloc(b->total);
	b->p = b->base + 32 + b->off;
	memset(b->base, 0xA5, 32 + b->off);
	memset(b->p + n, 0x5A, 48);
#endif
}

int buf_ok(const struct buf *b)
{
#ifndef EXACT
	for(size_t i = 0; i < 32 + b->off; i++) if(b->base[i] != 0xA5) return 0;
	for(size_t i = 0; i < 48; i++) if(b->p[b->n + i] != 0x5A) return 0;
#endif
	return 1;
}

void buf_free(struct buf *b)
{
#ifdef EXACT
	ASAN_UNPOISON_MEMORY_REGION(b->base, b->total ? b->total : 1);
#endif
	free(b->base);
	b->base = 0;
}

static void on_hang(int sig)
{
	(void)sig;
	const char m[] = "VIOL\thang\tone case does not end (a hundred times the CPU time of any case): ";
	if(write(1, m, sizeof m - 1) < 0) {}
	if(progress && write(1, progress, strlen(progress)) < 0) {}
	if(write(1, "\n", 1) < 0) {}
	_exit(0);
}

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#include "ops.h"
static void check_init(const void *p, size_t n) { __msan_check_mem_is_initialized(p, n); }
#endif
#endif

/* ---- main ---- */
extern const struct mode MODES_TAB[];

int main(int argc, char **argv)
{
	const char *mode = argc > 1 ? argv[1] : "", *hashes = 0, *prog = 0;
	int i;

	cfg.count = 1; cfg.nshard = 1; cfg.quick = 1;
	for(i = 2; i + 1 < argc; i += 2)
	{
		const char *o = argv[i], *v = argv[i + 1];
		if(!strcmp(o, "--lib")) cfg.lib = v;
		else if(!strcmp(o, "--also")) cfg.libs[cfg.nlibs++] = v;
		else if(!strcmp(o, "--gold")) cfg.gold = v;
		else if(!strcmp(o, "--seed")) cfg.seed = strtoull(v, 0, 0);
		else if(!strcmp(o, "--first")) cfg.first = atol(v);
		else if(!strcmp(o, "--count")) cfg.count = atol(v);
		else if(!strcmp(o, "--shard")) cfg.shard = atoi(v);
		else if(!strcmp(o, "--nshard")) cfg.nshard = atoi(v);
		else if(!strcmp(o, "--only")) cfg.only = v;
		else if(!strcmp(o, "--tmp")) cfg.tmp = v;
		else if(!strcmp(o, "--tier")) cfg.quick = strcmp(v, "thorough") != 0;
		else if(!strcmp(o, "--hashes")) hashes = v;
		else if(!strcmp(o, "--progress")) prog = v;
		else { fprintf(stderr, "bad option %s\n", o); return 3; }
	}
	if(prog)
	{
		int fd = open(prog, O_RDWR | O_CREAT | O_TRUNC, 0600);
		if(fd < 0 || ftruncate(fd, 4096)) return 3;
		progress = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		close(fd);
		if(progress == MAP_FAILED) return 3;
	}
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
	ops_out = check_init;
#endif
#endif
	signal(SIGPROF, on_hang);
	setvbuf(stdout, 0, _IOLBF, 0);
	if(cfg.lib) api_load(&T, cfg.lib);
	if(cfg.gold) api_load(&G, cfg.gold);
	for(i = 0; MODES_TAB[i].name && strcmp(MODES_TAB[i].name, mode); i++);
	if(!MODES_TAB[i].name) { fprintf(stderr, "no mode %s\n", mode); return 3; }
	const struct mode *m = MODES_TAB + i;
	if(m->init) m->init();
	for(long n = cfg.first; n < cfg.first + cfg.count && nviol < 12; n++)
	{
		struct rng r;
		if(n % cfg.nshard != cfg.shard) continue;
		rng_seed(&r, mix64(cfg.seed) ^ mix64(hash_bytes(mode, strlen(mode), 1) + (uint64_t)n * 0x9E3779B97F4A7C15u));
		case_begin(n, mode);
		m->fn(&r, n);
		stat_add("cases", 1);
	}
	for(i = 0; i < nst; i++) printf("STAT\t%s\t%ld\n", st[i].n, st[i].v);
	if(hashes)
	{
		FILE *f = fopen(hashes, "wb");
		if(!f) return 3;
		for(size_t k = 0; k < dcap; k++) if(dset[k]) fwrite(dset + k, 8, 1, f);
		fclose(f);
	}
	printf("DONE\n");
	return 0;
}
