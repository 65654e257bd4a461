/* Block ciphers of the user's own, of every block size from 1 to 255 bytes: modes, OMAC,
 * XCBC, EAX and EAX2 take any descriptor. They also watch how they are used. */
#include "kv.h"
#include "alloc.h"
#include <kripto/desc/block.h>
#include <kripto/desc/hash.h>
#include <kripto/desc/mac.h>
#include <kripto/desc/stream.h>

struct toy { const kripto_desc_block *desc; uint32_t magic; uint bs, rounds; uint8_t k[32]; };
#define LIVE 0x70790A11u
#define DEAD 0xDEADBEEFu

static long live;
long toy_live(void) { return __atomic_load_n(&live, __ATOMIC_SEQ_CST); }

static void check(const kripto_block *o, const char *what)
{
	const struct toy *s = (const void *)o;
	if(!s) { viol("toy-use", "%s of a null block cipher", what); exit(0); }
	if(s->magic != LIVE) { viol("toy-use", "%s of a block cipher that was destroyed", what); exit(0); }
}

static void setkey(struct toy *s, uint rounds, const void *key, uint n)
{
	const uint8_t *k = key;
	uint64_t h = mix64(n);
	s->rounds = rounds ? rounds : 2;
	for(uint i = 0; i < n; i++) h = mix64(h ^ k[i]);
	for(uint i = 0; i < 4; i++) { h = mix64(h); memcpy(s->k + 8 * i, &h, 8); }
}

static kripto_block *t_create(const kripto_desc_block *d, uint rounds, const void *key, uint n)
{
	struct toy *s = kv_malloc(sizeof *s);
	if(!key || !n || n > d->maxkey) viol("toy-use", "block cipher created with a key of %u bytes", n);
	if(!s) return 0;
	memset(s, 0, sizeof *s);
	s->desc = d; s->magic = LIVE; s->bs = d->blocksize;
	setkey(s, rounds, key, n);
	__atomic_fetch_add(&live, 1, __ATOMIC_SEQ_CST);
	return (kripto_block *)s;
}

static void t_destroy(kripto_block *o)
{
	struct toy *s = (void *)o;
	check(o, "destruction");
	s->magic = DEAD;
	__atomic_fetch_sub(&live, 1, __ATOMIC_SEQ_CST);
	memset(s->k, 0, sizeof s->k);
	kv_free(s);
}

/* moves when the rounds change, and is gone when that fails, as in the library */
static kripto_block *t_recreate(kripto_block *o, uint rounds, const void *key, uint n)
{
	struct toy *s = (void *)o;
	check(o, "recreation");
	if(!key || !n || n > s->desc->maxkey) viol("toy-use", "block cipher recreated with a key of %u bytes", n);
	if(s->rounds != (rounds ? rounds : 2))
	{
		const kripto_desc_block *d = s->desc;
		t_destroy(o);
		return t_create(d, rounds, key, n);
	}
	setkey(s, rounds, key, n);
	return o;
}

/* unbalanced Feistel network; single bytes are multiplied and turned */
static void half(const struct toy *s, uint r, const uint8_t *from, uint n, uint8_t *to, uint m)
{
	uint64_t h = mix64(s->k[r & 31] * 256 + r), w;
	uint i;
	for(i = 0; i < 4; i++) { memcpy(&w, s->k + 8 * i, 8); h = mix64(h ^ w); }
	for(i = 0; i < n; i++) h = (h ^ from[i]) * 0x9E3779B97F4A7C15u, h ^= h >> 29;
	for(i = 0; i < m; i++) { if(i % 8 == 0) h = mix64(h + 1); to[i] ^= h >> 8 * (i % 8); }
}

static void t_encrypt(const kripto_block *o, const void *in, void *out)
{
	const struct toy *s = (const void *)o;
	uint8_t b[256];
	uint n = s->bs, h = n / 2, r;
	check(o, "encryption");
	memcpy(b, in, n);
	for(r = 0; r < 2 * s->rounds; r++)
	{
		if(n == 1) { b[0] = (b[0] ^ s->k[r & 31]) * 167 + 13; b[0] = b[0] << 3 | b[0] >> 5; }
		else if(r & 1) half(s, r, b, h, b + h, n - h);
		else half(s, r, b + h, n - h, b, h);
	}
	memcpy(out, b, n);
}

static void t_decrypt(const kripto_block *o, const void *in, void *out)
{
	const struct toy *s = (const void *)o;
	uint8_t b[256];
	uint n = s->bs, h = n / 2, r;
	check(o, "decryption");
	memcpy(b, in, n);
	for(r = 2 * s->rounds; r--;)
	{
		if(n == 1) { b[0] = b[0] >> 3 | b[0] << 5; b[0] = (uint8_t)((b[0] - 13) * 23) ^ s->k[r & 31]; }
		else if(r & 1) half(s, r, b, h, b + h, n - h);
		else half(s, r, b + h, n - h, b, h);
	}
	memcpy(out, b, n);
}

static void t_tweak(kripto_block *o, const void *p, uint n) { (void)p; (void)n; check(o, "tweak"); viol("toy-use", "tweak set by a mode"); }

static kripto_desc_block desc[256];
static struct binfo info[256];
static char names[256][8];

static void __attribute__((constructor)) init(void)
{
	for(uint i = 1; i < 256; i++)
	{
		kripto_desc_block *d = desc + i;
		d->create = t_create; d->recreate = t_recreate; d->tweak = t_tweak;
		d->encrypt = t_encrypt; d->decrypt = t_decrypt; d->destroy = t_destroy;
		d->blocksize = i; d->maxkey = 255; d->maxtweak = 0;
		snprintf(names[i], sizeof names[i], "toy:%u", i);
		struct binfo b = {names[i], i, 255, 0};
		info[i] = b;
	}
}

const kripto_desc_block *toy_desc(const char *spec) { return desc + atoi(spec + 4); }
const struct binfo *toy_info(uint bs) { return info + bs; }

/* Hashes, MACs and stream ciphers of the user's own, for the constructions that take any. */
struct absorb { uint64_t st[4]; uint64_t n; };

static void ab_init(struct absorb *a, uint64_t x)
{
	a->n = 0;
	for(uint i = 0; i < 4; i++) a->st[i] = x = mix64(x + i);
}

static void ab_in(struct absorb *a, const void *in, size_t len)
{
	const uint8_t *p = in;
	for(size_t i = 0; i < len; i++, a->n++)
	{
		a->st[0] = (a->st[0] ^ p[i]) * 0x9E3779B97F4A7C15u;
		a->st[1] ^= a->st[0] >> 31;
		a->st[2] = (a->st[2] + a->st[1]) * 0xD1B54A32D192ED03u;
		a->st[3] += a->st[2] ^ a->st[2] >> 29;
		a->st[0] ^= a->st[3] >> 33;
	}
}

static uint8_t ab_out(const struct absorb *a, uint64_t pos)
{
	uint64_t h = mix64(a->st[0] ^ a->n);
	for(uint i = 1; i < 4; i++) h = mix64(h ^ a->st[i]);
	return mix64(h + pos / 8) >> 8 * (pos % 8);
}

static void need(const void *o, uint32_t magic, const char *what)
{
	if(!o) { viol("toy-use", "%s: null object", what); exit(0); }
	if(magic != LIVE) { viol("toy-use", "%s: the object was destroyed", what); exit(0); }
}

struct toyh { const kripto_desc_hash *desc; uint32_t magic; uint rounds, outlen; int out; uint64_t pos; struct absorb a; };

static void h_setup(struct toyh *s, uint rounds, const void *salt, uint n, uint outlen)
{
	s->rounds = rounds ? rounds : 2;
	s->outlen = outlen; s->out = 0; s->pos = 0;
	ab_init(&s->a, s->rounds * 1000 + outlen);
	ab_in(&s->a, salt, n);
}

static kripto_hash *h_create(const kripto_desc_hash *d, uint rounds, const void *salt, uint n, uint outlen)
{
	struct toyh *s = kv_malloc(sizeof *s);
	if(!s) return 0;
	memset(s, 0, sizeof *s);
	s->desc = d; s->magic = LIVE;
	if(n > d->maxsalt || (d->maxout && outlen > d->maxout)) viol("toy-use", "hash created with a salt of %u and an output of %u bytes", n, outlen);
	h_setup(s, rounds, salt, n, outlen);
	return (kripto_hash *)s;
}

static void h_destroy(kripto_hash *o)
{
	struct toyh *s = (void *)o;
	need(s, s ? s->magic : 0, "hash destruction");
	memset(s, 0, sizeof *s);
	s->magic = DEAD;
	kv_free(s);
}

static kripto_hash *h_recreate(kripto_hash *o, uint rounds, const void *salt, uint n, uint outlen)
{
	struct toyh *s = (void *)o;
	need(s, s ? s->magic : 0, "hash recreation");
	if((rounds ? rounds : 2) != s->rounds)
	{
		const kripto_desc_hash *d = s->desc;
		h_destroy(o);
		return h_create(d, rounds, salt, n, outlen);
	}
	if(n > s->desc->maxsalt || (s->desc->maxout && outlen > s->desc->maxout)) viol("toy-use", "hash recreated with a salt of %u and an output of %u bytes", n, outlen);
	h_setup(s, rounds, salt, n, outlen);
	return o;
}

static void h_input(kripto_hash *o, const void *in, size_t len)
{
	struct toyh *s = (void *)o;
	need(s, s ? s->magic : 0, "hash input");
	if(s->out) viol("toy-use", "hash input after output");
	ab_in(&s->a, in, len);
}

static void h_output(kripto_hash *o, void *out, size_t len)
{
	struct toyh *s = (void *)o;
	need(s, s ? s->magic : 0, "hash output");
	if(s->pos + len > s->outlen && s->desc->maxout) viol("toy-use", "%zu bytes read of a hash of %u bytes", (size_t)s->pos + len, s->outlen);
	s->out = 1;
	for(size_t i = 0; i < len; i++) ((uint8_t *)out)[i] = ab_out(&s->a, s->pos++);
}

static int h_all(const kripto_desc_hash *d, uint rounds, const void *salt, uint sn, const void *in, size_t n, void *out, size_t on)
{
	struct toyh *s = (void *)h_create(d, rounds, salt, sn, on);
	if(!s) return -1;
	h_input((kripto_hash *)s, in, n);
	h_output((kripto_hash *)s, out, on);
	h_destroy((kripto_hash *)s);
	return 0;
}

/* a MAC that moves at every recreation */
struct toym { const kripto_desc_mac *desc; uint32_t magic; uint rounds, taglen; int out; struct absorb a; };

static kripto_mac *m_create(const kripto_desc_mac *d, uint rounds, const void *key, uint n, uint taglen)
{
	struct toym *s = kv_malloc(sizeof *s);
	if(!key || !n || n > d->maxkey || taglen > d->maxtag) viol("toy-use", "MAC created with a key of %u and a tag of %u bytes", n, taglen);
	if(!s) return 0;
	memset(s, 0, sizeof *s);
	s->desc = d; s->magic = LIVE; s->taglen = taglen; s->rounds = rounds;
	ab_init(&s->a, taglen * 77777 + n * 5 + rounds);
	ab_in(&s->a, key, n);
	return (kripto_mac *)s;
}

static void m_destroy(kripto_mac *o)
{
	struct toym *s = (void *)o;
	need(s, s ? s->magic : 0, "MAC destruction");
	memset(s, 0, sizeof *s);
	s->magic = DEAD;
	kv_free(s);
}

static kripto_mac *m_recreate(kripto_mac *o, uint rounds, const void *key, uint n, uint taglen)
{
	struct toym *s = (void *)o;
	need(s, s ? s->magic : 0, "MAC recreation");
	const kripto_desc_mac *d = s->desc;
	m_destroy(o);
	return m_create(d, rounds, key, n, taglen);
}

static void m_input(kripto_mac *o, const void *in, size_t len)
{
	struct toym *s = (void *)o;
	need(s, s ? s->magic : 0, "MAC input");
	if(s->out) viol("toy-use", "MAC input after the tag");
	ab_in(&s->a, in, len);
}

static void m_tag(kripto_mac *o, void *tag, uint len)
{
	struct toym *s = (void *)o;
	need(s, s ? s->magic : 0, "MAC tag");
	if(len > s->taglen) viol("toy-use", "tag of %u bytes of a MAC made for %u", len, s->taglen);
	s->out = 1;
	for(uint i = 0; i < len; i++) ((uint8_t *)tag)[i] = ab_out(&s->a, i);
}

/* a stream cipher that moves at every recreation and takes whole units only */
struct toys { const kripto_desc_stream *desc; uint multof; uint32_t magic; uint64_t pos; struct absorb a; };
static uint unit_of(const kripto_desc_stream *d);

static kripto_stream *s_create(const kripto_desc_stream *d, uint rounds, const void *key, uint n, const void *iv, uint in)
{
	struct toys *s = kv_malloc(sizeof *s);
	if(!key || !n || n > d->maxkey || in > d->maxiv) viol("toy-use", "stream created with a key of %u and an IV of %u bytes", n, in);
	if(!s) return 0;
	memset(s, 0, sizeof *s);
	s->desc = d; s->magic = LIVE; s->multof = unit_of(d);
	ab_init(&s->a, n * 1000003 + in * 1009 + rounds);
	ab_in(&s->a, key, n);
	ab_in(&s->a, iv, in);
	return (kripto_stream *)s;
}

static void s_destroy(kripto_stream *o)
{
	struct toys *s = (void *)o;
	need(s, s ? s->magic : 0, "stream destruction");
	memset(s, 0, sizeof *s);
	s->magic = DEAD;
	kv_free(s);
}

static kripto_stream *s_recreate(kripto_stream *o, uint rounds, const void *key, uint n, const void *iv, uint in)
{
	struct toys *s = (void *)o;
	need(s, s ? s->magic : 0, "stream recreation");
	const kripto_desc_stream *d = s->desc;
	s_destroy(o);
	return s_create(d, rounds, key, n, iv, in);
}

static void s_encrypt(kripto_stream *o, const void *in, void *out, size_t len)
{
	struct toys *s = (void *)o;
	need(s, s ? s->magic : 0, "stream encryption");
	if(len % s->multof) viol("toy-use", "%zu bytes for a stream of units of %u", len, s->multof);
	for(size_t i = 0; i < len; i++) ((uint8_t *)out)[i] = ((const uint8_t *)in)[i] ^ ab_out(&s->a, s->pos++);
}

static void s_prng(kripto_stream *o, void *out, size_t len)
{
	struct toys *s = (void *)o;
	need(s, s ? s->magic : 0, "stream generator");
	for(size_t i = 0; i < len; i++) ((uint8_t *)out)[i] = ab_out(&s->a, s->pos++);
}

#define NTOY 40
static kripto_desc_hash hdesc[NTOY];
static kripto_desc_mac mdesc[NTOY];
static kripto_desc_stream sdesc[NTOY];
static struct hinfo hin[NTOY];
static struct minfo min[NTOY];
static struct sinfo sin_[NTOY];
static char hnames[NTOY][12], mnames[NTOY][12], snames[NTOY][12];

static uint unit_of(const kripto_desc_stream *d) { static const uint8_t u[] = {1, 2, 3, 5, 8, 16, 17, 64}; uint i = d - sdesc; return i % 3 ? 1 : u[i / 3 % 8]; }

static void __attribute__((constructor)) init2(void)
{
	static const uint bs[] = {1, 2, 3, 7, 16, 20, 31, 64, 100, 128, 136, 200, 255}, mo[] = {1, 4, 8, 16, 20, 33, 64, 100, 128, 255, 0},
		mk[] = {2, 4, 9, 16, 32, 77, 255, 0xFFFFFFFF}, iv[] = {0, 1, 8, 15, 40, 100, 0xFFFFFFFF}, tg[] = {1, 2, 4, 8, 15, 16, 20, 33, 64, 100, 128};
	for(uint i = 0; i < NTOY; i++)
	{
		kripto_desc_hash *h = hdesc + i;
		h->create = h_create; h->recreate = h_recreate; h->input = h_input; h->output = h_output; h->destroy = h_destroy;
		*(void **)&h->hash_all = (void *)h_all;
		h->maxout = mo[i % 11]; h->blocksize = bs[i % 13]; h->maxsalt = i % 4 ? 0 : 9;
		snprintf(hnames[i], sizeof hnames[i], "toyh:%u", i);
		struct hinfo x = {hnames[i], h->maxout, h->blocksize, h->maxsalt, h->maxout ? h->maxout : 150};
		memcpy(hin + i, &x, sizeof x);

		kripto_desc_mac *m = mdesc + i;
		m->create = m_create; m->recreate = m_recreate; m->input = m_input; m->tag = m_tag; m->destroy = m_destroy;
		m->maxtag = tg[i % 11]; m->maxkey = mk[i * 3 % 8];
		snprintf(mnames[i], sizeof mnames[i], "toym:%u", i);
		struct minfo y = {mnames[i], m->maxtag};
		memcpy(min + i, &y, sizeof y);

		kripto_desc_stream *s = sdesc + i;
		s->create = s_create; s->recreate = s_recreate; s->encrypt = s_encrypt; s->decrypt = s_encrypt; s->destroy = s_destroy;
		s->maxkey = mk[i % 8]; s->maxiv = iv[i % 7];
		s->prng = unit_of(s) == 1 ? s_prng : 0;
		snprintf(snames[i], sizeof snames[i], "toys:%u", i);
		struct sinfo z = {snames[i], s->maxkey, s->maxiv};
		memcpy(sin_ + i, &z, sizeof z);
	}
}

uint toy_count(void) { return NTOY; }
const kripto_desc_hash *toyh_desc(const char *spec) { return hdesc + atoi(spec + 5); }
const kripto_desc_mac *toym_desc(const char *spec) { return mdesc + atoi(spec + 5); }
const kripto_desc_stream *toys_desc(const char *spec) { return sdesc + atoi(spec + 5); }
const struct hinfo *toyh_info(uint i) { return hin + i; }
const struct minfo *toym_info(uint i) { return min + i; }
const struct sinfo *toys_info(uint i) { return sin_ + i; }
uint toym_maxkey(uint i) { return mdesc[i].maxkey; }
uint toys_unit(uint i) { return unit_of(sdesc + i); }
