/* Long keys, IVs, salts and passwords (where the limits allow any length) against the
 * reference; comparison, wiping and padding of ranges above 2^32 bytes. */
#define _GNU_SOURCE
#include "ops.h"
#include <kripto/desc/mac.h>
#include <sys/mman.h>
#include <unistd.h>

static uint32_t longlen(struct rng *r, long n)
{
	switch(n % 5)
	{
		case 0: return 65536 + rn(r, 600) - 300;
		case 1: return (1u << 20) + rn(r, 2000) - 1000;
		case 2: return (1u << 24) + rn(r, 3000) - (rn(r, 2) ? 1500 : 0);
		case 3: return 256 * rr(r, 1, 300) + rn(r, 3) - 1;
		default: return 513 + rn(r, 100000);
	}
}

static uint8_t *any(struct rng *r, size_t n) { uint8_t *p = malloc(n + 1); rbytes(r, p, n); return p; }

static const char *const SK[] = {"skein256", "skein512", "skein1024"};

void m_streamkey(struct rng *r, long n)
{
	struct descs d[2];
	struct sspec s;
	const char *name;
	uint k, klen, ivlen, rounds, len = rr(r, 1, 600), cut = rn(r, len + 1), rec = rn(r, 2);
	uint8_t out[2][1024], *key, *iv, b[64];
	memset(d, 0, sizeof d);
	name = n % 4 < 3 ? SK[n % 4] : rn(r, 2) ? "keccak1600" : "keccak800";
	klen = *name == 'k' ? rr(r, 1, strcmp(name, "keccak800") ? 99 : 49) : rn(r, 4) ? longlen(r, n / 4) : rr(r, 1, 300);
	ivlen = *name == 'k' || rn(r, 2) ? longlen(r, n / 4 + 1) : rn(r, 80);
	rounds = *name == 'k' ? rr(r, 1, 24) : 8 * rr(r, 1, 9);
	note("stream %s rounds=%u key of %u bytes, IV of %u bytes", name, rounds, klen, ivlen);
	key = any(r, klen); iv = any(r, ivlen); rbytes(r, b, 64);
	for(k = 0; k < 2; k++)
	{
		const struct api *a = k ? &G : &T;
		const kripto_desc_stream *ds = mk_stream(a, name, d + k);
		kripto_stream *o = rec ? a->stream_create(ds, rounds, b, 16, b + 16, 8) : a->stream_create(ds, rounds, key, klen, iv, ivlen);
		MUST(o);
		if(rec) { a->stream_prng(o, out[k], 77); o = a->stream_recreate(o, rounds, key, klen, iv, ivlen); MUST(o); }
		a->stream_prng(o, out[k], cut);
		a->stream_prng(o, out[k] + cut, len - cut);
		a->stream_destroy(o);
		free_descs(d + k);
	}
	if(memcmp(out[0], out[1], len)) viol("long-parameter", "stream %s rounds=%u%s, key of %u bytes, IV of %u bytes: keystream %s, reference %s", name, rounds, rec ? " recreated" : "", klen, ivlen, hex(out[0], 16), hex(out[1], 16));
	stat_add("long_parameter_bytes", klen + ivlen);
	distinct("%s %u %u %u", name, rounds, klen, ivlen);
	free(key); free(iv);
}

void m_hashsalt(struct rng *r, long n)
{
	const char *name = SK[n % 3];
	uint k, slen = longlen(r, n / 3), rounds = 8 * rr(r, 1, 9), olen = rr(r, 1, 32), mlen = rn(r, 400), one = rn(r, 2);
	uint8_t out[2][32], *salt = any(r, slen), *m = any(r, mlen);
	note("hash %s rounds=%u salt of %u bytes", name, rounds, slen);
	for(k = 0; k < 2; k++)
	{
		const struct api *a = k ? &G : &T;
		const kripto_desc_hash *d = mk_hash(a, name);
		if(one) { if(a->hash_all(d, rounds, salt, slen, m, mlen, out[k], olen)) viol("long-parameter", "hash %s failed with a salt of %u bytes", name, slen); }
		else
		{
			kripto_hash *o = a->hash_create(d, rounds, salt, slen, olen);
			MUST(o);
			a->hash_input(o, m, mlen);
			a->hash_output(o, out[k], olen);
			a->hash_destroy(o);
		}
	}
	if(memcmp(out[0], out[1], olen)) viol("long-parameter", "hash %s rounds=%u, salt of %u bytes, message of %u bytes: digest %s, reference %s", name, rounds, slen, mlen, hex(out[0], olen), hex(out[1], olen));
	stat_add("long_parameter_bytes", slen);
	distinct("%s %u %u %u", name, rounds, slen, mlen);
	free(salt); free(m);
}

void m_mackey(struct rng *r, long n)
{
	static const char *const M[] = {"skein256", "keccak1600", "skein512", "keccak800", "skein1024"};
	struct descs d[2];
	char spec[64];
	const struct hinfo *h = 0;
	uint k, klen = longlen(r, n / 2), tlen, rounds = 0, mlen = rn(r, 400), one = rn(r, 2);
	uint8_t out[2][64], *key = any(r, klen), *m = any(r, mlen);
	memset(d, 0, sizeof d);
	if(n & 1) { snprintf(spec, sizeof spec, "%s", M[n / 2 % 5]); tlen = rr(r, 1, 30); }
	else { h = HASHES + n / 2 % NHASHES; snprintf(spec, sizeof spec, "hmac(%s)", h->name); tlen = rr(r, 1, 16); }
	note("mac %s key of %u bytes", spec, klen);
	for(k = 0; k < 2; k++)
	{
		const struct api *a = k ? &G : &T;
		const kripto_desc_mac *dm = mk_mac(a, spec, d + k);
		if(one) { if(a->mac_all(dm, rounds, key, klen, m, mlen, out[k], tlen)) viol("long-parameter", "mac %s failed with a key of %u bytes", spec, klen); }
		else
		{
			kripto_mac *o = a->mac_create(dm, rounds, key, klen, tlen);
			MUST(o);
			a->mac_input(o, m, mlen);
			a->mac_tag(o, out[k], tlen);
			a->mac_destroy(o);
		}
		free_descs(d + k);
	}
	if(memcmp(out[0], out[1], tlen)) viol("long-parameter", "mac %s, key of %u bytes, message of %u bytes: tag %s, reference %s", spec, klen, mlen, hex(out[0], tlen), hex(out[1], tlen));
	stat_add("long_parameter_bytes", klen);
	distinct("%s %u %u", spec, klen, mlen);
	free(key); free(m);
}

void m_kdflong(struct rng *r, long n)
{
	static const char *const M[] = {"hmac(sha1)", "hmac(sha2_256)", "hmac(blake2s)", "hmac(md5)", "skein512", "keccak1600"};
	struct descs d[2];
	const char *spec = M[n % 6];
	uint k, plen = rn(r, 2) ? longlen(r, n / 6) : rn(r, 90), slen = longlen(r, n / 6 + 2), olen = rr(r, 1, 120), it = rr(r, 1, 4), res[2], sc = n & 1;
	uint8_t out[2][128], *pw = any(r, plen), *salt = any(r, slen);
	memset(d, 0, sizeof d);
	if(slen > 3u << 20 && rn(r, 8)) slen >>= 7;
	if(plen > 3u << 20 && rn(r, 8)) plen >>= 7;
	if(plen < 1) plen = 1;
	if(slen > 3u << 20) olen = 1 + olen % 20;
	note("%s %s password of %u bytes, salt of %u bytes", sc ? "scrypt" : "pbkdf2", spec, plen, slen);
	for(k = 0; k < 2; k++)
	{
		const struct api *a = k ? &G : &T;
		const kripto_desc_mac *dm = mk_mac(a, spec, d + k);
		res[k] = sc ? a->scrypt(dm, 0, 2u << it, it, 1 + it % 2, pw, plen, salt, slen, out[k], olen) : a->pbkdf2(dm, 0, it, pw, plen, salt, slen, out[k], olen);
		free_descs(d + k);
	}
	if(res[0] != res[1] || (!res[0] && memcmp(out[0], out[1], olen)))
		viol("long-parameter", "%s over %s, password of %u bytes, salt of %u bytes, parameter %u: returned %d and %s, reference %d and %s", sc ? "scrypt" : "pbkdf2", spec, plen, slen, it, res[0], hex(out[0], olen), res[1], hex(out[1], olen));
	stat_add("long_parameter_bytes", plen + slen);
	distinct("%d %s %u %u %u %u", sc, spec, plen, slen, it, olen);
	free(pw); free(salt);
}

/* Iteration counts no real MAC could reach in the time: a MAC of the caller's own, whose
 * tag is a linear step of its input, so the definition is a loop over one number. */
struct lmac { const kripto_desc_mac *desc; uint64_t x; uint n; };
static uint64_t lmac_creations;
static uint64_t lstep(uint64_t x) { return x * 0xD1342543DE82EF95u + 0x9E3779B97F4A7C15u; }
static kripto_mac *l_create(const kripto_desc_mac *d, uint rounds, const void *key, uint n, uint tag)
{
	struct lmac *s = malloc(sizeof *s);
	(void)tag;
	s->desc = d; s->n = 0; s->x = 0;
	for(uint i = 0; i < n; i++) s->x = lstep(s->x ^ ((const uint8_t *)key)[i]);
	s->x ^= rounds;
	lmac_creations++;
	return (kripto_mac *)s;
}
static kripto_mac *l_recreate(kripto_mac *m, uint rounds, const void *key, uint n, uint tag)
{
	struct lmac *s = (void *)m;
	(void)tag;
	s->n = 0; s->x = 0;
	for(uint i = 0; i < n; i++) s->x = lstep(s->x ^ ((const uint8_t *)key)[i]);
	s->x ^= rounds;
	lmac_creations++;
	return m;
}
static void l_input(kripto_mac *m, const void *in, size_t len)
{
	struct lmac *s = (void *)m;
	const uint8_t *p = in;
	while(len && s->n & 7) { s->x ^= (uint64_t)*p++ << 8 * (s->n & 7); len--; if(!(++s->n & 7)) s->x = lstep(s->x); }
	for(uint64_t w; len >= 8; len -= 8, p += 8, s->n += 8) { memcpy(&w, p, 8); s->x = lstep(s->x ^ w); }
	while(len--) s->x ^= (uint64_t)*p++ << 8 * (s->n++ & 7);
}
static void l_tag(kripto_mac *m, void *tag, uint len)
{
	struct lmac *s = (void *)m;
	uint64_t x = lstep(s->x ^ s->n);
	for(uint i = 0; i < len; i++) ((uint8_t *)tag)[i] = x >> 8 * (i & 7);
}
static void l_destroy(kripto_mac *m) { free(m); }

void m_kdfiter(struct rng *r, long n)
{
	static const uint IT[] = {1u << 16, 1u << 20, 1u << 24, 1u << 26, 1u << 17, 1u << 22, 1u << 25, 3u << 23};
	kripto_desc_mac d = {.create = l_create, .recreate = l_recreate, .input = l_input, .tag = l_tag, .destroy = l_destroy, .maxtag = 8, .maxkey = 64};
	uint8_t pw[64], salt[40], out[16], want[16];
	uint pl = rr(r, 1, 8), sl = rn(r, 41), rounds = rn(r, 100), it = IT[n % 8] + rn(r, 5) - 2, ol = it > 1u << 24 || rn(r, 2) ? 8 : 16;
	if(n % 64 > 47) it = rr(r, 1u << 16, 1u << 26);
	rbytes(r, pw, 64); rbytes(r, salt, 40);
	note("pbkdf2 of %u iterations", it);
	uint64_t before = lmac_creations, made;
	int ret = T.pbkdf2(&d, rounds, it, pw, pl, salt, sl, out, ol);
	made = lmac_creations - before;
	kripto_mac *m = l_create(&d, rounds, pw, pl, 8);
	uint64_t key = ((struct lmac *)m)->x;
	for(uint b = 0; b < ol / 8; b++)
	{
		uint8_t c[4] = {0, 0, 0, b + 1};
		uint64_t u, f;
		m = l_recreate(m, rounds, pw, pl, 8);
		l_input(m, salt, sl); l_input(m, c, 4); l_tag(m, &u, 8);
		f = u;
		for(uint64_t i = 1; i < it; i++)
		{
			u = lstep(lstep(key ^ u) ^ 8);	/* key, one word of input, tag */
			f ^= u;
		}
		memcpy(want + 8 * b, &f, 8);
	}
	l_destroy(m);
	if(ret || memcmp(out, want, ol))
		viol("pbkdf2-definition", "%u iterations, password of %u bytes, salt of %u: returned %d and %s, definition %s (MAC started %llu times)", it, pl, sl, ret, hex(out, ol), hex(want, ol), (unsigned long long)made);
	stat_add("iterations", it * (long)(ol / 8));
	distinct("%u %u %u %u", it, pl, sl, ol);
}

/* outputs of more than 2^24 blocks, and of more than 2^32 bytes */
static void w_tag(kripto_mac *m, void *tag, uint len)
{
	struct lmac *s = (void *)m;
	uint64_t x = lstep(s->x ^ s->n);
	uint i;
	for(i = 0; i + 8 <= len; i += 8) { memcpy((uint8_t *)tag + i, &x, 8); x += 0x9E3779B97F4A7C15u; }
	for(; i < len; i++) ((uint8_t *)tag)[i] = x >> 8 * (i & 7);
}

void m_kdfblocks(struct rng *r, long n)
{
	uint tl = n % 3 == 2 ? 65536 : rr(r, 1, 3);
	kripto_desc_mac d = {.create = l_create, .recreate = l_recreate, .input = l_input, .tag = w_tag, .destroy = l_destroy, .maxtag = tl, .maxkey = 64};
	size_t blocks = tl < 9 ? (1u << 24) + rn(r, 1u << 20) : 65536 + rn(r, 50), ol = blocks * tl - rn(r, tl), at;
	uint8_t pw[64], salt[40], *t = malloc(tl), *u = malloc(tl), *out;
	uint pl = rr(r, 1, 8), sl = rn(r, 41), it = rr(r, 1, 2);
	size_t room = (ol + 8191) & ~(size_t)4095;
	rbytes(r, pw, 64); rbytes(r, salt, 40);
	note("pbkdf2 of %zu bytes", ol);
	out = mmap(0, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(out == MAP_FAILED) { stat_add("no_room", 1); free(t); free(u); return; }
	int ret = T.pbkdf2(&d, 0, it, pw, pl, salt, sl, out, ol);
	if(ret) viol("pbkdf2-definition", "output of %zu bytes refused: %d", ol, ret);
	kripto_mac *m = l_create(&d, 0, pw, pl, tl);
	for(size_t b = 0; !ret && b < blocks; b++)
	{
		size_t k = b + 1, len = b + 1 < blocks ? tl : ol - b * tl;
		uint8_t c[4] = {k >> 24, k >> 16, k >> 8, k};
		m = l_recreate(m, 0, pw, pl, tl);
		l_input(m, salt, sl); l_input(m, c, 4); w_tag(m, t, tl);
		if(it == 2)
		{
			m = l_recreate(m, 0, pw, pl, tl);
			l_input(m, t, tl); w_tag(m, u, tl);
			for(uint i = 0; i < tl; i++) t[i] ^= u[i];
		}
		at = b * tl;
		if(memcmp(out + at, t, len))
		{
			viol("pbkdf2-definition", "output of %zu bytes over a MAC of %u, %u iterations: block %zu is %s, definition %s", ol, tl, it, k, hex(out + at, len < 16 ? len : 16), hex(t, len < 16 ? len : 16));
			break;
		}
	}
	for(at = ol; at < room; at++) if(out[at]) { viol("pbkdf2-definition", "output of %zu bytes: byte %zu past it was written", ol, at - ol); break; }
	l_destroy(m);
	munmap(out, room);
	free(t); free(u);
	stat_add("long_output_blocks", blocks);
	distinct("%u %zu %u", tl, ol, it);
}

/* scrypt with one cost parameter large at a time */
void m_scryptwide(struct rng *r, long n)
{
	struct descs d[2];
	static const char *const M[] = {"hmac(sha2_256)", "hmac(blake2s)", "omac(rijndael128)", "hmac(md5)"};
	uint64_t N = 2;
	uint32_t R = 1, P = 1;
	uint k, res[2], olen = rr(r, 1, 80);
	uint8_t out[2][80], pw[40], salt[40];
	memset(d, 0, sizeof d);
	rbytes(r, pw, 40); rbytes(r, salt, 40);
	switch(n % 4)
	{
		case 0: N = 1u << rr(r, 12, 18); break;
		case 1: R = rr(r, 200, 5000); N = 1u << rr(r, 1, 3); break;
		case 2: P = rr(r, 200, 5000); N = 1u << rr(r, 1, 3); break;
		default: N = 1u << rr(r, 5, 10); R = rr(r, 1, 32); P = rr(r, 1, 16);
	}
	note("scrypt N=%llu r=%u p=%u", (unsigned long long)N, R, P);
	for(k = 0; k < 2; k++)
	{
		const struct api *a = k ? &G : &T;
		res[k] = a->scrypt(mk_mac(a, M[n / 4 % 4], d + k), 0, N, R, P, pw, 16, salt, 40, out[k], olen);
		free_descs(d + k);
	}
	if(res[0] != res[1] || (!res[0] && memcmp(out[0], out[1], olen)))
		viol("scrypt-definition", "%s N=%llu r=%u p=%u: returned %d and %s, reference %d and %s", M[n / 4 % 4], (unsigned long long)N, R, P, res[0], hex(out[0], olen), res[1], hex(out[1], olen));
	stat_add("scrypt_bytes", 128L * R * (N + P));
	distinct("%s %llu %u %u %u", M[n / 4 % 4], (unsigned long long)N, R, P, olen);
}

/* scrypt whose working memory exceeds 2^32 bytes */
void m_scryptbig(struct rng *r, long n)
{
	struct descs d[2];
	uint8_t out[2][64], k[20];
	uint i, res[2];
	memset(d, 0, sizeof d);
	rbytes(r, k, sizeof k);
	note("scrypt N=%u r=%u", 1u << 18, 129u);
	for(i = 0; i < 2; i++)
	{
		const struct api *a = i ? &G : &T;
		res[i] = a->scrypt(mk_mac(a, "hmac(blake2s)", d + i), 0, 1u << 18, 129, 1, k, 12, k + 12, 8, out[i], 64);
		free_descs(d + i);
	}
	(void)n;
	if(res[1]) { stat_add("no_memory", 1); return; }
	if(res[0] || memcmp(out[0], out[1], 64)) viol("scrypt-large", "N=2^18 r=129 p=1 (4.3 GB): returned %d and %s, reference %s", res[0], hex(out[0], 16), hex(out[1], 16));
	stat_add("scrypt_above_4GB", 1);
	distinct("scrypt N=2^18 r=129 key=%s", hex(k, 12));
}

/* ---- ranges above 2^32 bytes: one window of memory mapped all over, private pages where it matters ---- */
#define WIN ((size_t)4 << 20)
#define PG 4096
static uint8_t *vast(size_t n, int fd)
{
	uint8_t *p = mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) exit(3);
	for(size_t o = 0; o < n; o += WIN) if(mmap(p + o, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
	return p;
}
static uint8_t *page(uint8_t *v, size_t at)
{
	uint8_t *p = mmap(v + at / PG * PG, PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
	if(p == MAP_FAILED) exit(3);
	return v + at;
}

void m_hugemem(struct rng *r, long n)
{
	size_t tot = ((size_t)1 << 32) + 4 * WIN, len = ((size_t)1 << 32) + rr(r, 1, 3 * WIN), i;
	int fd = memfd_create("kv", 0);
	if(fd < 0 || ftruncate(fd, WIN)) exit(3);
	uint8_t *a = vast(tot, fd), *b;
	note("range of %zu bytes", len);
	if(n == 0)
	{
		/* equal, then different in one place beyond 2^32 */
		b = vast(tot, fd);
		size_t at = ((size_t)1 << 32) + rn(r, len - ((size_t)1 << 32));
		uint8_t *pa = page(a, at), *pb = page(b, at);
		if(!T.memory_equals(a, b, len)) viol("memory-equals", "two equal ranges of %zu bytes are said to differ", len);
		*pa = 1 << rn(r, 8);
		if(T.memory_equals(a, b, len)) viol("memory-equals", "ranges of %zu bytes that differ at byte %zu are said to be equal", len, at);
		(void)pb;
		munmap(b, tot);
		stat_add("compared_above_4GB", 2);
	}
	else
	{
		/* the first and last pages of the range are private; the byte after it stays */
		uint8_t *p = page(a, 0), *q = page(a, (len - 1) / PG * PG);
		memset(p, 0x77, PG); memset(q, 0x77, PG);
		if(len % PG == 0) page(a, len), a[len] = 0x77;
		memset(a + WIN, 0x77, WIN);
		T.memory_wipe(a, len);
		for(i = 0; i < PG; i++) if(a[i]) { viol("memory-wipe", "wiping %zu bytes left byte %zu", len, i); break; }
		for(i = 0; i < WIN; i++) if(a[WIN + i]) { viol("memory-wipe", "wiping %zu bytes left byte %zu", len, WIN + i); break; }
		for(i = (len - 1) / PG * PG; i < len; i++) if(a[i]) { viol("memory-wipe", "wiping %zu bytes left byte %zu", len, i); break; }
		if(a[len] != 0x77) viol("memory-wipe", "wiping %zu bytes changed the byte after them", len);
		stat_add("wiped_above_4GB", 1);
	}
	/* padding at the end of such a range */
	size_t pad = rr(r, 1, 255), want = len + pad - len % pad;
	for(i = len / PG * PG; i < want + 1; i += PG) page(a, i);
	page(a, want);
	a[want] = 0x33;
	if(T.pkcs7_add(a, len, pad, want - 1)) viol("pkcs7-add", "%zu bytes, block size %zu: accepted without room", len, pad);
	if(T.pkcs7_add(a, len, pad, want) != want) viol("pkcs7-add", "%zu bytes, block size %zu: wrong result", len, pad);
	for(i = len; i < want; i++) if(a[i] != want - len) { viol("pkcs7-add", "%zu bytes, block size %zu: byte %zu is %u", len, pad, i, a[i]); break; }
	if(a[want] != 0x33) viol("pkcs7-add", "%zu bytes, block size %zu: changed the byte after the padding", len, pad);
	if(T.pkcs7_rem(a, want) != len) viol("pkcs7-rem", "%zu bytes, block size %zu: wrong result", want, pad);
	stat_add("padded_above_4GB", 1);
	distinct("len=%zu pad=%zu", len, pad);
	munmap(a, tot);
	close(fd);
}
