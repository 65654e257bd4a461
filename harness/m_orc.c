/* Independent implementations: OpenSSL and libgcrypt. */
#ifdef ORC
#include "ops.h"
#include <dlfcn.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/provider.h>
#include <openssl/kdf.h>
#include <openssl/err.h>

/* libgcrypt has no headers here */
typedef void *gc_t;
static uint (*g_open)(gc_t *, int, int, uint);
static uint (*g_setkey)(gc_t, const void *, size_t);
static uint (*g_setiv)(gc_t, const void *, size_t);
static uint (*g_auth)(gc_t, const void *, size_t);
static uint (*g_gettag)(gc_t, void *, size_t);
static uint (*g_enc)(gc_t, void *, size_t, const void *, size_t);
static uint (*g_dec)(gc_t, void *, size_t, const void *, size_t);
static void (*g_close)(gc_t);
static uint (*g_ctl)(gc_t, int, void *, size_t);
static void (*g_hash)(int, void *, const void *, size_t);
static int gok;

void init_orc(void)
{
	OSSL_PROVIDER_load(0, "default");
	OSSL_PROVIDER_load(0, "legacy");
	void *h = dlopen("libgcrypt.so.20", RTLD_NOW);
	if(!h) return;
	const char *(*ver)(const char *) = (const char *(*)(const char *))dlsym(h, "gcry_check_version");
	uint (*ctl)(int, ...) = (uint (*)(int, ...))dlsym(h, "gcry_control");
	if(!ver || !ctl || !ver(0)) return;
	ctl(37, 0);	/* no secure memory */
	ctl(38, 0);	/* initialisation finished */
#define S(V, N) if(!(*(void **)&V = dlsym(h, "gcry_" N))) return;
	S(g_open, "cipher_open") S(g_setkey, "cipher_setkey") S(g_setiv, "cipher_setiv") S(g_auth, "cipher_authenticate")
	S(g_gettag, "cipher_gettag") S(g_enc, "cipher_encrypt") S(g_dec, "cipher_decrypt") S(g_close, "cipher_close")
	S(g_ctl, "cipher_ctl") S(g_hash, "md_hash_buffer")
	gok = 1;
}

/* ---- raw block encryption, OpenSSL or libgcrypt ---- */
static const struct ob { const char *lib, *ossl; int gc; uint kl; } OB[] =
{
	{"rijndael128", "AES-128-ECB", 0, 16}, {"rijndael128", "AES-192-ECB", 0, 24}, {"rijndael128", "AES-256-ECB", 0, 32},
	{"aes", "AES-128-ECB", 0, 16}, {"aes", "AES-192-ECB", 0, 24}, {"aes", "AES-256-ECB", 0, 32},
	{"aria", "ARIA-128-ECB", 0, 16}, {"aria", "ARIA-192-ECB", 0, 24}, {"aria", "ARIA-256-ECB", 0, 32},
	{"camellia", "CAMELLIA-128-ECB", 0, 16}, {"camellia", "CAMELLIA-192-ECB", 0, 24}, {"camellia", "CAMELLIA-256-ECB", 0, 32},
	{"blowfish", "BF-ECB", 0, 16}, {"blowfish", "BF-ECB", 0, 56}, {"blowfish", "BF-ECB", 0, 8}, {"blowfish", "BF-ECB", 0, 32},
	{"cast5", "CAST5-ECB", 0, 16}, {"cast5", "CAST5-ECB", 0, 11}, {"cast5", "CAST5-ECB", 0, 5}, {"cast5", "CAST5-ECB", 0, 10}, {"cast5", "CAST5-ECB", 0, 6}, {"cast5", "CAST5-ECB", 0, 8}, {"cast5", "CAST5-ECB", 0, 15},
	{"des", "DES-ECB", 0, 8}, {"des", "DES-EDE-ECB", 0, 16}, {"des", "DES-EDE3-ECB", 0, 24},
	{"idea", "IDEA-ECB", 0, 16}, {"seed", "SEED-ECB", 0, 16}, {"sm4", "SM4-ECB", 0, 16},
	{"rc2", "RC2-ECB", 0, 16},
	{"twofish", 0, 303, 16}, {"twofish", 0, 10, 32}, {"serpent", 0, 304, 16}, {"serpent", 0, 305, 24}, {"serpent", 0, 306, 32},
	{"gost:r34", 0, 315, 32}, {"gost:cbr", 0, 315, 32},
	{"camellia", 0, 310, 16}, {"camellia", 0, 312, 32}, {"seed", 0, 309, 16}, {"idea", 0, 1, 16}, {"sm4", 0, 318, 16}
};

static int raw(const struct ob *o, const uint8_t *key, int dec, const uint8_t *in, uint8_t *out, size_t n)
{
	if(o->ossl)
	{
		EVP_CIPHER *c = EVP_CIPHER_fetch(0, o->ossl, 0);
		EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
		int l, ok;
		if(!c) { EVP_CIPHER_CTX_free(x); return 0; }
		ok = EVP_CipherInit_ex2(x, c, 0, 0, !dec, 0) && EVP_CIPHER_CTX_set_key_length(x, o->kl);
		if(!strcmp(o->lib, "rc2")) ok = ok && EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_SET_RC2_KEY_BITS, 128, 0) >= 0;
		ok = ok && EVP_CipherInit_ex2(x, 0, key, 0, !dec, 0) && EVP_CIPHER_CTX_set_padding(x, 0) && EVP_CipherUpdate(x, out, &l, in, n);
		EVP_CIPHER_CTX_free(x);
		EVP_CIPHER_free(c);
		return ok;
	}
	gc_t h;
	int ok;
	if(!gok || g_open(&h, o->gc, 1, 0)) return 0;
	if(!strncmp(o->lib, "gost", 4))
	{
		/* both sides number bytes and words alike, only the box differs */
		const char *oid = !strcmp(o->lib, "gost:r34") ? "1.2.643.7.1.2.5.1.1" : "1.2.643.2.2.30.0";
		if(g_ctl(h, 73, (void *)oid, 0)) { g_close(h); return 0; }
	}
	ok = !g_setkey(h, key, o->kl) && !(dec ? g_dec(h, out, n, in, n) : g_enc(h, out, n, in, n));
	g_close(h);
	return ok;
}

void m_orcblock(struct rng *r, long n)
{
	const struct ob *o = OB + n % (sizeof OB / sizeof *OB);
	uint8_t key[64], in[1024], x[1024], y[1024];
	struct descs d = {{0}, 0};
	uint bs = binfo(o->lib)->bs;
	int dec = rn(r, 2);

	rdata(r, key, o->kl);
	rdata(r, in, sizeof in);
	note("%s key=%s dec=%d", o->lib, hex(key, o->kl), dec);
	size_t len = sizeof in / bs * bs;
	if(!raw(o, key, dec, in, y, len)) { stat_add("oracle_unavailable", 1); return; }
	kripto_block *b = T.block_create(mk_block(&T, o->lib, &d), 0, key, o->kl);
	MUST(b);
	for(size_t i = 0; i < len; i += bs) if(dec) T.block_decrypt(b, in + i, x + i); else T.block_encrypt(b, in + i, x + i);
	for(size_t i = 0; i < len; i += bs) if(memcmp(x + i, y + i, bs))
	{
		viol("block-standard", "%s key=%s: %s of %s gave %s, %s says %s", o->lib, hex(key, o->kl), dec ? "decrypt" : "encrypt", hex(in + i, bs), hex(x + i, bs), o->ossl ? "OpenSSL" : "libgcrypt", hex(y + i, bs));
		break;
	}
	stat_add("blocks_against_other_implementations", len / bs);
	distinct("%s/%s key=%s", o->lib, o->ossl ? o->ossl : "libgcrypt", hex(key, o->kl));
	T.block_destroy(b);
	free_descs(&d);
}

/* ---- hashes ---- */
static const struct { const char *lib, *ossl; int gc; uint out; } OH[] =
{
	{"md5", "MD5", 0, 16}, {"sha1", "SHA1", 0, 20}, {"sha2_256", "SHA256", 0, 32}, {"sha2_256", "SHA224", 0, 28}, {"sha2_512", "SHA512", 0, 64}, {"sha2_512", "SHA384", 0, 48},
	{"sha3", "SHA3-224", 0, 28}, {"sha3", "SHA3-256", 0, 32}, {"sha3", "SHA3-384", 0, 48}, {"sha3", "SHA3-512", 0, 64},
	{"blake2b", "BLAKE2B-512", 0, 64}, {"blake2s", "BLAKE2S-256", 0, 32}, {"whirlpool", "WHIRLPOOL", 0, 64},
	{"tiger", 0, 306, 24}, {"whirlpool", 0, 305, 64},
	{"blake2b", 0, 320, 32}, {"blake2b", 0, 319, 48}, {"blake2b", 0, 321, 20}, {"blake2s", 0, 323, 28}, {"blake2s", 0, 324, 20}, {"blake2s", 0, 325, 16}
};
#define NOH (sizeof OH / sizeof *OH)

void m_orchash(struct rng *r, long n)
{
	uint i = n % NOH, ol;
	size_t len = (n / NOH) % 2 ? pick_len(r, HASHES[0].bs) : (size_t)(n / NOH / 2) % 400, off, k;
	uint8_t *in = malloc(len + 1), x[64], y[64];

	rdata(r, in, len);
	if(OH[i].ossl)
	{
		EVP_MD *m = EVP_MD_fetch(0, OH[i].ossl, 0);
		if(!m || !EVP_Digest(in, len, y, &ol, m, 0)) { EVP_MD_free(m); stat_add("oracle_unavailable", 1); free(in); return; }
		EVP_MD_free(m);
	}
	else
	{
		if(!gok) { stat_add("oracle_unavailable", 1); free(in); return; }
		g_hash(OH[i].gc, y, in, len);
	}
	note("%s/%u len=%zu", OH[i].lib, OH[i].out, len);
	kripto_hash *h = T.hash_create(mk_hash(&T, OH[i].lib), 0, 0, 0, OH[i].out);
	MUST(h);
	for(off = 0; off < len; off += k) { k = rn(r, 2) ? len - off : 1 + rn(r, len - off); T.hash_input(h, in + off, k); }
	T.hash_output(h, x, OH[i].out);
	T.hash_destroy(h);
	if(memcmp(x, y, OH[i].out)) viol("hash-standard", "%s, %u byte output: %zu bytes (%s) gave %s, %s says %s", OH[i].lib, OH[i].out, len, hex(in, len), hex(x, OH[i].out), OH[i].ossl ? "OpenSSL" : "libgcrypt", hex(y, OH[i].out));
	stat_add("digests_against_other_implementations", 1);
	distinct("%s/%u len=%zu msg=%s", OH[i].lib, OH[i].out, len, hex(in, len > 16 ? 16 : len));
	free(in);
}

/* ---- streams and modes ---- */
static int ossl_stream(const char *name, const uint8_t *key, uint kl, const uint8_t *iv, const uint8_t *in, uint8_t *out, size_t n, int dec)
{
	EVP_CIPHER *c = EVP_CIPHER_fetch(0, name, 0);
	EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
	int l, ok;
	if(!c) { EVP_CIPHER_CTX_free(x); return 0; }
	ok = EVP_CipherInit_ex2(x, c, 0, 0, !dec, 0) && EVP_CIPHER_CTX_set_key_length(x, kl) && EVP_CipherInit_ex2(x, 0, key, iv, !dec, 0)
		&& EVP_CIPHER_CTX_set_padding(x, 0) && EVP_CipherUpdate(x, out, &l, in, n);
	EVP_CIPHER_CTX_free(x);
	EVP_CIPHER_free(c);
	return ok;
}

static int gc_stream(int algo, const uint8_t *key, uint kl, const uint8_t *iv, uint il, const uint8_t *in, uint8_t *out, size_t n)
{
	gc_t h;
	int ok;
	if(!gok || g_open(&h, algo, 4, 0)) return 0;
	ok = !g_setkey(h, key, kl) && (!il || !g_setiv(h, iv, il)) && !g_enc(h, out, n, in, n);
	g_close(h);
	return ok;
}

void m_orcstream(struct rng *r, long n)
{
	static const struct { const char *spec, *ossl; int gc; uint kl, il; } O[] =
	{
		{"chacha", "CHACHA20", 0, 32, 12}, {"chacha", 0, 316, 32, 8}, {"chacha", 0, 316, 32, 12}, {"salsa20", 0, 313, 32, 8}, {"salsa20", 0, 313, 16, 8}, {"rc4", "RC4", 0, 16, 0}, {"rc4", "RC4", 0, 5, 0},
		{"rc4", "RC4", 0, 32, 0},
		{"cbc(aes)", "AES-128-CBC", 0, 16, 16}, {"cfb(aes)", "AES-128-CFB", 0, 16, 16}, {"ctr(aes)", "AES-128-CTR", 0, 16, 16}, {"ofb(aes)", "AES-256-OFB", 0, 32, 16}, {"ecb(aes)", "AES-192-ECB", 0, 24, 0},
		{"cbc(camellia)", "CAMELLIA-192-CBC", 0, 24, 16}, {"ctr(aria)", "ARIA-128-CTR", 0, 16, 16}, {"cfb(blowfish)", "BF-CFB", 0, 16, 8}, {"ofb(cast5)", "CAST5-OFB", 0, 16, 8},
		{"cbc(des)", "DES-EDE3-CBC", 0, 24, 8}, {"cfb(idea)", "IDEA-CFB", 0, 16, 8}, {"ofb(seed)", "SEED-OFB", 0, 16, 16}, {"ctr(sm4)", "SM4-CTR", 0, 16, 16}, {"cbc(sm4)", "SM4-CBC", 0, 16, 16}
	};
	uint i = n % (sizeof O / sizeof *O);
	uint8_t key[64], iv[32], *in, *x, *y;
	size_t len = pick_len(r, 64) + rn(r, 200), off, k;
	struct descs d = {{0}, 0};
	int dec = rn(r, 2), ok;
	uint mo;

	len -= len % 16;
	if(!O[i].il || O[i].gc) dec = 0;
	in = malloc(len + 1); x = malloc(len + 1); y = malloc(len + 1);
	rdata(r, key, O[i].kl); rdata(r, iv, O[i].il); rdata(r, in, len);
	if(O[i].il == 16 && rn(r, 3) == 0) memset(iv + rn(r, 9), 0xFF, 8);
	uint8_t iv2[16] = {0};
	memcpy(iv2, iv, O[i].il);
	if(O[i].ossl && !strcmp(O[i].ossl, "CHACHA20")) { memset(iv2, 0, 4); memcpy(iv2 + 4, iv, 12); }
	ok = O[i].ossl ? ossl_stream(O[i].ossl, key, O[i].kl, iv2, in, y, len, dec) : gc_stream(O[i].gc, key, O[i].kl, iv, O[i].il, in, y, len);
	if(!ok) { stat_add("oracle_unavailable", 1); goto end; }
	note("%s key=%s iv=%s len=%zu", O[i].spec, hex(key, O[i].kl), hex(iv, O[i].il), len);
	kripto_stream *s = T.stream_create(mk_stream(&T, O[i].spec, &d), 0, key, O[i].kl, iv, O[i].il);
	MUST(s);
	mo = T.stream_multof(s);
	for(off = 0; off < len; off += k)
	{
		k = rn(r, 2) ? len - off : 1 + rn(r, len - off);
		k -= k % mo;
		if(dec) T.stream_decrypt(s, in + off, x + off, k); else T.stream_encrypt(s, in + off, x + off, k);
	}
	if(memcmp(x, y, len))
	{
		for(off = 0; x[off] == y[off]; off++);
		viol("stream-standard", "%s key=%s iv=%s: %s of %zu bytes departs from %s at byte %zu", O[i].spec, hex(key, O[i].kl), hex(iv, O[i].il), dec ? "decrypt" : "encrypt", len, O[i].ossl ? "OpenSSL" : "libgcrypt", off);
	}
	stat_add("bytes_against_other_implementations", len);
	distinct("%s key=%s len=%zu", O[i].spec, hex(key, O[i].kl), len);
	T.stream_destroy(s);
end:
	free_descs(&d);
	free(in); free(x); free(y);
}

/* ---- MACs ---- */
void m_orcmac(struct rng *r, long n)
{
	static const struct { const char *spec, *alg, *sub; uint kl, tl; } O[] =
	{
		{"hmac(md5)", "HMAC", "MD5", 0, 16}, {"hmac(sha1)", "HMAC", "SHA1", 0, 20}, {"hmac(sha2_256)", "HMAC", "SHA256", 0, 32}, {"hmac(sha2_512)", "HMAC", "SHA512", 0, 64},
		{"hmac(blake2b)", "HMAC", "BLAKE2B-512", 0, 64}, {"hmac(blake2s)", "HMAC", "BLAKE2S-256", 0, 32}, {"hmac(whirlpool)", "HMAC", "WHIRLPOOL", 0, 64},
		{"hmac(sha2_256)", "HMAC", "SHA224", 0, 28}, {"hmac(sha2_512)", "HMAC", "SHA384", 0, 48},
		{"omac(aes)", "CMAC", "AES-128-CBC", 16, 16}, {"omac(aes)", "CMAC", "AES-256-CBC", 32, 16}, {"omac(camellia)", "CMAC", "CAMELLIA-128-CBC", 16, 16}, {"omac(blowfish)", "CMAC", "BF-CBC", 16, 8},
		{"omac(des)", "CMAC", "DES-EDE3-CBC", 24, 8}, {"omac(cast5)", "CMAC", "CAST5-CBC", 16, 8}, {"omac(aria)", "CMAC", "ARIA-128-CBC", 16, 16}
	};
	uint i = n % (sizeof O / sizeof *O), kl = O[i].kl;
	uint8_t key[300], x[64], y[64];
	size_t len = (n / 16) % 2 ? pick_len(r, 64) : (size_t)(n / 32) % 300, ol = 0;
	uint8_t *in = malloc(len + 1);
	struct descs d = {{0}, 0};

	if(!kl) kl = rn(r, 3) ? rr(r, 1, 140) : rr(r, 1, 280);
	rdata(r, key, kl);
	rdata(r, in, len);
	EVP_MAC *m = EVP_MAC_fetch(0, O[i].alg, 0);
	EVP_MAC_CTX *c = EVP_MAC_CTX_new(m);
	OSSL_PARAM ps[2] = {OSSL_PARAM_construct_utf8_string(O[i].kl ? "cipher" : "digest", (char *)O[i].sub, 0), OSSL_PARAM_construct_end()};
	int ok = EVP_MAC_init(c, key, kl, ps) && EVP_MAC_update(c, in, len) && EVP_MAC_final(c, y, &ol, sizeof y);
	EVP_MAC_CTX_free(c);
	EVP_MAC_free(m);
	if(!ok || ol != O[i].tl) { stat_add("oracle_unavailable", 1); free(in); return; }
	note("%s/%u key=%s len=%zu", O[i].spec, O[i].tl, hex(key, kl), len);
	if(T.mac_all(mk_mac(&T, O[i].spec, &d), 0, key, kl, in, len, x, O[i].tl)) viol("mac-all-failed", "%s", O[i].spec);
	if(memcmp(x, y, O[i].tl)) viol("mac-standard", "%s/%u key=%s: tag of %zu bytes (%s) is %s, OpenSSL says %s", O[i].spec, O[i].tl, hex(key, kl), len, hex(in, len), hex(x, O[i].tl), hex(y, O[i].tl));
	stat_add("tags_against_other_implementations", 1);
	distinct("%s/%u key_len=%u len=%zu key=%s", O[i].spec, O[i].tl, kl, len, hex(key, kl > 16 ? 16 : kl));
	free_descs(&d);
	free(in);
}

/* ---- EAX ---- */
void m_orceax(struct rng *r, long n)
{
	static const struct { const char *spec; int gc; uint kl, bs; } O[] =
	{
		{"eax(aes)", 7, 16, 16}, {"eax(aes)", 9, 32, 16}, {"eax(twofish)", 10, 32, 16}, {"eax(serpent)", 306, 32, 16}, {"eax(camellia)", 310, 16, 16}, {"eax(seed)", 309, 16, 16}, {"eax(blowfish)", 4, 16, 8}, {"eax(cast5)", 3, 16, 8}
	};
	uint i = n % (sizeof O / sizeof *O), il;
	uint8_t key[64], iv[16], hd[300], *in, *x, *y, t1[16], t2[16];
	size_t len = pick_len(r, 16), hl = rn(r, 3) ? rn(r, 300) : 0;
	struct descs d = {{0}, 0};
	gc_t h;

	il = 1 + rn(r, O[i].bs);
	rdata(r, key, O[i].kl); rdata(r, iv, il); rdata(r, hd, hl);
	in = malloc(len + 1); x = malloc(len + 1); y = malloc(len + 1);
	rdata(r, in, len);
	if(!gok || g_open(&h, O[i].gc, 14, 0)) { stat_add("oracle_unavailable", 1); goto end; }
	int bad = g_setkey(h, key, O[i].kl) || g_setiv(h, iv, il) || g_auth(h, hd, hl) || (len && g_enc(h, y, len, in, len)) || g_gettag(h, t2, O[i].bs);
	g_close(h);
	if(bad) { stat_add("oracle_unavailable", 1); goto end; }
	note("%s key=%s iv=%s header=%zu len=%zu", O[i].spec, hex(key, O[i].kl), hex(iv, il), hl, len);
	kripto_ae *a = T.ae_create(mk_ae(&T, O[i].spec, &d), 0, key, O[i].kl, iv, il, O[i].bs);
	MUST(a);
	T.ae_header(a, hd, hl);
	T.ae_encrypt(a, in, x, len);
	T.ae_tag(a, t1, O[i].bs);
	T.ae_destroy(a);
	if(memcmp(x, y, len) || memcmp(t1, t2, O[i].bs)) viol("ae-standard", "%s key=%s iv=%s header=%zu len=%zu: tag %s, libgcrypt says %s; ciphertext %s", O[i].spec, hex(key, O[i].kl), hex(iv, il), hl, len, hex(t1, O[i].bs), hex(t2, O[i].bs), memcmp(x, y, len) ? "differs" : "equal");
	stat_add("messages_against_other_implementations", 1);
	distinct("%s iv_len=%u header=%zu len=%zu key=%s", O[i].spec, il, hl, len, hex(key, 8));
end:
	free_descs(&d);
	free(in); free(x); free(y);
}

/* ---- key derivation ---- */
void m_orckdf(struct rng *r, long n)
{
	static const struct { const char *spec, *md; } O[] = {{"hmac(sha1)", "SHA1"}, {"hmac(sha2_256)", "SHA256"}, {"hmac(sha2_512)", "SHA512"}, {"hmac(md5)", "MD5"}, {"hmac(blake2b)", "BLAKE2B-512"}};
	uint8_t pw[200], salt[200], x[300], y[300];
	uint pl = rr(r, 1, 150), sl = rn(r, 100), ol = rr(r, 1, 250);
	struct descs d = {{0}, 0};
	int ok;

	rdata(r, pw, pl); rdata(r, salt, sl);
	if(n % 3)
	{
		uint i = n % 5, iter = rn(r, 4) ? rr(r, 1, 5) : rr(r, 1, 200);
		EVP_MD *m = EVP_MD_fetch(0, O[i].md, 0);
		ok = PKCS5_PBKDF2_HMAC((char *)pw, pl, salt, sl, iter, m, ol, y);
		EVP_MD_free(m);
		if(!ok) { stat_add("oracle_unavailable", 1); return; }
		note("pbkdf2 %s iter=%u", O[i].spec, iter);
		if(T.pbkdf2(mk_mac(&T, O[i].spec, &d), 0, iter, pw, pl, salt, sl, x, ol)) viol("pbkdf2-failed", "%s", O[i].spec);
		if(memcmp(x, y, ol)) viol("kdf-standard", "PBKDF2 %s iter=%u pass=%s salt=%s: %s, OpenSSL says %s", O[i].spec, iter, hex(pw, pl), hex(salt, sl), hex(x, ol), hex(y, ol));
		distinct("pbkdf2 %s iter=%u pass_len=%u salt_len=%u out=%u pw=%s", O[i].spec, iter, pl, sl, ol, hex(pw, 8));
	}
	else
	{
		uint64_t N = 2u << rn(r, 9);
		uint R = rr(r, 1, 9), P = rr(r, 1, 4);
		ok = EVP_PBE_scrypt((char *)pw, pl, salt, sl, N, R, P, 256 << 20, y, ol);
		if(!ok) { stat_add("oracle_unavailable", 1); return; }
		note("scrypt N=%u r=%u p=%u", (uint)N, R, P);
		if(T.scrypt(mk_mac(&T, "hmac(sha2_256)", &d), 0, N, R, P, pw, pl, salt, sl, x, ol)) viol("scrypt-failed", "N=%u r=%u p=%u", (uint)N, R, P);
		if(memcmp(x, y, ol)) viol("kdf-standard", "scrypt N=%u r=%u p=%u pass=%s salt=%s: %s, OpenSSL says %s", (uint)N, R, P, hex(pw, pl), hex(salt, sl), hex(x, ol), hex(y, ol));
		distinct("scrypt N=%u r=%u p=%u pass_len=%u salt_len=%u out=%u pw=%s", (uint)N, R, P, pl, sl, ol, hex(pw, 8));
	}
	stat_add("derivations_against_other_implementations", 1);
	free_descs(&d);
}
#endif

/* HMAC tags shorter than the digest, and HMAC over SHA-3, against RFC 2104: one case per
   combination, so that each combination has a key of its own in the known findings */
void m_orchmac(struct rng *r, long n)
{
	static const struct { const char *spec, *sub; uint full, tl; } O[] =
	{
		{"hmac(md5)", "MD5", 16, 16}, {"hmac(sha1)", "SHA1", 20, 20}, {"hmac(sha2_256)", "SHA256", 32, 32}, {"hmac(sha2_512)", "SHA512", 64, 64},
		{"hmac(md5)", "MD5", 16, 12}, {"hmac(sha1)", "SHA1", 20, 12}, {"hmac(sha1)", "SHA1", 20, 10}, {"hmac(sha2_256)", "SHA256", 32, 16},
		{"hmac(sha2_512)", "SHA512", 64, 32}, {"hmac(whirlpool)", "WHIRLPOOL", 64, 32},
		{"hmac(sha3)", "SHA3-224", 28, 28}, {"hmac(sha3)", "SHA3-256", 32, 32}, {"hmac(sha3)", "SHA3-384", 48, 48}, {"hmac(sha3)", "SHA3-512", 64, 64}
	};
	uint8_t key[200], in[300], x[64], y[64];
	char k[64];
	size_t ol;
	if(n >= (long)(sizeof O / sizeof *O)) return;
	for(uint i = 0; i < 40; i++)
	{
		struct descs d = {{0}, 0};
		uint kl = rr(r, 1, 150), len = rr(r, 0, 300);
		rdata(r, key, kl);
		rdata(r, in, len);
		EVP_MAC *m = EVP_MAC_fetch(0, "HMAC", 0);
		EVP_MAC_CTX *c = EVP_MAC_CTX_new(m);
		OSSL_PARAM ps[2] = {OSSL_PARAM_construct_utf8_string("digest", (char *)O[n].sub, 0), OSSL_PARAM_construct_end()};
		int ok = EVP_MAC_init(c, key, kl, ps) && EVP_MAC_update(c, in, len) && EVP_MAC_final(c, y, &ol, sizeof y);
		EVP_MAC_CTX_free(c);
		EVP_MAC_free(m);
		if(!ok || ol != O[n].full) { stat_add("oracle_unavailable", 1); return; }
		if(T.mac_all(mk_mac(&T, O[n].spec, &d), 0, key, kl, in, len, x, O[n].tl)) viol("mac-all-failed", "%s", O[n].spec);
		free_descs(&d);
		stat_add("tags_against_rfc2104", 1);
		distinct("rfc2104 %s/%u key_len=%u len=%u key=%s", O[n].spec, O[n].tl, kl, len, hex(key, kl > 16 ? 16 : kl));
		if(!memcmp(x, y, O[n].tl)) continue;
		snprintf(k, sizeof k, "rfc2104:%s/%s/%u", O[n].spec, O[n].sub, O[n].tl);
		viol(k, "%s with a %u byte tag, key=%s: tag of %u bytes (%s) is %s, RFC 2104 over %s gives %s", O[n].spec, O[n].tl, hex(key, kl), len, hex(in, len), hex(x, O[n].tl), O[n].sub, hex(y, O[n].tl));
		break;
	}
}
