/* Shared harness code: library loading, algorithm tables, RNG, reporting. */
#ifndef KV_H
#define KV_H
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>

#include <kripto/block.h>
#include <kripto/stream.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/ae.h>

typedef struct kripto_random kripto_random;
typedef unsigned int uint;

/* ---- public API of one loaded build of the library ---- */
#define API_FUNCS(X) \
 X(kripto_block *, block_create, (const kripto_desc_block *, uint, const void *, uint)) \
 X(kripto_block *, block_recreate, (kripto_block *, uint, const void *, uint)) \
 X(void, block_tweak, (kripto_block *, const void *, uint)) \
 X(void, block_encrypt, (const kripto_block *, const void *, void *)) \
 X(void, block_decrypt, (const kripto_block *, const void *, void *)) \
 X(void, block_destroy, (kripto_block *)) \
 X(const kripto_desc_block *, block_getdesc, (const kripto_block *)) \
 X(uint, block_size, (const kripto_desc_block *)) \
 X(uint, block_maxkey, (const kripto_desc_block *)) \
 X(uint, block_maxtweak, (const kripto_desc_block *)) \
 X(kripto_stream *, stream_create, (const kripto_desc_stream *, uint, const void *, uint, const void *, uint)) \
 X(kripto_stream *, stream_recreate, (kripto_stream *, uint, const void *, uint, const void *, uint)) \
 X(void, stream_encrypt, (kripto_stream *, const void *, void *, size_t)) \
 X(void, stream_decrypt, (kripto_stream *, const void *, void *, size_t)) \
 X(void, stream_prng, (kripto_stream *, void *, size_t)) \
 X(void, stream_destroy, (kripto_stream *)) \
 X(uint, stream_multof, (const kripto_stream *)) \
 X(const kripto_desc_stream *, stream_getdesc, (const kripto_stream *)) \
 X(uint, stream_maxkey, (const kripto_desc_stream *)) \
 X(uint, stream_maxiv, (const kripto_desc_stream *)) \
 X(kripto_hash *, hash_create, (const kripto_desc_hash *, uint, const void *, uint, uint)) \
 X(kripto_hash *, hash_recreate, (kripto_hash *, uint, const void *, uint, uint)) \
 X(void, hash_input, (kripto_hash *, const void *, size_t)) \
 X(void, hash_output, (kripto_hash *, void *, size_t)) \
 X(void, hash_destroy, (kripto_hash *)) \
 X(int, hash_all, (const kripto_desc_hash *, uint, const void *, uint, const void *, size_t, void *, size_t)) \
 X(const kripto_desc_hash *, hash_getdesc, (const kripto_hash *)) \
 X(uint, hash_maxout, (const kripto_desc_hash *)) \
 X(uint, hash_maxsalt, (const kripto_desc_hash *)) \
 X(uint, hash_blocksize, (const kripto_desc_hash *)) \
 X(kripto_mac *, mac_create, (const kripto_desc_mac *, uint, const void *, uint, uint)) \
 X(kripto_mac *, mac_recreate, (kripto_mac *, uint, const void *, uint, uint)) \
 X(void, mac_input, (kripto_mac *, const void *, size_t)) \
 X(void, mac_tag, (kripto_mac *, void *, uint)) \
 X(int, mac_verify, (kripto_mac *, const void *, uint)) \
 X(void, mac_destroy, (kripto_mac *)) \
 X(int, mac_all, (const kripto_desc_mac *, uint, const void *, uint, const void *, uint, void *, uint)) \
 X(const kripto_desc_mac *, mac_getdesc, (const kripto_mac *)) \
 X(uint, mac_maxtag, (const kripto_desc_mac *)) \
 X(uint, mac_maxkey, (const kripto_desc_mac *)) \
 X(kripto_ae *, ae_create, (const kripto_desc_ae *, uint, const void *, uint, const void *, uint, uint)) \
 X(kripto_ae *, ae_recreate, (kripto_ae *, uint, const void *, uint, const void *, uint, uint)) \
 X(void, ae_encrypt, (kripto_ae *, const void *, void *, size_t)) \
 X(void, ae_decrypt, (kripto_ae *, const void *, void *, size_t)) \
 X(void, ae_header, (kripto_ae *, const void *, size_t)) \
 X(void, ae_tag, (kripto_ae *, void *, uint)) \
 X(int, ae_verify, (kripto_ae *, const void *, uint)) \
 X(void, ae_destroy, (kripto_ae *)) \
 X(uint, ae_multof, (const kripto_ae *)) \
 X(const kripto_desc_ae *, ae_getdesc, (const kripto_ae *)) \
 X(uint, ae_maxkey, (const kripto_desc_ae *)) \
 X(uint, ae_maxiv, (const kripto_desc_ae *)) \
 X(uint, ae_maxtag, (const kripto_desc_ae *)) \
 X(int, pbkdf2, (const kripto_desc_mac *, uint, uint, const void *, uint, const void *, uint, void *, size_t)) \
 X(int, scrypt, (const kripto_desc_mac *, uint, uint64_t, uint32_t, uint32_t, const void *, uint, const void *, uint, void *, size_t)) \
 X(size_t, pkcs7_add, (void *, size_t, uint, size_t)) \
 X(size_t, pkcs7_rem, (void *, size_t)) \
 X(void, memory_wipe, (void *, size_t)) \
 X(unsigned char, memory_equals, (const void *, const void *, size_t)) \
 X(kripto_random *, random_create, (void)) \
 X(size_t, random_gen, (kripto_random *, void *, size_t)) \
 X(void, random_destroy, (kripto_random *)) \
 X(int, random_test, (kripto_random *)) \
 X(kripto_desc_stream *, stream_cbc, (const kripto_desc_block *)) \
 X(kripto_desc_stream *, stream_cfb, (const kripto_desc_block *)) \
 X(kripto_desc_stream *, stream_ctr, (const kripto_desc_block *)) \
 X(kripto_desc_stream *, stream_ecb, (const kripto_desc_block *)) \
 X(kripto_desc_stream *, stream_ofb, (const kripto_desc_block *)) \
 X(kripto_desc_mac *, mac_hmac, (const kripto_desc_hash *)) \
 X(kripto_desc_mac *, mac_omac, (const kripto_desc_block *)) \
 X(kripto_desc_mac *, mac_xcbc, (const kripto_desc_block *)) \
 X(kripto_desc_ae *, ae_eax, (const kripto_desc_block *)) \
 X(kripto_desc_ae *, ae_eax2, (const kripto_desc_stream *, const kripto_desc_mac *)) \
 X(kripto_desc_block *, block_gost, (const unsigned char (*)[16])) \
 X(kripto_desc_block *, block_gost_cbr, (void)) \
 X(kripto_desc_block *, block_gost_r34_12_2015, (void))

struct api
{
	void *h;
	const char *path;
#define X(R, N, A) R (*N) A;
	API_FUNCS(X)
#undef X
};

void api_load(struct api *a, const char *path);
/* m_ilp32.c: a build with 32-bit pointers */
int is_ilp32(const struct api *a);
void ilp32_load(struct api *a, const char *path);
const void *ilp32_sym(const char *name);
int ilp32_free(void *p);
long ilp32_blocks(void);
extern int no_toys;

/* ---- RNG ---- */
struct rng { uint64_t s[4]; };
void rng_seed(struct rng *r, uint64_t seed);
uint64_t rnd(struct rng *r);
static inline uint32_t rn(struct rng *r, uint32_t n) { return n ? (uint32_t)((rnd(r) >> 11) % n) : 0; } /* 0..n-1 */
static inline uint32_t rr(struct rng *r, uint32_t lo, uint32_t hi) { return lo + rn(r, hi - lo + 1); }
void rbytes(struct rng *r, void *p, size_t n);	/* uniform */
void rdata(struct rng *r, void *p, size_t n);	/* biased: special words, runs, or uniform */
uint64_t mix64(uint64_t x);

/* ---- algorithm tables ---- */
struct binfo { const char *name; uint bs, mk, mt; };
extern const struct binfo BLOCKS[]; extern const uint NBLOCKS;
struct hinfo { const char *name; uint maxout, bs; uint maxsalt; uint cap; };
extern const struct hinfo HASHES[]; extern const uint NHASHES;
struct sinfo { const char *name; uint mk, miv; };
extern const struct sinfo STREAMS[]; extern const uint NSTREAMS;	/* native stream ciphers */
struct minfo { const char *name; uint maxtag; };
extern const struct minfo MACS[]; extern const uint NMACS;	/* native MACs */

/* block ciphers of the user's own (toy.c): "toy:N" has blocks of N bytes */
const kripto_desc_block *toy_desc(const char *spec);
const struct binfo *toy_info(uint bs);
long toy_live(void);
/* and hashes "toyh:I", MACs "toym:I", streams "toys:I", I < toy_count() */
uint toy_count(void);
const kripto_desc_hash *toyh_desc(const char *spec);
const kripto_desc_mac *toym_desc(const char *spec);
const kripto_desc_stream *toys_desc(const char *spec);
const struct hinfo *toyh_info(uint i);
const struct minfo *toym_info(uint i);
const struct sinfo *toys_info(uint i);
uint toym_maxkey(uint i), toys_unit(uint i);

const struct binfo *binfo(const char *n);
const struct hinfo *hinfo(const char *n);
const struct sinfo *sinfo(const char *n);

extern uint far_rounds;	/* 0: never more than 2^16 rounds; else how seldom */
uint pick_rounds_block(struct rng *r, const struct binfo *b, uint key_len);
uint pick_rounds_hash(struct rng *r, const struct hinfo *h);
uint pick_rounds_stream(struct rng *r, const struct sinfo *s);
uint pick_keylen(struct rng *r, uint max);

/* Descriptors, built from names: "aria", "gost:cbr", "cbc(aria)", "hmac(sha1)",
 * "eax(aria)", "eax2(chacha,hmac(sha1))". */
struct descs { void *v[64]; int n; };
const kripto_desc_block *mk_block(const struct api *a, const char *spec, struct descs *d);
const kripto_desc_stream *mk_stream(const struct api *a, const char *spec, struct descs *d);
const kripto_desc_hash *mk_hash(const struct api *a, const char *spec);
const kripto_desc_mac *mk_mac(const struct api *a, const char *spec, struct descs *d);
const kripto_desc_ae *mk_ae(const struct api *a, const char *spec, struct descs *d);
void free_descs(struct descs *d);

/* random composite specs, with their domains */
struct sspec { char name[64]; const struct binfo *b; const struct sinfo *s; const char *mode; uint mk, miv, multof; int prng; };
void pick_stream(struct rng *r, struct sspec *o, int modes, int natives);
uint rounds_stream(struct rng *r, const struct sspec *s, uint key_len);
struct mspec { char name[64]; const struct binfo *b; const struct hinfo *h; const char *kind; uint maxtag; uint mk; };
void pick_mac(struct rng *r, struct mspec *o);
void mac_toy(struct rng *r, struct mspec *o);
uint rounds_mac(struct rng *r, const struct mspec *m, uint key_len);
uint taglen_mac(struct rng *r, const struct mspec *m);	/* valid create tag_len */
int mac_partial_ok(const struct mspec *m);		/* mac_tag(len < tag_len) is a prefix */
struct aspec { char name[160]; const struct binfo *b; struct sspec s; struct mspec m; int eax2; uint mk, miv, maxtag, multof; };
void pick_ae(struct rng *r, struct aspec *o);
uint rounds_ae(struct rng *r, const struct aspec *a, uint key_len);
uint keylen_ae(struct rng *r, const struct aspec *a);
uint taglen_ae(struct rng *r, const struct aspec *a);
uint pick_ivlen(struct rng *r, uint max);
size_t pick_len(struct rng *r, uint unit);	/* message length, biased to block boundaries */

/* ---- run state, reporting ---- */
struct cfg
{
	uint64_t seed;
	long first, count;	/* case numbers */
	int shard, nshard;
	const char *lib, *gold, *tmp;
	const char *only;	/* restrict to algorithms whose name contains this */
	int quick;
	int nlibs; const char *libs[16];
};
extern struct cfg cfg;
extern struct api T, G;	/* test and golden */

void case_begin(long n, const char *mode);
void note(const char *fmt, ...);	/* describe current case (for crash reports) */
void viol(const char *key, const char *fmt, ...);
void stat_add(const char *name, long n);
void distinct(const char *fmt, ...);	/* count distinct non-trivial cases */
void distinct_h(uint64_t h);
void sample(const char *fmt, ...);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h);
const char *hex(const void *p, size_t n);	/* static rotating buffers, truncated */
#define MUST(X) do { if(!(X)) { viol("api-null", "%s returned failure outside fault injection", #X); return; } } while(0)

/* exact-size buffers with a random misalignment; checked canaries on both sides */
struct buf { uint8_t *p; size_t n; uint8_t *base; size_t total; uint off; };
void buf_new(struct rng *r, struct buf *b, size_t n);
int buf_ok(const struct buf *b);	/* canaries intact */
void buf_free(struct buf *b);

struct mode { const char *name; void (*fn)(struct rng *, long); void (*init)(void); };
#endif
