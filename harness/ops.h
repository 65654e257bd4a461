/* Object scenarios: random parameters, objects of every kind, and random
 * operation sequences whose results are recorded in a transcript. The same
 * (parameters, operation seed) always asks for the same operations, so the
 * transcripts of two runs (other build, other thread, other schedule, fresh
 * or recreated object) must be identical. */
#ifndef OPS_H
#define OPS_H
#include "kv.h"

enum { K_BLOCK, K_STREAM, K_HASH, K_MAC, K_AE, NKIND };
extern const char *const KIND[];

struct par
{
	int kind;
	char spec[160];
	const struct binfo *b;
	const struct hinfo *h;
	struct sspec s;
	struct mspec m;
	struct aspec a;
	uint rounds, klen, ivlen, twlen, outlen;	/* iv is the salt for hashes; outlen is the tag length */
	uint8_t key[512], iv[512], tweak[16];
};

void par_pick(struct rng *r, struct par *p, int kind);	/* kind < 0: any */
void par_vary(struct rng *r, struct par *p);		/* same algorithm, other parameters */
const char *par_str(const struct par *p);

struct tr { uint64_t h; size_t n; uint8_t *log; size_t cap; };	/* log optional */
void tr_init(struct tr *t, int keep);
void tr_add(struct tr *t, const void *p, size_t n);
void tr_free(struct tr *t);

struct obj
{
	const struct api *a;
	struct par p;
	struct descs d;
	const void *desc;
	void *h;		/* 0: not created, or lost in a failed recreate */
	int phase, dir, hinput, used;
	size_t outpos;
};

/* where an input is not freshly made by the operation it can be shared: */
extern int ops_inplace;	/* 0 never, 1 sometimes */
extern uint64_t ops_salt;	/* mixed into the message data (not into sizes) */
extern long ops_count, ops_bytes;
extern void (*ops_out)(const void *p, size_t n);	/* sees every library output */

void obj_desc(const struct api *a, struct obj *o, const struct par *p);	/* descriptors only */
int obj_create(struct obj *o);				/* 1 ok */
int obj_recreate(struct obj *o, const struct par *p);	/* 1 ok; else object is gone */
void obj_ops(struct obj *o, uint64_t opseed, int nops, struct tr *t);
void obj_end(struct obj *o);	/* destroy handle */
void obj_close(struct obj *o);	/* destroy handle and descriptors */
#endif
