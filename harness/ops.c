#include "ops.h"

const char *const KIND[] = {"block", "stream", "hash", "mac", "ae"};
int ops_inplace = 1;
uint64_t ops_salt;
long ops_count, ops_bytes;
void (*ops_out)(const void *, size_t);

static uint par_rounds(struct rng *r, const struct par *p)
{
	switch(p->kind)
	{
		case K_BLOCK: return pick_rounds_block(r, p->b, p->klen);
		case K_STREAM: return rounds_stream(r, &p->s, p->klen);
		case K_HASH: return pick_rounds_hash(r, p->h);
		case K_MAC: return rounds_mac(r, &p->m, p->klen);
		case K_AE: return rounds_ae(r, &p->a, p->klen);
	}
	return 0;
}

static void par_params(struct rng *r, struct par *p)
{
	p->ivlen = p->twlen = p->outlen = 0;
	switch(p->kind)
	{
		case K_BLOCK:
			p->klen = pick_keylen(r, p->b->mk);
			p->rounds = pick_rounds_block(r, p->b, p->klen);
			p->twlen = p->b->mt ? pick_ivlen(r, p->b->mt) : 0;
			break;
		case K_STREAM:
			p->klen = pick_keylen(r, p->s.mk);
			p->rounds = rounds_stream(r, &p->s, p->klen);
			p->ivlen = pick_ivlen(r, p->s.miv);
			break;
		case K_HASH:
			p->klen = 0;
			p->rounds = pick_rounds_hash(r, p->h);
			p->ivlen = p->h->maxsalt ? pick_ivlen(r, p->h->maxsalt) : 0;
			p->outlen = p->h->maxout ? p->h->maxout : p->h->cap;
			if(rn(r, 2)) p->outlen = rr(r, 1, p->outlen);
			break;
		case K_MAC:
			p->klen = pick_keylen(r, p->m.mk);
			p->rounds = rounds_mac(r, &p->m, p->klen);
			p->outlen = taglen_mac(r, &p->m);
			break;
		case K_AE:
			p->klen = keylen_ae(r, &p->a);
			p->rounds = rounds_ae(r, &p->a, p->klen);
			p->ivlen = pick_ivlen(r, p->a.miv);
			p->outlen = taglen_ae(r, &p->a);
			break;
	}
	rdata(r, p->key, p->klen);
	rdata(r, p->iv, p->ivlen);
	rdata(r, p->tweak, p->twlen);
}

void par_pick(struct rng *r, struct par *p, int kind)
{
	for(int tries = 0; tries < 20000; tries++)
	{
		memset(p, 0, sizeof *p);
		p->kind = kind >= 0 ? kind : (int)rn(r, NKIND);
		switch(p->kind)
		{
			case K_BLOCK: p->b = BLOCKS + rn(r, NBLOCKS); strcpy(p->spec, p->b->name); break;
			case K_STREAM: pick_stream(r, &p->s, 1, 1); strcpy(p->spec, p->s.name); break;
			case K_HASH: p->h = HASHES + rn(r, NHASHES); strcpy(p->spec, p->h->name); break;
			case K_MAC: pick_mac(r, &p->m); strcpy(p->spec, p->m.name); break;
			case K_AE: pick_ae(r, &p->a); strcpy(p->spec, p->a.name); break;
		}
		if(!cfg.only || strstr(p->spec, cfg.only)) break;
	}
	par_params(r, p);
}

void par_vary(struct rng *r, struct par *p)
{
	struct par q = *p;
	par_params(r, p);
	/* keep some of the parameters now and then */
	if(!rn(r, 4)) { p->klen = q.klen; memcpy(p->key, q.key, sizeof q.key); p->rounds = q.rounds; }
	/* or make them relatives of the old ones */
	else if(!rn(r, 3)) switch(rn(r, 4))
	{
		case 0: /* the key only */
			p->klen = q.klen; memcpy(p->key, q.key, sizeof q.key);
			p->rounds = par_rounds(r, p);
			break;
		case 1: /* one byte of the key */
			p->klen = q.klen; memcpy(p->key, q.key, sizeof q.key);
			p->rounds = q.rounds;
			if(p->klen) p->key[rn(r, 2) ? p->klen - 1 : rn(r, p->klen)] ^= 1 << rn(r, 8);
			break;
		case 2: /* the beginning of the key */
			memcpy(p->key, q.key, p->klen < q.klen ? p->klen : q.klen);
			break;
		case 3: /* a longer or shorter key that is the same but for zeros */
			memset(p->key, 0, sizeof p->key);
			memcpy(p->key, q.key, p->klen < q.klen ? p->klen : q.klen);
			break;
	}
	if(!rn(r, 4)) { p->ivlen = q.ivlen; memcpy(p->iv, q.iv, sizeof q.iv); }
	else if(!rn(r, 3))
	{
		if(rn(r, 2)) p->ivlen = q.ivlen;
		else if(rn(r, 2)) memset(p->iv, 0, sizeof p->iv);
		memcpy(p->iv, q.iv, p->ivlen < q.ivlen ? p->ivlen : q.ivlen);
		if(p->ivlen && p->ivlen == q.ivlen) p->iv[rn(r, p->ivlen)] ^= 1 << rn(r, 8);
	}
	if(!rn(r, 3)) { p->twlen = q.twlen; memcpy(p->tweak, q.tweak, sizeof q.tweak); }
	if(!rn(r, 4)) p->outlen = q.outlen;
}

const char *par_str(const struct par *p)
{
	static char b[2][2400];
	static int k;
	char *o = b[k ^= 1];
	snprintf(o, sizeof b[0], "%s %s rounds=%u key(%u)=%s iv/salt(%u)=%s tweak(%u)=%s outlen=%u", KIND[p->kind], p->spec, p->rounds,
		p->klen, hex(p->key, p->klen), p->ivlen, hex(p->iv, p->ivlen), p->twlen, hex(p->tweak, p->twlen), p->outlen);
	return o;
}

void tr_init(struct tr *t, int keep)
{
	memset(t, 0, sizeof *t);
	t->h = 0xABCDEF;
	if(keep) t->log = malloc(t->cap = 4096);
}

void tr_add(struct tr *t, const void *p, size_t n)
{
	t->h = hash_bytes(p, n, t->h);
	if(t->log)
	{
		if(t->n + n > t->cap) t->log = realloc(t->log, t->cap = (t->n + n) * 2);
		memcpy(t->log + t->n, p, n);
	}
	t->n += n;
}

void tr_free(struct tr *t) { free(t->log); t->log = 0; }

void obj_desc(const struct api *a, struct obj *o, const struct par *p)
{
	memset(o, 0, sizeof *o);
	o->a = a;
	o->p = *p;
	switch(p->kind)
	{
		case K_BLOCK: o->desc = mk_block(a, p->spec, &o->d); break;
		case K_STREAM: o->desc = mk_stream(a, p->spec, &o->d); break;
		case K_HASH: o->desc = mk_hash(a, p->spec); break;
		case K_MAC: o->desc = mk_mac(a, p->spec, &o->d); break;
		case K_AE: o->desc = mk_ae(a, p->spec, &o->d); break;
	}
}

static void fresh(struct obj *o)
{
	o->phase = 0; o->dir = 0; o->outpos = 0; o->hinput = 0; o->used = 0;
	if(o->h && o->p.kind == K_BLOCK && o->p.twlen) o->a->block_tweak(o->h, o->p.tweak, o->p.twlen);
}

/* arguments are handed over in exact heap copies that are destroyed right
 * after the call: the object must not depend on them later */
struct tmp { uint8_t *p; size_t n; };
static struct tmp dup_(const void *p, size_t n)
{
	struct tmp t = {malloc(n ? n : 1), n};
	memcpy(t.p, p, n);
	return t;
}
static void drop(struct tmp *t) { memset(t->p, 0xEE, t->n); free(t->p); }

int obj_create(struct obj *o)
{
	const struct api *a = o->a;
	const struct par *p = &o->p;
	struct tmp k = dup_(p->key, p->klen), v = dup_(p->iv, p->ivlen);
	switch(p->kind)
	{
		case K_BLOCK: o->h = a->block_create(o->desc, p->rounds, k.p, p->klen); break;
		case K_STREAM: o->h = a->stream_create(o->desc, p->rounds, k.p, p->klen, v.p, p->ivlen); break;
		case K_HASH: o->h = a->hash_create(o->desc, p->rounds, v.p, p->ivlen, p->outlen); break;
		case K_MAC: o->h = a->mac_create(o->desc, p->rounds, k.p, p->klen, p->outlen); break;
		case K_AE: o->h = a->ae_create(o->desc, p->rounds, k.p, p->klen, v.p, p->ivlen, p->outlen); break;
	}
	if(memcmp(k.p, p->key, p->klen) || memcmp(v.p, p->iv, p->ivlen))
		viol("input-modified", "create changed its key or IV: %s", par_str(p));
	drop(&k); drop(&v);
	fresh(o);
	return !!o->h;
}

int obj_recreate(struct obj *o, const struct par *np)
{
	const struct api *a = o->a;
	const struct par *p = &o->p;
	o->p = *np;
	struct tmp k = dup_(p->key, p->klen), v = dup_(p->iv, p->ivlen);
	switch(p->kind)
	{
		case K_BLOCK: o->h = a->block_recreate(o->h, p->rounds, k.p, p->klen); break;
		case K_STREAM: o->h = a->stream_recreate(o->h, p->rounds, k.p, p->klen, v.p, p->ivlen); break;
		case K_HASH: o->h = a->hash_recreate(o->h, p->rounds, v.p, p->ivlen, p->outlen); break;
		case K_MAC: o->h = a->mac_recreate(o->h, p->rounds, k.p, p->klen, p->outlen); break;
		case K_AE: o->h = a->ae_recreate(o->h, p->rounds, k.p, p->klen, v.p, p->ivlen, p->outlen); break;
	}
	if(memcmp(k.p, p->key, p->klen) || memcmp(v.p, p->iv, p->ivlen))
		viol("input-modified", "recreate changed its key or IV: %s", par_str(p));
	drop(&k); drop(&v);
	fresh(o);
	return !!o->h;
}

void obj_end(struct obj *o)
{
	if(!o->h) return;
	switch(o->p.kind)
	{
		case K_BLOCK: o->a->block_destroy(o->h); break;
		case K_STREAM: o->a->stream_destroy(o->h); break;
		case K_HASH: o->a->hash_destroy(o->h); break;
		case K_MAC: o->a->mac_destroy(o->h); break;
		case K_AE: o->a->ae_destroy(o->h); break;
	}
	o->h = 0;
}

void obj_close(struct obj *o) { obj_end(o); free_descs(&o->d); }

static size_t msg_len(struct rng *r, uint unit, uint multof)
{
	size_t n = pick_len(r, unit);
	return n - n % multof;
}

static void mdata(struct rng *r, void *p, size_t n)
{
	struct rng q;
	rng_seed(&q, rnd(r) ^ ops_salt);
	rdata(&q, p, n);
}

static void emit(struct obj *o, struct tr *t, const struct buf *b, const char *what)
{
	if(!buf_ok(b)) viol("out-of-bounds", "%s wrote outside its output buffer: %s", what, par_str(&o->p));
	if(ops_out) ops_out(b->p, b->n);
	tr_add(t, b->p, b->n);
	__sync_fetch_and_add(&ops_count, 1);
	__sync_fetch_and_add(&ops_bytes, (long)b->n);
}

/* one in-to-out transformation */
static void xform(struct obj *o, struct rng *r, struct tr *t, size_t n, int kind, int dec)
{
	struct buf in, out;
	uint8_t *copy = malloc(n ? n : 1);
	int inplace = rn(r, 4) == 0;
	if(!ops_inplace) inplace = 0;
	buf_new(r, &in, n);
	buf_new(r, &out, n);
	mdata(r, in.p, n);
	memcpy(copy, in.p, n);
	void *dst = inplace ? in.p : out.p;
	switch(kind * 2 + dec)
	{
		case K_BLOCK * 2: o->a->block_encrypt(o->h, in.p, dst); break;
		case K_BLOCK * 2 + 1: o->a->block_decrypt(o->h, in.p, dst); break;
		case K_STREAM * 2: o->a->stream_encrypt(o->h, in.p, dst, n); break;
		case K_STREAM * 2 + 1: o->a->stream_decrypt(o->h, in.p, dst, n); break;
		case K_AE * 2: o->a->ae_encrypt(o->h, in.p, dst, n); break;
		case K_AE * 2 + 1: o->a->ae_decrypt(o->h, in.p, dst, n); break;
	}
	if(!inplace && memcmp(copy, in.p, n)) viol("input-modified", "%s changed its input: %s", dec ? "decrypt" : "encrypt", par_str(&o->p));
	emit(o, t, inplace ? &in : &out, dec ? "decrypt" : "encrypt");
	if(!buf_ok(&in)) viol("out-of-bounds", "%s wrote outside a buffer: %s", dec ? "decrypt" : "encrypt", par_str(&o->p));
	free(copy);
	buf_free(&in); buf_free(&out);
}

static void feed(struct obj *o, struct rng *r, size_t n, int kind)
{
	struct buf in;
	uint8_t *copy = malloc(n ? n : 1);
	buf_new(r, &in, n);
	mdata(r, in.p, n);
	memcpy(copy, in.p, n);
	if(kind == K_HASH) o->a->hash_input(o->h, in.p, n);
	else if(kind == K_MAC) o->a->mac_input(o->h, in.p, n);
	else o->a->ae_header(o->h, in.p, n);
	if(memcmp(copy, in.p, n) || !buf_ok(&in)) viol("input-modified", "input/header changed its input: %s", par_str(&o->p));
	__sync_fetch_and_add(&ops_count, 1);
	__sync_fetch_and_add(&ops_bytes, (long)n);
	free(copy);
	buf_free(&in);
}

/* the end of a MAC or AE script: take the tag, or verify one that was computed before by
 * an object of its own (f->tag; sometimes spoilt) */
struct fin { int verify, spoil; size_t n; uint8_t *keep, tag[1024]; };

static void finish(struct obj *o, struct rng *r, struct tr *t, size_t n, struct fin *f)
{
	struct buf b;
	uint8_t e;
	buf_new(r, &b, n);
	if(f && f->verify && f->n == n && n <= sizeof f->tag)
	{
		memcpy(b.p, f->tag, n);
		if(f->spoil) b.p[rn(r, n)] ^= 1 << rn(r, 8);
		e = (o->p.kind == K_MAC ? o->a->mac_verify(o->h, b.p, n) : o->a->ae_verify(o->h, b.p, n)) != 0;
		if(!buf_ok(&b)) viol("out-of-bounds", "verify wrote to the tag: %s", par_str(&o->p));
		tr_add(t, &e, 1);
		__sync_fetch_and_add(&ops_count, 1);
	}
	else
	{
		if(o->p.kind == K_MAC) o->a->mac_tag(o->h, b.p, n); else o->a->ae_tag(o->h, b.p, n);
		if(f && f->verify) { e = !f->spoil; tr_add(t, &e, 1); }	/* the other object could not be made */
		else emit(o, t, &b, o->p.kind == K_MAC ? "mac_tag" : "ae_tag");
		if(f && f->keep && n <= sizeof f->tag) { memcpy(f->keep, b.p, n); f->n = n; }
	}
	buf_free(&b);
}

static void run_ops(struct obj *o, uint64_t opseed, int nops, struct tr *t, struct fin *f)
{
	struct rng rg, *r = &rg;
	const struct par *p = &o->p;
	struct buf b;
	size_t n;

	rng_seed(r, opseed);
	if(o->phase == 9) return;	/* output already taken */
	o->used = 1;
	while(nops-- > 0 && o->h) switch(p->kind)
	{
		case K_BLOCK:
			if(p->b->mt && rn(r, 6) == 0)
			{
				uint tl = rr(r, 1, p->b->mt);
				uint8_t tw[16];
				mdata(r, tw, tl);
				struct tmp x = dup_(tw, tl);
				o->a->block_tweak(o->h, x.p, tl);
				drop(&x);
			}
			xform(o, r, t, p->b->bs, K_BLOCK, rn(r, 2));
			break;
		case K_STREAM:
		{
			uint unit = p->s.b ? p->s.b->bs : 64;
			n = msg_len(r, unit, p->s.multof);
			if(!o->phase) { o->phase = 1; o->dir = rn(r, 2); }
			if(p->s.prng && (!p->s.b || strcmp(p->s.mode, "cfb")) && rn(r, 4) == 0)
			{
				buf_new(r, &b, n);
				o->a->stream_prng(o->h, b.p, n);
				emit(o, t, &b, "prng");
				buf_free(&b);
			}
			else xform(o, r, t, n, K_STREAM, o->dir);
			break;
		}
		case K_HASH:
			if(!o->phase && (nops > 1 && rn(r, 4))) { feed(o, r, msg_len(r, p->h->bs, 1), K_HASH); break; }
			o->phase = 1;
			n = p->outlen - o->outpos;
			if(rn(r, 2)) n = rn(r, n + 1);

			buf_new(r, &b, n);
			o->a->hash_output(o->h, b.p, n);
			emit(o, t, &b, "hash_output");
			buf_free(&b);
			o->outpos += n;
			if(o->outpos == p->outlen) { o->phase = 9; return; }
			break;
		case K_MAC:
			if(nops > 0 ? rn(r, 5) : rn(r, 3) == 0) { feed(o, r, msg_len(r, p->m.b ? p->m.b->bs : 64, 1), K_MAC); break; }
			n = p->outlen;
			if(mac_partial_ok(&p->m) && rn(r, 3) == 0) n = rr(r, 1, n);
			finish(o, r, t, n, f);
			o->phase = 9;
			return;
		case K_AE:
			if(!o->phase) { o->phase = 1; o->dir = rn(r, 2); }
			if(nops > 0 ? rn(r, 6) : rn(r, 3) == 0)
			{
				uint unit = p->a.eax2 ? 16 : p->a.b->bs;
				n = msg_len(r, unit, p->a.multof);
				if(rn(r, 3) == 0) feed(o, r, n, K_AE);
				else xform(o, r, t, n, K_AE, o->dir);
				break;
			}
			n = p->outlen;
			if((!p->a.eax2 || mac_partial_ok(&p->a.m)) && rn(r, 3) == 0) n = rr(r, 1, n);
			finish(o, r, t, n, f);
			o->phase = 9;
			return;
	}
}

void obj_ops(struct obj *o, uint64_t opseed, int nops, struct tr *t)
{
	struct fin f;
	uint64_t x = mix64(opseed ^ 0x5EED);
	memset(&f, 0, sizeof f);
	if(o->h && (o->p.kind == K_MAC || o->p.kind == K_AE) && !o->used && x % 3 == 0)
	{
		struct obj s = *o;
		struct tr none;
		tr_init(&none, 0);
		s.h = 0;
		if(obj_create(&s))
		{
			f.keep = f.tag;
			run_ops(&s, opseed, nops, &none, &f);
			f.keep = 0;
			obj_end(&s);
		}
		f.verify = 1;
		f.spoil = x / 3 % 3 == 0;
	}
	run_ops(o, opseed, nops, t, f.verify ? &f : 0);
}
