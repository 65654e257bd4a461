/* Block ciphers, native stream ciphers and hash functions against the frozen
 * reference build; inversion, segmentation and block-mode models on the
 * library alone. */
#include "ops.h"

const kripto_desc_hash *mk_hash_t(const struct api *a, const char *n) { return mk_hash(a, n); }

static const struct binfo *pb(struct rng *r)
{
	const struct binfo *b;
	int k = 0;
	do b = BLOCKS + rn(r, NBLOCKS); while(cfg.only && !strstr(b->name, cfg.only) && k++ < 5000);
	return b;
}

/* ---- block cipher conformance ---- */
void m_block(struct rng *r, long n)
{
	struct par p;
	struct obj t, g;
	uint8_t in[128], x[128], y[128];
	int i;

	far_rounds = 60;
	/* sweep key lengths and algorithms systematically, the rest at random */
	memset(&p, 0, sizeof p);
	p.kind = K_BLOCK;
	p.b = cfg.only ? pb(r) : BLOCKS + (n % NBLOCKS);
	strcpy(p.spec, p.b->name);
	p.klen = 1 + (n / NBLOCKS) % p.b->mk;
	if(rn(r, 3) == 0) p.klen = pick_keylen(r, p.b->mk);
	p.rounds = pick_rounds_block(r, p.b, p.klen);
	p.twlen = p.b->mt ? rn(r, p.b->mt + 1) : 0;
	rdata(r, p.key, p.klen);
	rdata(r, p.tweak, p.twlen);
	note("%s", par_str(&p));
	obj_desc(&T, &t, &p); obj_desc(&G, &g, &p);
	MUST(obj_create(&t)); MUST(obj_create(&g));
	for(i = 0; i < 24; i++)
	{
		int dec = i & 1;
		rdata(r, in, p.b->bs);
		if(i >= 20) memcpy(in, x, p.b->bs); /* chain */
		if(dec) { T.block_decrypt(t.h, in, x); G.block_decrypt(g.h, in, y); }
		else { T.block_encrypt(t.h, in, x); G.block_encrypt(g.h, in, y); }
		if(memcmp(x, y, p.b->bs))
		{
			viol("block-conformance", "%s: %s of %s gave %s, reference %s", par_str(&p), dec ? "decrypt" : "encrypt",
				hex(in, p.b->bs), hex(x, p.b->bs), hex(y, p.b->bs));
			break;
		}
		stat_add("blocks_compared", 1);
		if(p.b->mt && i % 6 == 5)
		{
			p.twlen = rn(r, p.b->mt + 1);
			rdata(r, p.tweak, p.twlen);
			if(p.twlen) T.block_tweak(t.h, p.tweak, p.twlen);
			if(p.twlen) G.block_tweak(g.h, p.tweak, p.twlen);
		}
	}
	distinct("%s key_len=%u rounds=%u tweak_len=%u key=%s", p.spec, p.klen, p.rounds, p.twlen, hex(p.key, p.klen > 16 ? 16 : p.klen));
	obj_close(&t); obj_close(&g);
}

/* ---- decrypt inverts encrypt, both ways, in place, repeatedly ---- */
void m_blockinv(struct rng *r, long n)
{
	struct par p;
	struct obj t;
	uint8_t in[128], x[128], y[128], z[128];
	int i;

	far_rounds = 60;
	memset(&p, 0, sizeof p);
	p.kind = K_BLOCK;
	p.b = cfg.only ? pb(r) : BLOCKS + (n % NBLOCKS);
	strcpy(p.spec, p.b->name);
	p.klen = 1 + (n / NBLOCKS) % p.b->mk;
	if(rn(r, 3) == 0) p.klen = pick_keylen(r, p.b->mk);
	p.rounds = pick_rounds_block(r, p.b, p.klen);
	p.twlen = p.b->mt ? rn(r, p.b->mt + 1) : 0;
	rdata(r, p.key, p.klen);
	rdata(r, p.tweak, p.twlen);
	note("%s", par_str(&p));
	obj_desc(&T, &t, &p);
	MUST(obj_create(&t));
	for(i = 0; i < 32; i++)
	{
		rdata(r, in, p.b->bs);
		if(i & 1) { T.block_decrypt(t.h, in, x); T.block_encrypt(t.h, x, y); }
		else { T.block_encrypt(t.h, in, x); T.block_decrypt(t.h, x, y); }
		if(memcmp(in, y, p.b->bs))
		{
			viol("block-inverse", "%s: %s of %s does not come back: %s -> %s", par_str(&p), i & 1 ? "encrypt(decrypt)" : "decrypt(encrypt)",
				hex(in, p.b->bs), hex(x, p.b->bs), hex(y, p.b->bs));
			break;
		}
		/* the same object gives the same answer again, also in place */
		memcpy(z, in, p.b->bs);
		if(i & 1) T.block_decrypt(t.h, z, z); else T.block_encrypt(t.h, z, z);
		if(memcmp(z, x, p.b->bs)) { viol("block-unstable", "%s: in place on %s gave %s, before %s", par_str(&p), hex(in, p.b->bs), hex(z, p.b->bs), hex(x, p.b->bs)); break; }
		stat_add("round_trips", 1);
		if(p.b->mt && i % 8 == 7)
		{
			p.twlen = rn(r, p.b->mt + 1);
			rdata(r, p.tweak, p.twlen);
			if(p.twlen) T.block_tweak(t.h, p.tweak, p.twlen);
		}
		if(rn(r, 12) == 0)
		{
			p.klen = pick_keylen(r, p.b->mk);
			p.rounds = pick_rounds_block(r, p.b, p.klen);
			rdata(r, p.key, p.klen);
			MUST(obj_recreate(&t, &p));
			note("%s", par_str(&p));
		}
	}
	distinct("%s key_len=%u rounds=%u tweak_len=%u key=%s", p.spec, p.klen, p.rounds, p.twlen, hex(p.key, p.klen > 16 ? 16 : p.klen));
	obj_close(&t);
}

/* ---- native stream ciphers against the reference ---- */
static void pick_native(struct rng *r, struct par *p, long n)
{
	memset(p, 0, sizeof *p);
	p->kind = K_STREAM;
	if(cfg.only) pick_stream(r, &p->s, 0, 1);
	else
	{
		p->s.s = STREAMS + n % NSTREAMS;
		strcpy(p->s.name, p->s.s->name);
		p->s.mk = p->s.s->mk; p->s.miv = p->s.s->miv; p->s.multof = 1; p->s.prng = 1;
	}
	strcpy(p->spec, p->s.name);
	p->klen = p->s.mk > 300 ? 1 + (n / NSTREAMS) % 260 : 1 + (n / NSTREAMS) % p->s.mk;
	if(rn(r, 3) == 0) p->klen = pick_keylen(r, p->s.mk);
	p->rounds = rounds_stream(r, &p->s, p->klen);
	p->ivlen = pick_ivlen(r, p->s.miv);
	rdata(r, p->key, p->klen);
	rdata(r, p->iv, p->ivlen);
}

void m_stream(struct rng *r, long n)
{
	struct par p;
	struct obj t, g;
	size_t len, off;
	uint8_t *in, *x, *y;

	far_rounds = 12;
	pick_native(r, &p, n);
	note("%s", par_str(&p));
	obj_desc(&T, &t, &p); obj_desc(&G, &g, &p);
	MUST(obj_create(&t)); MUST(obj_create(&g));
	len = rn(r, 40) == 0 ? 70000 + rn(r, 300) : pick_len(r, 64) + pick_len(r, 64);
	in = malloc(len + 1); x = malloc(len + 1); y = malloc(len + 1);
	rdata(r, in, len);
	int dec = rn(r, 2), prng = rn(r, 4) == 0;
	for(off = 0; off < len;)
	{
		size_t k = rn(r, 3) ? len - off : 1 + rn(r, len - off);
		if(prng) { T.stream_prng(t.h, x + off, k); G.stream_prng(g.h, y + off, k); }
		else if(dec) { T.stream_decrypt(t.h, in + off, x + off, k); G.stream_decrypt(g.h, in + off, y + off, k); }
		else { T.stream_encrypt(t.h, in + off, x + off, k); G.stream_encrypt(g.h, in + off, y + off, k); }
		off += k;
	}
	if(memcmp(x, y, len))
	{
		for(off = 0; x[off] == y[off]; off++);
		viol("stream-conformance", "%s: %s of %zu bytes differs from the reference at byte %zu", par_str(&p), prng ? "prng" : dec ? "decrypt" : "encrypt", len, off);
	}
	stat_add("bytes_compared", len);
	distinct("%s key_len=%u rounds=%u iv_len=%u len=%zu key=%s", p.spec, p.klen, p.rounds, p.ivlen, len, hex(p.key, p.klen > 16 ? 16 : p.klen));
	free(in); free(x); free(y);
	obj_close(&t); obj_close(&g);
}

/* ---- any stream: segmentation, inversion, prng = keystream ---- */
void m_streamseg(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	size_t len, off, k;
	uint8_t *pt, *ct, *x;
	uint mo;

	(void)n;
	par_pick(r, &p, K_STREAM);
	if(p.s.b && rn(r, 4) == 0) memset(p.iv, 0xFF, p.ivlen);
	if(p.s.b && p.ivlen && rn(r, 6) == 0) p.iv[p.ivlen - 1] = 0x100 - rr(r, 1, 20);
	note("%s", par_str(&p));
	obj_desc(&T, &o, &p);
	MUST(obj_create(&o));
	mo = T.stream_multof(o.h);
	if(mo != p.s.multof) { viol("stream-multof", "%s: multof %u, expected %u", par_str(&p), mo, p.s.multof); obj_close(&o); return; }
	len = pick_len(r, p.s.b ? p.s.b->bs : 64) + pick_len(r, p.s.b ? p.s.b->bs : 64);
	if(rn(r, 60) == 0) len = 66000 + rn(r, 3000);
	len -= len % mo;
	pt = malloc(len + 1); ct = malloc(len + 1); x = malloc(len + 1);
	rdata(r, pt, len);
	if(rn(r, 4) == 0)
	{
		/* pieces that repeat the ciphertext or plaintext before them */
		struct obj q;
		uint u = p.s.b ? p.s.b->bs : 64;
		obj_desc(&T, &q, &p);
		MUST(obj_create(&q));
		for(off = 0; off + u <= len; off += u)
		{
			if(off && rn(r, 2)) memcpy(pt + off, rn(r, 3) ? ct + off - u : pt + off - u, u);
			T.stream_encrypt(q.h, pt + off, ct + off, u);
			stat_add("related_blocks", 1);
		}
		obj_close(&q);
	}
	T.stream_encrypt(o.h, pt, ct, len);

	int ks = strcmp(p.s.mode ? p.s.mode : "", "cbc") && strcmp(p.s.mode ? p.s.mode : "", "cfb") && strcmp(p.s.mode ? p.s.mode : "", "ecb");
	for(int pass = 0; pass < 5; pass++)
	{
		/* 0: chunked encrypt; 1: chunked decrypt; 2: one-shot decrypt; 3: in-place chunked; 4: prng / mixed directions */
		const char *what[] = {"encrypt in pieces", "decrypt in pieces", "decrypt at once", "in-place pieces", "keystream"};
		const uint8_t *want = ct;
		struct obj q;
		if(pass == 4 && !p.s.prng) break;
		obj_desc(&T, &q, &p);
		MUST(obj_create(&q));
		memcpy(x, pt, len);
		for(off = 0; off < len;)
		{
			uint u = (len - off) / mo;
			k = rn(r, 8) == 0 ? 0 : (size_t)mo * (rn(r, 2) ? 1 + rn(r, u > 20 ? 20 : u) : 1 + rn(r, u));
			if(k > len - off) k = len - off;
			switch(pass)
			{
				case 0: T.stream_encrypt(q.h, pt + off, x + off, k); break;
				case 1: want = pt; T.stream_decrypt(q.h, ct + off, x + off, k); break;
				case 2: want = pt; k = len; T.stream_decrypt(q.h, ct, x, len); break;
				case 3: T.stream_encrypt(q.h, x + off, x + off, k); break;
				case 4:
					if(ks && rn(r, 2)) { if(rn(r, 2)) T.stream_encrypt(q.h, pt + off, x + off, k); else T.stream_decrypt(q.h, pt + off, x + off, k); break; }
					if(!ks) { memset(x + off, 0, k); T.stream_encrypt(q.h, x + off, x + off, k); break; } /* CFB: compared below */
					T.stream_prng(q.h, x + off, k);
					for(size_t i = 0; i < k; i++) x[off + i] ^= pt[off + i];
					break;
			}
			off += k;
		}
		if(pass == 4 && !ks)
		{
			/* CFB generator output is the keystream of an all-zero message */
			struct obj q2;
			uint8_t *z = malloc(len + 1);
			obj_desc(&T, &q2, &p);
			MUST(obj_create(&q2));
			for(off = 0; off < len; off += k) { k = 1 + rn(r, len - off); T.stream_prng(q2.h, z + off, k); }
			if(memcmp(x, z, len)) viol("stream-prng", "%s: generator output differs from the keystream", par_str(&p));
			free(z);
			obj_close(&q2);
			want = x;
		}
		if(memcmp(want, x, len))
		{
			for(off = 0; want[off] == x[off]; off++);
			viol(pass == 4 ? "stream-prng" : pass == 1 || pass == 2 ? "stream-inverse" : "stream-segmentation",
				"%s: %s differs from one call over %zu bytes at byte %zu", par_str(&p), what[pass], len, off);
		}
		stat_add("passes", 1);
		obj_close(&q);
	}
	stat_add("bytes", len);
	if(len) distinct("%s key_len=%u rounds=%u iv_len=%u len=%zu key=%s", p.spec, p.klen, p.rounds, p.ivlen, len, hex(p.key, p.klen > 16 ? 16 : p.klen));
	free(pt); free(ct); free(x);
	obj_close(&o);
}

/* ---- block modes: textbook definition over the library's own block cipher ---- */
void m_modes(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	struct descs d = {{0}, 0};
	kripto_block *b;
	uint8_t iv[256], ks[256], *in, *want, *got;
	uint bs, used, i;
	size_t len, off, k;

	(void)n;
	memset(&p, 0, sizeof p);
	p.kind = K_STREAM;
	pick_stream(r, &p.s, 1, 0);
	strcpy(p.spec, p.s.name);
	p.klen = pick_keylen(r, p.s.mk);
	p.rounds = rounds_stream(r, &p.s, p.klen);
	p.ivlen = pick_ivlen(r, p.s.miv);
	rdata(r, p.key, p.klen);
	rdata(r, p.iv, p.ivlen);
	/* counters close to wrapping at every width */
	if(p.ivlen && rn(r, 2))
	{
		uint ff = 1 + rn(r, p.ivlen);
		memset(p.iv + p.ivlen - ff, 0xFF, ff);
		if(rn(r, 2)) p.iv[p.ivlen - 1] -= rn(r, 30);
	}
	bs = p.s.b->bs;
	note("%s", par_str(&p));
	obj_desc(&T, &o, &p);
	MUST(obj_create(&o));
	MUST((b = T.block_create(mk_block(&T, p.s.b->name, &d), p.rounds, p.key, p.klen)));
	len = pick_len(r, bs) + pick_len(r, bs);
	if(rn(r, 50) == 0) len += (size_t)bs * 260;	/* carries out of the last byte */
	len -= len % p.s.multof;
	in = malloc(len + 1); want = malloc(len + 1); got = malloc(len + 1);
	rdata(r, in, len);
	memset(iv, 0, sizeof iv);
	memcpy(iv, p.iv, p.ivlen);
	int dec = rn(r, 2);
	const char *m = p.s.mode;
	used = bs;
	/* blocks that stand in a relation to what the cipher made of the ones
	   before them, which no amount of random data would do */
	int craft = rn(r, 3) == 0;
	for(off = 0; off < len; off++)
	{
		if(!strcmp(m, "ecb") || !strcmp(m, "cbc"))
		{
			uint8_t t[256];
			if(craft && rn(r, 3))
			{
				int cbc = !strcmp(m, "cbc");
				switch(rn(r, 6))
				{
					case 0: if(off) memcpy(in + off, in + off - bs, bs); break;
					case 1: if(off) memcpy(in + off, want + off - bs, bs); break;
					case 2: memcpy(in + off, iv, bs); break;
					case 3: /* gives zeros */
						memset(t, 0, bs);
						if(dec) { if(cbc) memcpy(t, iv, bs); T.block_encrypt(b, t, in + off); }
						else { T.block_decrypt(b, t, in + off); if(cbc) for(i = 0; i < bs; i++) in[off + i] ^= iv[i]; }
						break;
					case 4: /* gives what the block before gave */
						if(!off) break;
						memcpy(t, want + off - bs, bs);
						if(dec) { if(cbc) for(i = 0; i < bs; i++) t[i] ^= iv[i]; T.block_encrypt(b, t, in + off); }
						else { T.block_decrypt(b, t, in + off); if(cbc) for(i = 0; i < bs; i++) in[off + i] ^= iv[i]; }
						break;
					case 5: memset(in + off, rn(r, 2) ? 0 : 0xFF, bs); break;
				}
				stat_add("related_blocks", 1);
			}
			if(!strcmp(m, "ecb")) { if(dec) T.block_decrypt(b, in + off, want + off); else T.block_encrypt(b, in + off, want + off); }
			else if(dec)
			{
				T.block_decrypt(b, in + off, t);
				for(i = 0; i < bs; i++) want[off + i] = t[i] ^ iv[i];
				memcpy(iv, in + off, bs);
			}
			else
			{
				for(i = 0; i < bs; i++) t[i] = in[off + i] ^ iv[i];
				T.block_encrypt(b, t, want + off);
				memcpy(iv, want + off, bs);
			}
			off += bs - 1;
			continue;
		}
		if(used == bs)
		{
			T.block_encrypt(b, iv, ks);
			if(!strcmp(m, "ctr")) for(i = bs; i-- && !++iv[i];);
			if(!strcmp(m, "ofb")) memcpy(iv, ks, bs);
			used = 0;
			if(craft && off + bs <= len && rn(r, 3))
			{
				int how = rn(r, 6);
				for(i = 0; i < bs; i++) switch(how)
				{
					case 0: if(off) in[off + i] = in[off + i - bs]; break;
					case 1: if(off) in[off + i] = want[off + i - bs]; break;
					case 2: in[off + i] = ks[i]; break;
					case 3: if(off) in[off + i] = ks[i] ^ want[off + i - bs]; break;
					case 4: in[off + i] = ~ks[i]; break;
					case 5: in[off + i] = i < p.ivlen ? p.iv[i] : 0; break;
				}
				stat_add("related_blocks", 1);
			}
		}
		want[off] = in[off] ^ ks[used];
		if(!strcmp(m, "cfb")) iv[used] = dec ? in[off] : want[off];
		used++;
	}
	const uint8_t *src = in;
	if(rn(r, 3) == 0) { memcpy(got, in, len); src = got; }
	for(off = 0; off < len; off += k)
	{
		k = rn(r, 2) ? len - off : 1 + rn(r, len - off);
		k -= k % p.s.multof;
		if(dec) T.stream_decrypt(o.h, src + off, got + off, k);
		else T.stream_encrypt(o.h, src + off, got + off, k);
	}
	if(memcmp(want, got, len))
	{
		for(off = 0; want[off] == got[off]; off++);
		viol("mode-definition", "%s: %s of %zu bytes departs from the definition of %s at byte %zu", par_str(&p), dec ? "decrypt" : "encrypt", len, m, off);
	}
	stat_add("bytes_modelled", len);
	if(len) distinct("%s key_len=%u rounds=%u iv=%s len=%zu dec=%d", p.spec, p.klen, p.rounds, hex(p.iv, p.ivlen), len, dec);
	free(in); free(want); free(got);
	T.block_destroy(b);
	free_descs(&d);
	obj_close(&o);
}

/* ---- hashes ---- */
static void pick_h(struct rng *r, struct par *p, long n)
{
	memset(p, 0, sizeof *p);
	p->kind = K_HASH;
	int k = 0;
	do p->h = cfg.only ? HASHES + rn(r, NHASHES) : HASHES + n % NHASHES; while(cfg.only && !strstr(p->h->name, cfg.only) && k++ < 5000);
	strcpy(p->spec, p->h->name);
	p->rounds = pick_rounds_hash(r, p->h);
	p->ivlen = p->h->maxsalt && rn(r, 2) ? pick_ivlen(r, p->h->maxsalt) : 0;
	p->outlen = p->h->maxout ? p->h->maxout : p->h->cap;
	if(rn(r, 2)) p->outlen = rr(r, 1, p->outlen);
	if(!strcmp(p->h->name, "sha3") && rn(r, 2)) { static const uint l[] = {28, 32, 48, 64}; p->outlen = l[rn(r, 4)]; }
	rdata(r, p->iv, p->ivlen);
}

void m_hash(struct rng *r, long n)
{
	struct par p;
	struct obj t, g;
	size_t len, off, k;
	uint8_t *in, x[512], y[512];
	long c = n / NHASHES;

	far_rounds = 4;
	pick_h(r, &p, n);
	len = c % 3 ? pick_len(r, p.h->bs) : (size_t)((c / 3) % 600);	/* one case in three sweeps the lengths */
	if(rn(r, 200) == 0) len = 66000 + rn(r, 3000);
	in = malloc(len + 1);
	rdata(r, in, len);
	note("%s len=%zu", par_str(&p), len);
	if(rn(r, 3) == 0)
	{
		struct descs d = {{0}, 0};
		int a, b;
		a = T.hash_all(mk_hash(&T, p.spec), p.rounds, p.iv, p.ivlen, in, len, x, p.outlen);
		b = G.hash_all(mk_hash(&G, p.spec), p.rounds, p.iv, p.ivlen, in, len, y, p.outlen);
		(void)d;
		if(a || b) viol("hash-all-failed", "%s: hash_all returned %d (reference %d)", par_str(&p), a, b);
	}
	else
	{
		obj_desc(&T, &t, &p); obj_desc(&G, &g, &p);
		MUST(obj_create(&t)); MUST(obj_create(&g));
		for(off = 0; off < len; off += k)
		{
			k = rn(r, 2) ? len - off : 1 + rn(r, len - off);
			T.hash_input(t.h, in + off, k);
			G.hash_input(g.h, in + off, k);
		}
		T.hash_output(t.h, x, p.outlen);
		G.hash_output(g.h, y, p.outlen);
		obj_close(&t); obj_close(&g);
	}
	if(memcmp(x, y, p.outlen)) viol("hash-conformance", "%s: message of %zu bytes (%s) gave %s, reference %s", par_str(&p), len, hex(in, len), hex(x, p.outlen), hex(y, p.outlen));
	stat_add("digests_compared", 1);
	stat_add("message_bytes", len);
	distinct("%s rounds=%u salt_len=%u out_len=%u len=%zu msg=%s", p.spec, p.rounds, p.ivlen, p.outlen, len, hex(in, len > 16 ? 16 : len));
	free(in);
}

/* messages whose length in bits does not fit 32 bits */
void m_hashlong(struct rng *r, long n)
{
	struct par p;
	struct obj t, g;
	uint8_t *in, x[512], y[512];
	size_t blk = 1u << 20, total, k;

	memset(&p, 0, sizeof p);
	p.kind = K_HASH;
	p.h = HASHES + n % NHASHES;
	strcpy(p.spec, p.h->name);
	p.outlen = p.h->maxout ? p.h->maxout : 64;
	total = ((size_t)512 << 20) + rn(r, 5000);
	if(!cfg.quick && n / NHASHES % 3 == 2) total = ((size_t)4 << 30) + rn(r, 5000);
	/* few rounds keep this affordable where the function allows it */
	if(!strncmp(p.h->name, "blake", 5)) p.rounds = 1;
	if(!strncmp(p.h->name, "keccak", 6) || !strcmp(p.h->name, "sha3")) p.rounds = 1;
	if(!strncmp(p.h->name, "skein", 5)) p.rounds = 8;
	if(!strcmp(p.h->name, "whirlpool")) p.rounds = 1;
	if(!strncmp(p.h->name, "sha2", 4)) p.rounds = 16;
	in = malloc(blk);
	rbytes(r, in, blk);
	note("%s len=%zu", par_str(&p), total);
	obj_desc(&T, &t, &p); obj_desc(&G, &g, &p);
	MUST(obj_create(&t)); MUST(obj_create(&g));
	for(size_t left = total; left; left -= k)
	{
		k = left > blk ? blk - rn(r, 3) : left;
		T.hash_input(t.h, in, k);
		G.hash_input(g.h, in, k);
	}
	T.hash_output(t.h, x, p.outlen);
	G.hash_output(g.h, y, p.outlen);
	if(memcmp(x, y, p.outlen)) viol("hash-long", "%s: message of %zu bytes gave %s, reference %s", par_str(&p), total, hex(x, p.outlen), hex(y, p.outlen));
	stat_add("long_messages", 1);
	stat_add("message_bytes", total);
	distinct("%s rounds=%u len=%zu", p.spec, p.rounds, total);
	obj_close(&t); obj_close(&g);
	free(in);
}

/* outputs far longer than a digest, where the hash has no maximum: over 256, 2^16 and 2^24
 * output blocks; in pieces, in one call, and of the reference */
void m_hashout(struct rng *r, long n)
{
	static const struct { const char *name; uint blk; } X[] = {{"skein256", 32}, {"skein512", 64}, {"skein1024", 128}, {"keccak1600", 100}, {"keccak800", 50}};
	uint i = n % 5, k = n / 5 % 8;
	struct par p;
	struct obj t, g;
	size_t len, at, c;
	uint8_t msg[200], *x, *y;
	uint ml = rn(r, 200);
	memset(&p, 0, sizeof p);
	p.kind = K_HASH;
	p.rounds = i < 3 ? 8 * rr(r, 1, 3) : rr(r, 1, 4);
	len = X[i].blk * (k == 7 && !i ? (1u << 24) + rn(r, 5000) : k > 5 ? (1u << 16) + rn(r, 5000) : 256 + rn(r, 700)) + rn(r, 50);
	p.h = hinfo(X[i].name);
	strcpy(p.spec, X[i].name);
	if(i < 3) { p.ivlen = rn(r, 30); rbytes(r, p.iv, 30); }
	p.outlen = len;
	rbytes(r, msg, 200);
	x = malloc(len + 8); y = malloc(len + 8);
	if(!x || !y) { stat_add("no_room", 1); free(x); free(y); return; }
	memset(x + len, 0x77, 8); memset(y + len, 0x77, 8);
	note("%s: %zu bytes of output", par_str(&p), len);
	obj_desc(&T, &t, &p);
	MUST(!T.hash_all(t.desc, p.rounds, p.iv, p.ivlen, msg, ml, y, len));
	for(uint pass = 0; pass < (cfg.gold ? 2u : 1u); pass++)
	{
		const struct api *a = pass ? &G : &T;
		struct obj *o = pass ? &g : &t;
		if(pass) obj_desc(&G, &g, &p);
		if(k == 7 && !i && pass == 0 && cfg.gold) continue;	/* once is enough for the largest */
		MUST(obj_create(o));
		a->hash_input(o->h, msg, ml);
		for(at = 0; at < len; at += c)
		{
			c = rn(r, 3) ? rr(r, 1, 300) : rr(r, 1, len < 40000 ? 5000 : 3000000);
			if(c > len - at) c = len - at;
			a->hash_output(o->h, x + at, c);
		}
		if(memcmp(x, y, len))
		{
			for(at = 0; x[at] == y[at]; at++);
			viol(pass ? "long-output" : "long-output-pieces", "hash %s: output of %zu bytes departs from %s at byte %zu", par_str(&p), len, pass ? "the reference" : "the one read in pieces", at);
			break;
		}
		if(x[len] != 0x77 || y[len] != 0x77) viol("out-of-bounds", "%s: wrote past its output of %zu bytes", par_str(&p), len);
		obj_end(o);
	}
	stat_add("long_output_bytes", len);
	distinct("%s rounds=%u salt_len=%u out=%zu", p.spec, p.rounds, p.ivlen, len);
	obj_close(&t);
	if(cfg.gold) obj_close(&g);
	free(x); free(y);
}

void m_hashseg(struct rng *r, long n)
{
	struct par p;
	size_t len, off, k;
	uint8_t *in, x[512], y[512];

	pick_h(r, &p, n);
	len = pick_len(r, p.h->bs) + (rn(r, 2) ? 0 : pick_len(r, p.h->bs));
	if(rn(r, 200) == 0) len = 66000 + rn(r, 3000);
	in = malloc(len + 1);
	rdata(r, in, len);
	note("%s len=%zu", par_str(&p), len);
	if(T.hash_all(mk_hash(&T, p.spec), p.rounds, p.iv, p.ivlen, in, len, x, p.outlen)) viol("hash-all-failed", "%s", par_str(&p));
	for(int pass = 0; pass < 3; pass++)
	{
		struct obj t;
		obj_desc(&T, &t, &p);
		MUST(obj_create(&t));
		for(off = 0; off < len;)
		{
			switch(pass)
			{
				case 0: k = len; break;
				case 1: k = rn(r, 8) ? 1 + rn(r, len - off) : 0; break;
				default: { size_t u = rn(r, 3) ? p.h->bs : p.h->bs / 2 + rn(r, p.h->bs + 2); k = rn(r, 6) ? u : 1 + rn(r, 3); if(k > len - off) k = len - off; }
			}
			T.hash_input(t.h, in + off, k);
			off += k;
		}
		if(rn(r, 3) == 0) T.hash_input(t.h, in, 0);
		for(off = 0; off < p.outlen; off += k)
		{
			k = pass == 0 ? p.outlen : rn(r, 6) == 0 ? 0 : 1 + rn(r, p.outlen - off);
			T.hash_output(t.h, y + off, k);
		}
		if(memcmp(x, y, p.outlen))
		{
			for(off = 0; x[off] == y[off]; off++);
			viol("hash-segmentation", "%s: message of %zu bytes in pieces differs from one call at output byte %zu", par_str(&p), len, off);
		}
		stat_add("segmentations", 1);
		obj_close(&t);
	}
	stat_add("message_bytes", len);
	distinct("%s rounds=%u salt_len=%u out_len=%u len=%zu msg=%s", p.spec, p.rounds, p.ivlen, p.outlen, len, hex(in, len > 16 ? 16 : len));
	free(in);
}
