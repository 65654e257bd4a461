/* MACs, authenticated encryption, key derivation: definitions over the
 * library's own primitives (and the reference build where no definition over
 * other public functions exists). */
#include "ops.h"
#include "poly.h"

/* ---- reference MAC built from hash and block calls of library a ---- */
static void dbl(uint8_t *x, uint n)
{
	uint i, c = x[0] >> 7;
	for(i = 0; i + 1 < n; i++) x[i] = x[i] << 1 | x[i + 1] >> 7;
	x[n - 1] <<= 1;
	if(c) for(i = 0; i < n && i < 6; i++) x[n - 1 - i] ^= POLY[n] >> 8 * i;
}

/* CBC-MAC with last-block keys, common to OMAC and XCBC */
static void cbcmac(const struct api *a, kripto_block *b, uint bs, const uint8_t *kfull, const uint8_t *kpart, const uint8_t *in, size_t len, uint8_t *tag)
{
	uint8_t s[256] = {0};
	uint i;
	while(len > bs)
	{
		for(i = 0; i < bs; i++) s[i] ^= in[i];
		a->block_encrypt(b, s, s);
		in += bs; len -= bs;
	}
	for(i = 0; i < len; i++) s[i] ^= in[i];
	if(len == bs) for(i = 0; i < bs; i++) s[i] ^= kfull[i];
	else
	{
		s[len] ^= 0x80;
		for(i = 0; i < bs; i++) s[i] ^= kpart[i];
	}
	a->block_encrypt(b, s, tag);
}

/* full-length tag; 1 if a definition exists */
int ref_mac(const struct api *a, const struct mspec *m, uint rounds, const uint8_t *key, uint klen, uint taglen, const uint8_t *in, size_t len, uint8_t *tag)
{
	struct descs d = {{0}, 0};
	if(m->b)
	{
		uint bs = m->b->bs, i;
		uint8_t k1[256] = {0}, k2[256], k3[256];
		const kripto_desc_block *bd = mk_block(a, m->b->name, &d);
		kripto_block *b = a->block_create(bd, rounds, key, klen);
		if(m->kind[0] == 'o')
		{
			a->block_encrypt(b, k1, k1);
			dbl(k1, bs);
			memcpy(k2, k1, bs);
			dbl(k2, bs);
			cbcmac(a, b, bs, k1, k2, in, len, tag);
		}
		else
		{
			for(i = 0; i < bs; i++) { k1[i] = 1; k2[i] = 2; k3[i] = 3; }
			a->block_encrypt(b, k1, k1); a->block_encrypt(b, k2, k2); a->block_encrypt(b, k3, k3);
			a->block_destroy(b);
			b = a->block_create(bd, rounds, k1, bs);
			cbcmac(a, b, bs, k2, k3, in, len, tag);
		}
		a->block_destroy(b);
		free_descs(&d);
		return 1;
	}
	if(m->h)
	{
		const kripto_desc_hash *h = mk_hash(a, m->h->name);
		uint bs = m->h->bs, i;
		uint8_t k[256] = {0}, pad[256], in2[512];
		kripto_hash *s;
		if(klen > bs)
		{
			uint l = taglen < bs ? taglen : bs;
			if(a->hash_all(h, rounds, 0, 0, key, klen, k, l)) return 0;
		}
		else memcpy(k, key, klen);
		for(i = 0; i < bs; i++) pad[i] = k[i] ^ 0x36;
		s = a->hash_create(h, rounds, 0, 0, taglen);
		a->hash_input(s, pad, bs);
		a->hash_input(s, in, len);
		a->hash_output(s, in2, taglen);
		a->hash_destroy(s);
		for(i = 0; i < bs; i++) pad[i] = k[i] ^ 0x5C;
		s = a->hash_create(h, rounds, 0, 0, taglen);
		a->hash_input(s, pad, bs);
		a->hash_input(s, in2, taglen);
		a->hash_output(s, tag, taglen);
		a->hash_destroy(s);
		return 1;
	}
	if(m->kind[0] == 'k')
	{
		/* sponge over key and message */
		kripto_hash *s = a->hash_create(mk_hash(a, m->name), rounds, 0, 0, taglen);
		a->hash_input(s, key, klen);
		a->hash_input(s, in, len);
		a->hash_output(s, tag, taglen);
		a->hash_destroy(s);
		return 1;
	}
	return 0;
}

static void pick_m(struct rng *r, struct par *p)
{
	memset(p, 0, sizeof *p);
	p->kind = K_MAC;
	pick_mac(r, &p->m);
	strcpy(p->spec, p->m.name);
	p->klen = pick_keylen(r, p->m.mk);
	if(p->m.h && rn(r, 3) == 0) { p->klen = p->m.h->bs + rn(r, 5); if(p->klen > 2) p->klen -= 2; }
	p->rounds = rounds_mac(r, &p->m, p->klen);
	p->outlen = taglen_mac(r, &p->m);
	rdata(r, p->key, p->klen);
}

/* the same, or a MAC of the user's own */
static void pick_mt(struct rng *r, struct par *p)
{
	pick_m(r, p);
	if(rn(r, 6) || no_toys) return;
	mac_toy(r, &p->m);
	strcpy(p->spec, p->m.name);
	p->klen = pick_keylen(r, p->m.mk);
	p->rounds = rounds_mac(r, &p->m, p->klen);
	p->outlen = taglen_mac(r, &p->m);
	rdata(r, p->key, p->klen);
}

static uint unit(const struct mspec *m) { return m->b ? m->b->bs : m->h ? m->h->bs : 64; }

/* Messages that a random one never is: the chaining value becomes zero on
 * the way, or the tag is a chosen one. For the MACs that are a block cipher
 * in CBC mode the last block that gives a wanted tag is found by decrypting:
 * tag = E(state ^ block ^ key part). */
static void mac_craft(struct rng *r, const struct par *p, uint8_t *in, size_t *len, size_t room)
{
	struct descs d = {{0}, 0};
	kripto_block *b;
	uint8_t c[256], t[256], k[256], x[256];
	uint bs, i, xc;
	size_t off;
	const kripto_desc_block *bd;
	const kripto_desc_mac *md;

	if(!p->m.b || !p->m.kind || (strcmp(p->m.kind, "omac") && strcmp(p->m.kind, "xcbc"))) return;
	bs = p->m.b->bs;
	if(room < bs || bs > 256) return;
	xc = !strcmp(p->m.kind, "xcbc");
	*len += bs - 1; *len -= *len % bs;
	if(!*len) *len = bs;
	if(*len > room) *len = room - room % bs;
	bd = mk_block(&T, p->m.b->name, &d);
	b = T.block_create(bd, p->rounds, p->key, p->klen);
	if(b && xc)
	{
		memset(k, 1, bs);
		T.block_encrypt(b, k, k);
		b = T.block_recreate(b, p->rounds, k, bs);
	}
	if(!b) { free_descs(&d); return; }
	memset(c, 0, bs);
	for(off = 0; off + bs <= *len; off += bs)
	{
		if(off + bs < *len && rn(r, 2))
		{
			memset(t, 0, bs);
			if(rn(r, 2)) T.block_decrypt(b, t, t);	/* the next state is zero; else the input of the cipher */
			for(i = 0; i < bs; i++) in[off + i] = t[i] ^ c[i];
		}
		for(i = 0; i < bs; i++) x[i] = in[off + i] ^ c[i];
		T.block_encrypt(b, x, c);
	}
	if(rn(r, 4))
	{
		md = mk_mac(&T, p->m.name, &d);
		if(!T.mac_all(md, p->rounds, p->key, p->klen, in, *len, t, bs))
		{
			T.block_decrypt(b, t, t);
			rdata(r, x, bs);
			switch(rn(r, 5))
			{
				case 0: memset(x, 0, bs); break;
				case 1: memset(x, 0xFF, bs); break;
				case 2: memset(x, 0, rn(r, bs)); break;
				case 3: x[rn(r, bs)] = 0; break;
			}
			T.block_decrypt(b, x, x);
			for(i = 0; i < bs; i++) in[*len - bs + i] ^= t[i] ^ x[i];
		}
	}
	stat_add("crafted_messages", 1);
	T.block_destroy(b);
	free_descs(&d);
}

void m_mac(struct rng *r, long n)
{
	struct par p;
	struct obj t;
	uint8_t *in, want[512], got[512];
	size_t len, off, k;
	uint tl;
	int def;

	far_rounds = 8;
	(void)n;
	pick_m(r, &p);
	len = pick_len(r, unit(&p.m));
	in = malloc(len + 1 + 512);
	rdata(r, in, len + 512);
	if(rn(r, 6) == 0) mac_craft(r, &p, in, &len, len + 512);
	note("%s len=%zu", par_str(&p), len);
	def = ref_mac(&T, &p.m, p.rounds, p.key, p.klen, p.outlen, in, len, want);
	obj_desc(&T, &t, &p);
	MUST(obj_create(&t));
	for(off = 0; off < len; off += k)
	{
		k = rn(r, 2) ? len - off : 1 + rn(r, len - off);
		T.mac_input(t.h, in + off, k);
	}
	tl = p.outlen;
	if(mac_partial_ok(&p.m) && rn(r, 4) == 0) tl = rr(r, 1, tl);
	T.mac_tag(t.h, got, tl);
	if(def && memcmp(want, got, tl))
		viol("mac-definition", "%s: tag of %zu bytes (%s) is %s, its definition over the library's own %s gives %s", par_str(&p), len, hex(in, len), hex(got, tl), p.m.b ? "block cipher" : "hash", hex(want, tl));
	if(def) stat_add("tags_modelled", 1);
	if(cfg.gold)
	{
		struct obj g;
		obj_desc(&G, &g, &p);
		MUST(obj_create(&g));
		G.mac_input(g.h, in, len);
		G.mac_tag(g.h, want, tl);
		if(memcmp(want, got, tl)) viol("mac-conformance", "%s: tag of %zu bytes (%s) is %s, reference %s", par_str(&p), len, hex(in, len), hex(got, tl), hex(want, tl));
		stat_add("tags_compared", 1);
		obj_close(&g);
	}
	distinct("%s key_len=%u rounds=%u tag_len=%u/%u len=%zu key=%s", p.spec, p.klen, p.rounds, tl, p.outlen, len, hex(p.key, p.klen > 16 ? 16 : p.klen));
	free(in);
	obj_close(&t);
}

/* ---- segmentation, one-shot, verification ---- */
void m_macseg(struct rng *r, long n)
{
	struct par p;
	struct obj t;
	uint8_t *in, want[512], got[512], bad[512];
	size_t len, off, k;
	int ok;

	(void)n;
	pick_m(r, &p);
	len = pick_len(r, unit(&p.m)) + (rn(r, 2) ? 0 : pick_len(r, unit(&p.m)));
	in = malloc(len + 1 + 512);
	rdata(r, in, len + 512);
	if(rn(r, 6) == 0) mac_craft(r, &p, in, &len, len + 512);
	note("%s len=%zu", par_str(&p), len);
	obj_desc(&T, &t, &p);
	if(T.mac_all(t.desc, p.rounds, p.key, p.klen, in, len, want, p.outlen)) { viol("mac-all-failed", "%s", par_str(&p)); return; }
	for(int pass = 0; pass < 3; pass++)
	{
		MUST(obj_create(&t));
		for(off = 0; off < len;)
		{
			switch(pass)
			{
				case 0: k = len; break;
				case 1: k = rn(r, 8) ? 1 + rn(r, len - off) : 0; break;
				default: { size_t u = rn(r, 3) ? unit(&p.m) : unit(&p.m) / 2 + rn(r, unit(&p.m) + 2); k = rn(r, 6) ? u : 1 + rn(r, 3); if(k > len - off) k = len - off; }
			}
			T.mac_input(t.h, in + off, k);
			off += k;
		}
		if(rn(r, 3) == 0) T.mac_input(t.h, in, 0);
		if(pass == 0)
		{
			/* the right tag is accepted */
			uint tl = mac_partial_ok(&p.m) && rn(r, 3) == 0 ? rr(r, 1, p.outlen) : p.outlen;
			ok = T.mac_verify(t.h, want, tl);
			if(!ok) viol("mac-verify-rejects", "%s: verify refuses the %u byte tag of a %zu byte message", par_str(&p), tl, len);
			stat_add("verify_accepts", 1);
		}
		else if(pass == 1)
		{
			if(mac_partial_ok(&p.m) && rn(r, 3) == 0)
			{
				/* the tag in pieces: each call goes on where the last ended */
				for(uint at = 0, m; at < p.outlen; at += m)
				{
					m = rn(r, 5) ? 1 + rn(r, p.outlen - at) : 0;
					T.mac_tag(t.h, got + at, m);
				}
				stat_add("tags_in_pieces", 1);
			}
			else T.mac_tag(t.h, got, p.outlen);
			if(memcmp(want, got, p.outlen)) viol("mac-segmentation", "%s: message of %zu bytes in pieces gives another tag", par_str(&p), len);
		}
		else
		{
			/* any other tag is refused */
			uint j = rn(r, p.outlen), how = rn(r, 4);
			memcpy(bad, want, p.outlen);
			if(how == 0) bad[j] ^= 1u << rn(r, 8);
			else if(how == 1) bad[j] ^= 1 + rn(r, 255);
			else if(how == 2) { bad[j] ^= 0x80; if(p.outlen > 1) bad[(j + 1) % p.outlen] ^= 0x80; }	/* cancels in sums and xors */
			else { for(k = 0; k < p.outlen; k++) bad[k] ^= 0xFF; }
			if(T.mac_verify(t.h, bad, p.outlen)) viol("mac-verify-accepts", "%s: verify accepts %s for %s", par_str(&p), hex(bad, p.outlen), hex(want, p.outlen));
			stat_add("verify_refusals", 1);
		}
		obj_end(&t);
	}
	/* another message has another tag (only where a collision is impossible in practice) */
	if(len && p.outlen >= 12 && p.rounds == 0 && (p.m.h || p.m.b) && (!p.m.b || p.m.b->bs >= 12))
	{
		in[rn(r, len)] ^= 1u << rn(r, 8);
		MUST(obj_create(&t));
		T.mac_input(t.h, in, len);
		if(T.mac_verify(t.h, want, p.outlen)) viol("mac-verify-accepts", "%s: verify accepts a changed message of %zu bytes", par_str(&p), len);
		stat_add("changed_messages", 1);
		obj_end(&t);
	}
	distinct("%s key_len=%u rounds=%u tag_len=%u len=%zu key=%s", p.spec, p.klen, p.rounds, p.outlen, len, hex(p.key, p.klen > 16 ? 16 : p.klen));
	free(in);
	obj_close(&t);
}

/* ---- EAX and EAX2 from their definitions ---- */
static void omac_t(const struct api *a, const struct par *p, int t, const uint8_t *in, size_t len, uint8_t *tag)
{
	/* MAC of an n-byte number t, then the data */
	uint8_t mk = 0, *b;
	uint n, ks;
	struct mspec m;
	(void)mk;
	if(p->a.eax2)
	{
		n = p->outlen;
		ks = (p->klen + 1) / 2;
		if(ks > p->a.s.mk) ks = p->a.s.mk;
		b = calloc(1, n + len + 1);
		b[n - 1] = t;
		memcpy(b + n, in, len);
		if(!ref_mac(a, &p->a.m, p->rounds, p->key, p->klen - ks, n, b, n + len, tag))
		{
			struct descs d = {{0}, 0};
			if(a->mac_all(mk_mac(a, p->a.m.name, &d), p->rounds, p->key, p->klen - ks, b, n + len, tag, n)) viol("mac-all-failed", "%s", par_str(p));
			free_descs(&d);
		}
	}
	else
	{
		memset(&m, 0, sizeof m);
		m.b = p->a.b;
		m.kind = "omac";
		n = p->a.b->bs;
		b = calloc(1, n + len + 1);
		b[n - 1] = t;
		memcpy(b + n, in, len);
		ref_mac(a, &m, p->rounds, p->key, p->klen, n, b, n + len, tag);
	}
	free(b);
}

static void pick_a(struct rng *r, struct par *p)
{
	memset(p, 0, sizeof *p);
	p->kind = K_AE;
	pick_ae(r, &p->a);
	strcpy(p->spec, p->a.name);
	p->klen = keylen_ae(r, &p->a);
	p->rounds = rounds_ae(r, &p->a, p->klen);
	p->ivlen = pick_ivlen(r, p->a.miv);
	p->outlen = taglen_ae(r, &p->a);
	rdata(r, p->key, p->klen);
	rdata(r, p->iv, p->ivlen);
}

static size_t rndlen(struct rng *r, const struct par *p)
{
	size_t n = pick_len(r, p->a.eax2 ? (p->a.s.b ? p->a.s.b->bs : 64) : p->a.b->bs);
	return n - n % p->a.multof;
}

void m_ae(struct rng *r, long n)
{
	struct par p;
	struct obj o, g;
	uint8_t *pt, *ct, *want, *hd, nt[512], ht[512], tt[512], wtag[512], tag[512];
	size_t len, hlen, off, k;
	uint tl, i;

	(void)n;
	pick_a(r, &p);
	len = rndlen(r, &p);
	hlen = rn(r, 3) ? pick_len(r, 16) : 0;
	pt = malloc(len + 1); ct = malloc(len + 1); want = malloc(len + 1); hd = malloc(hlen + 1);
	rdata(r, pt, len);
	rdata(r, hd, hlen);
	note("%s len=%zu header=%zu", par_str(&p), len, hlen);

	/* definition */
	omac_t(&T, &p, 0, p.iv, p.ivlen, nt);
	struct descs d = {{0}, 0};
	kripto_stream *s;
	if(p.a.eax2)
	{
		uint ks = (p.klen + 1) / 2, iv = p.outlen;
		if(ks > p.a.s.mk) ks = p.a.s.mk;
		if(iv > p.a.s.miv) iv = p.a.s.miv;
		s = T.stream_create(mk_stream(&T, p.a.s.name, &d), p.rounds, p.key + p.klen - ks, ks, nt, iv);
	}
	else
	{
		char sp[64];
		snprintf(sp, sizeof sp, "ctr(%s)", p.a.b->name);
		s = T.stream_create(mk_stream(&T, sp, &d), p.rounds, p.key, p.klen, nt, p.a.b->bs);
	}
	MUST(s);
	T.stream_encrypt(s, pt, want, len);
	T.stream_destroy(s);
	free_descs(&d);
	omac_t(&T, &p, 1, hd, hlen, ht);
	omac_t(&T, &p, 2, want, len, tt);
	tl = p.outlen;
	if((!p.a.eax2 || mac_partial_ok(&p.a.m)) && rn(r, 4) == 0) tl = rr(r, 1, tl);
	for(i = 0; i < tl; i++) wtag[i] = nt[i] ^ ht[i] ^ tt[i];

	/* library: header before, after or between */
	obj_desc(&T, &o, &p);
	MUST(obj_create(&o));
	size_t ho = 0;
	for(off = 0; off < len || ho < hlen;)
	{
		if(ho < hlen && rn(r, 2)) { k = rn(r, 2) ? hlen - ho : 1 + rn(r, hlen - ho); T.ae_header(o.h, hd + ho, k); ho += k; }
		else if(off < len)
		{
			k = rn(r, 2) ? len - off : 1 + rn(r, len - off);
			k -= k % p.a.multof;
			T.ae_encrypt(o.h, pt + off, ct + off, k);
			off += k;
		}
	}
	T.ae_tag(o.h, tag, tl);
	if(memcmp(ct, want, len)) viol("ae-definition", "%s: ciphertext of %zu bytes departs from the definition", par_str(&p), len);
	if(memcmp(tag, wtag, tl)) viol("ae-definition", "%s: tag over %zu header and %zu message bytes is %s, definition gives %s", par_str(&p), hlen, len, hex(tag, tl), hex(wtag, tl));
	stat_add("messages_modelled", 1);
	obj_close(&o);
	if(cfg.gold)
	{
		obj_desc(&G, &g, &p);
		MUST(obj_create(&g));
		G.ae_header(g.h, hd, hlen);
		G.ae_encrypt(g.h, pt, want, len);
		G.ae_tag(g.h, wtag, tl);
		if(memcmp(ct, want, len)) viol("ae-conformance", "%s: ciphertext of %zu bytes differs from the reference", par_str(&p), len);
		if(memcmp(tag, wtag, tl)) viol("ae-conformance", "%s: tag over %zu header and %zu message bytes is %s, reference %s", par_str(&p), hlen, len, hex(tag, tl), hex(wtag, tl));
		obj_close(&g);
	}
	distinct("%s key_len=%u rounds=%u iv_len=%u tag_len=%u/%u header=%zu len=%zu key=%s", p.spec, p.klen, p.rounds, p.ivlen, tl, p.outlen, hlen, len, hex(p.key, p.klen > 16 ? 16 : p.klen));
	free(pt); free(ct); free(want); free(hd);
}

/* ---- round trip, tampering, segmentation on the library alone ---- */
void m_aeseal(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	uint8_t *pt, *ct, *x, *hd, tag[512], tag2[512], bad[512];
	size_t len, hlen, off, k, ho;
	int strong;

	(void)n;
	pick_a(r, &p);
	len = rndlen(r, &p);
	hlen = rn(r, 3) ? pick_len(r, 16) : 0;
	pt = malloc(len + 1); ct = malloc(len + 1); x = malloc(len + 1); hd = malloc(hlen + 1);
	rdata(r, pt, len);
	rdata(r, hd, hlen);
	note("%s len=%zu header=%zu", par_str(&p), len, hlen);
	obj_desc(&T, &o, &p);
	MUST(obj_create(&o));
	if(T.ae_multof(o.h) != p.a.multof) viol("ae-multof", "%s: multof %u", par_str(&p), T.ae_multof(o.h));
	T.ae_header(o.h, hd, hlen);
	T.ae_encrypt(o.h, pt, ct, len);
	T.ae_tag(o.h, tag, p.outlen);
	obj_end(&o);
	for(int pass = 0; pass < 4; pass++)
	{
		/* 0 open at once; 1 open in pieces, header anywhere; 2 seal in pieces; 3 in place */
		MUST(obj_create(&o));
		memcpy(x, pass == 2 ? pt : ct, len);
		for(off = 0, ho = 0; off < len || ho < hlen;)
		{
			if(ho < hlen && (pass == 0 || pass == 3 || off >= len || rn(r, 2))) { k = pass == 0 || rn(r, 2) ? hlen - ho : rn(r, hlen - ho + 1); T.ae_header(o.h, hd + ho, k); ho += k; continue; }
			if(off >= len) continue;
			k = pass == 0 || rn(r, 3) == 0 ? len - off : rn(r, len - off + 1);
			k -= k % p.a.multof;
			if(pass == 2) T.ae_encrypt(o.h, pt + off, x + off, k);
			else T.ae_decrypt(o.h, pass == 3 ? x + off : ct + off, x + off, k);
			off += k;
		}
		if(memcmp(x, pass == 2 ? ct : pt, len))
			viol(pass == 2 ? "ae-segmentation" : "ae-roundtrip", "%s: %s of %zu bytes gives other data", par_str(&p), pass == 2 ? "sealing in pieces" : "opening", len);
		if(pass == 2)
		{
			T.ae_tag(o.h, tag2, p.outlen);
			if(memcmp(tag, tag2, p.outlen)) viol("ae-segmentation", "%s: sealing %zu bytes (header %zu) in pieces gives another tag", par_str(&p), len, hlen);
		}
		else if(!T.ae_verify(o.h, tag, p.outlen)) viol("ae-verify-rejects", "%s: an untouched message of %zu bytes (header %zu) is refused", par_str(&p), len, hlen);
		else stat_add("verify_accepts", 1);
		obj_end(&o);
	}
	/* Tampering. A changed tag must always be refused. Changed data can only
	 * collide by chance where the tag is short or the cipher is weakened. */
	strong = p.outlen >= 12 && p.rounds == 0 && (p.a.eax2 || p.a.b->bs >= 12);
	for(int how = 0; how < 6; how++)
	{
		struct par q = p;
		memcpy(x, ct, len);
		memcpy(bad, tag, p.outlen);
		uint8_t *h2 = malloc(hlen + 1);
		size_t hl = hlen, ln = len;
		memcpy(h2, hd, hlen);
		const char *what = "tag";
		if(how == 0)
		{
			uint j = rn(r, p.outlen);
			bad[j] ^= rn(r, 2) ? 1u << rn(r, 8) : 1 + rn(r, 255);
		}
		else if(!strong) { free(h2); break; }
		else if(how == 1) { if(!len) { free(h2); continue; } x[rn(r, len)] ^= 1u << rn(r, 8); what = "ciphertext"; }
		else if(how == 2) { if(!hlen) { free(h2); continue; } h2[rn(r, hlen)] ^= 1u << rn(r, 8); what = "header"; }
		else if(how == 3)
		{
			if(!p.ivlen) { free(h2); continue; }
			q.iv[rn(r, p.ivlen)] ^= 1u << rn(r, 8); what = "nonce";
		}
		else if(how == 5)
		{
			/* another key, where it really is another key for the cipher (parity
			 * bits and the like do not count) */
			uint8_t z[256] = {0}, c1[256], c2[256];
			if(p.a.eax2) { free(h2); continue; }
			q.key[rn(r, p.klen)] ^= 1u << rn(r, 8); what = "key";
			char bn[160];
			snprintf(bn, sizeof bn, "%s", strchr(p.spec, '(') + 1);
			*strrchr(bn, ')') = 0;
			struct descs bd = {{0}, 0};
			const kripto_desc_block *bb = mk_block(&T, bn, &bd);
			kripto_block *k1 = T.block_create(bb, p.rounds, p.key, p.klen), *k2 = T.block_create(bb, p.rounds, q.key, p.klen);
			MUST(k1 && k2);
			T.block_encrypt(k1, z, c1);
			T.block_encrypt(k2, z, c2);
			T.block_destroy(k1); T.block_destroy(k2);
			free_descs(&bd);
			if(!memcmp(c1, c2, p.a.b->bs)) { free(h2); continue; }
		}
		else
		{
			/* truncate message or header */
			if(rn(r, 2) && len >= p.a.multof && len) { ln = len - p.a.multof; what = "message length"; }
			else if(hlen) { hl = hlen - 1; what = "header length"; }
			else { free(h2); continue; }
		}
		struct obj v;
		obj_desc(&T, &v, &q);
		MUST(obj_create(&v));
		T.ae_header(v.h, h2, hl);
		T.ae_decrypt(v.h, x, x, ln);
		if(T.ae_verify(v.h, bad, p.outlen)) viol("ae-verify-accepts", "%s: accepted after its %s was changed (message %zu, header %zu bytes)", par_str(&p), what, len, hlen);
		stat_add("tampered_refused", 1);
		obj_close(&v);
		free(h2);
	}
	distinct("%s key_len=%u rounds=%u iv_len=%u tag_len=%u header=%zu len=%zu key=%s", p.spec, p.klen, p.rounds, p.ivlen, p.outlen, hlen, len, hex(p.key, p.klen > 16 ? 16 : p.klen));
	obj_close(&o);
	free(pt); free(ct); free(x); free(hd);
}

/* ---- PBKDF2 and scrypt from their definitions, over mac_all ---- */
static int ref_pbkdf2(const struct api *a, const kripto_desc_mac *m, uint x, uint rounds, uint iter, const uint8_t *pw, uint pl, const uint8_t *salt, size_t sl, uint8_t *out, size_t ol)
{
	uint8_t *b = malloc(sl + 4), u[512], t[512];
	uint32_t c = 0;
	uint i, j;
	memcpy(b, salt, sl);
	while(ol)
	{
		c++;
		b[sl] = c >> 24; b[sl + 1] = c >> 16; b[sl + 2] = c >> 8; b[sl + 3] = c;
		if(a->mac_all(m, rounds, pw, pl, b, sl + 4, u, x)) return -1;
		memcpy(t, u, x);
		for(i = 1; i < iter; i++)
		{
			if(a->mac_all(m, rounds, pw, pl, u, x, u, x)) return -1;
			for(j = 0; j < x; j++) t[j] ^= u[j];
		}
		j = ol < x ? ol : x;
		memcpy(out, t, j);
		out += j; ol -= j;
	}
	free(b);
	return 0;
}

void m_pbkdf2(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	uint8_t *salt, want[1200], got[1200];
	uint sl, iter, x;
	size_t ol;

	(void)n;
	pick_mt(r, &p);
	obj_desc(&T, &o, &p);
	x = p.m.maxtag ? p.m.maxtag : 64;
	sl = rn(r, 8) ? rn(r, 100) : rn(r, 700);
	iter = rn(r, 6) == 0 ? rr(r, 1, 300) : rr(r, 1, 6);
	ol = rn(r, 4) == 0 ? rr(r, 1, 1000) : (size_t)x * rn(r, 4) + rn(r, 3);
	if(p.m.b && p.m.b->bs == 4 && rn(r, 4) == 0) ol = 4 * 256 + rn(r, 9);	/* block counter passes 256 */
	if(ol > 1 && rn(r, 4) == 0) ol--;
	salt = malloc(sl + 1);
	rdata(r, salt, sl);
	note("%s iter=%u salt=%u out=%zu", par_str(&p), iter, sl, ol);
	memset(got, 0xC3, sizeof got);
	if(T.pbkdf2(o.desc, p.rounds, iter, p.key, p.klen, salt, sl, got, ol)) viol("pbkdf2-failed", "%s", par_str(&p));
	if(ref_pbkdf2(&T, o.desc, x, p.rounds, iter, p.key, p.klen, salt, sl, want, ol)) viol("mac-all-failed", "%s", par_str(&p));
	if(memcmp(want, got, ol)) viol("pbkdf2-definition", "%s iter=%u salt=%s out=%zu: %s, definition %s", par_str(&p), iter, hex(salt, sl), ol, hex(got, ol), hex(want, ol));
	for(size_t i = ol; i < sizeof got; i++) if(got[i] != 0xC3) { viol("out-of-bounds", "%s: pbkdf2 wrote past its %zu byte output", par_str(&p), ol); break; }
	stat_add("derivations", 1);
	distinct("%s key_len=%u rounds=%u iter=%u salt=%u out=%zu", p.spec, p.klen, p.rounds, iter, sl, ol);
	free(salt);
	obj_close(&o);
}

/* a PBKDF2 output with more than 65536 blocks: the counter's third byte */
void m_pbkdf2long(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	size_t ol = 4 * 65536 + 16;
	uint8_t *want = malloc(ol), *got = malloc(ol), salt[9];
	(void)n;
	memset(&p, 0, sizeof p);
	p.kind = K_MAC;
	strcpy(p.spec, "omac(simon32)");
	p.m.kind = "omac"; p.m.b = binfo("simon32"); p.m.maxtag = 4;
	p.klen = 8;
	rbytes(r, p.key, 8);
	rbytes(r, salt, 9);
	obj_desc(&T, &o, &p);
	if(T.pbkdf2(o.desc, 0, 2, p.key, 8, salt, 9, got, ol)) viol("pbkdf2-failed", "%s", par_str(&p));
	ref_pbkdf2(&T, o.desc, 4, 0, 2, p.key, 8, salt, 9, want, ol);
	if(memcmp(want, got, ol)) viol("pbkdf2-definition", "%s: output of %zu bytes departs from the definition", par_str(&p), ol);
	stat_add("long_derivations", 1);
	distinct("%s out=%zu", p.spec, ol);
	free(want); free(got);
	obj_close(&o);
}

static uint32_t le(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void qr(uint32_t *x, int a, int b, int c, int d)
{
#define RL(V, N) ((V) << N | (V) >> (32 - N))
	uint32_t t;
	t = x[a] + x[d]; x[b] ^= RL(t, 7);
	t = x[b] + x[a]; x[c] ^= RL(t, 9);
	t = x[c] + x[b]; x[d] ^= RL(t, 13);
	t = x[d] + x[c]; x[a] ^= RL(t, 18);
}
static void salsa8(uint32_t *b)
{
	uint32_t x[16];
	memcpy(x, b, 64);
	for(int i = 0; i < 4; i++)
	{
		qr(x, 0, 4, 8, 12); qr(x, 5, 9, 13, 1); qr(x, 10, 14, 2, 6); qr(x, 15, 3, 7, 11);
		qr(x, 0, 1, 2, 3); qr(x, 5, 6, 7, 4); qr(x, 10, 11, 8, 9); qr(x, 15, 12, 13, 14);
	}
	for(int i = 0; i < 16; i++) b[i] += x[i];
}
static void bmix(uint32_t *b, uint32_t *y, uint r)
{
	uint32_t x[16];
	memcpy(x, b + 32 * r - 16, 64);
	for(uint i = 0; i < 2 * r; i++)
	{
		for(int j = 0; j < 16; j++) x[j] ^= b[16 * i + j];
		salsa8(x);
		memcpy(y + (i / 2 + (i & 1) * r) * 16, x, 64);
	}
	memcpy(b, y, 128 * r);
}

void m_scrypt(struct rng *r, long n)
{
	struct par p;
	struct obj o;
	uint8_t salt[100], want[300], got[300], *b;
	uint sl, N, R, P, x;
	size_t ol;

	(void)n;
	pick_mt(r, &p);
	obj_desc(&T, &o, &p);
	x = p.m.maxtag ? p.m.maxtag : 64;
	sl = rn(r, 60);
	rdata(r, salt, sl);
	N = 1u << rn(r, rn(r, 10) ? 6 : 11);
	R = rr(r, 1, rn(r, 3) ? 4 : 12);
	P = rr(r, 1, rn(r, 2) ? 2 : 5);
	ol = rr(r, 1, 250);
	note("%s N=%u r=%u p=%u salt=%u out=%zu", par_str(&p), N, R, P, sl, ol);
	memset(got, 0xC3, sizeof got);
	if(T.scrypt(o.desc, p.rounds, N, R, P, p.key, p.klen, salt, sl, got, ol)) viol("scrypt-failed", "%s N=%u r=%u p=%u", par_str(&p), N, R, P);
	b = malloc(128 * R * P);
	uint32_t *X = malloc(128 * R), *Y = malloc(128 * R), *V = malloc((size_t)128 * R * N);
	if(ref_pbkdf2(&T, o.desc, x, p.rounds, 1, p.key, p.klen, salt, sl, b, 128 * R * P)) viol("mac-all-failed", "%s", par_str(&p));
	for(uint k = 0; k < P; k++)
	{
		uint8_t *B = b + 128 * R * k;
		for(uint i = 0; i < 32 * R; i++) X[i] = le(B + 4 * i);
		for(uint i = 0; i < N; i++) { memcpy(V + (size_t)32 * R * i, X, 128 * R); bmix(X, Y, R); }
		for(uint i = 0; i < N; i++)
		{
			uint32_t *v = V + (size_t)32 * R * (X[32 * R - 16] & (N - 1));
			for(uint j = 0; j < 32 * R; j++) X[j] ^= v[j];
			bmix(X, Y, R);
		}
		for(uint i = 0; i < 32 * R; i++) { B[4 * i] = X[i]; B[4 * i + 1] = X[i] >> 8; B[4 * i + 2] = X[i] >> 16; B[4 * i + 3] = X[i] >> 24; }
	}
	if(ref_pbkdf2(&T, o.desc, x, p.rounds, 1, p.key, p.klen, b, 128 * R * P, want, ol)) viol("mac-all-failed", "%s", par_str(&p));
	if(memcmp(want, got, ol)) viol("scrypt-definition", "%s N=%u r=%u p=%u salt=%s out=%zu: %s, definition %s", par_str(&p), N, R, P, hex(salt, sl), ol, hex(got, ol), hex(want, ol));
	for(size_t i = ol; i < sizeof got; i++) if(got[i] != 0xC3) { viol("out-of-bounds", "%s: scrypt wrote past its %zu byte output", par_str(&p), ol); break; }
	stat_add("derivations", 1);
	distinct("%s key_len=%u rounds=%u N=%u r=%u p=%u salt=%u out=%zu", p.spec, p.klen, p.rounds, N, R, P, sl, ol);
	free(b); free(X); free(Y); free(V);
	obj_close(&o);

	/* sizes that cannot be represented are refused, not truncated */
	if(rn(r, 4) == 0)
	{
		static const struct { uint64_t n; uint32_t r, p; } big[] =
		{
			{2, 0, 1}, {16, 0x02000000, 1}, {16, 1, 0x02000000}, {1ull << 60, 8, 1}, {UINT64_MAX, 1, 1}, {1ull << 57, 1, 1},
			{16, 0x10000, 0x10000}, {16, 0xFFFFFFFF, 0xFFFFFFFF}, {1ull << 63, 0x1FFFFFF, 1}
		};
		uint i = rn(r, sizeof big / sizeof *big);
		uint8_t k[4] = "key", out[16];
		struct descs d = {{0}, 0};
		const kripto_desc_mac *m = mk_mac(&T, "hmac(sha1)", &d);
		note("scrypt N=%llu r=%u p=%u", (unsigned long long)big[i].n, big[i].r, big[i].p);
		if(!T.scrypt(m, 0, big[i].n, big[i].r, big[i].p, k, 3, k, 3, out, 16))
			viol("scrypt-oversize", "N=%llu r=%u p=%u was accepted although its buffers cannot exist", (unsigned long long)big[i].n, big[i].r, big[i].p);
		stat_add("oversize_refused", 1);
		free_descs(&d);
	}
}

/* ---- PKCS #7 ---- */
void m_pkcs7(struct rng *r, long n)
{
	uint pad;
	size_t len, max, got, want, i;
	struct buf b;
	uint8_t *copy;

	pad = 1 + n % 255;
	len = (n / 255) % 4 ? rn(r, 700) : (size_t)(n / 1020) % 300;
	want = len + pad - len % pad;
	switch(rn(r, 5))
	{
		case 0: max = want; break;
		case 1: max = want - 1; break;
		case 2: max = len; break;
		case 3: max = want + rn(r, 50); break;
		default: max = len + rn(r, 300);
	}
	note("pad=%u len=%zu maxlen=%zu", pad, len, max);
	buf_new(r, &b, max);
	copy = malloc(max + 1);
	rdata(r, b.p, max);
	memcpy(copy, b.p, max);
	got = T.pkcs7_add(b.p, len, pad, max);
	if(!buf_ok(&b)) viol("out-of-bounds", "pkcs7_add(len=%zu, pad=%u, maxlen=%zu) wrote outside its buffer", len, pad, max);
	if(want > max)
	{
		if(got) viol("pkcs7-add", "len=%zu pad=%u maxlen=%zu returned %zu, expected 0", len, pad, max, got);
		if(memcmp(b.p, copy, max)) viol("pkcs7-add", "len=%zu pad=%u maxlen=%zu has no room but changed the buffer", len, pad, max);
		stat_add("no_room", 1);
	}
	else
	{
		if(got != want) viol("pkcs7-add", "len=%zu pad=%u maxlen=%zu returned %zu, expected %zu", len, pad, max, got, want);
		else
		{
			for(i = len; i < want; i++) if(b.p[i] != want - len) { viol("pkcs7-add", "len=%zu pad=%u: byte %zu is %u", len, pad, i, b.p[i]); break; }
			if(memcmp(b.p, copy, len) || memcmp(b.p + want, copy + want, max - want)) viol("pkcs7-add", "len=%zu pad=%u maxlen=%zu changed data outside the padding", len, pad, max);
			memcpy(copy, b.p, max);
			got = T.pkcs7_rem(b.p, want);
			if(got != len) viol("pkcs7-rem", "len=%zu pad=%u: rem(add(x)) returned %zu", len, pad, got);
			if(memcmp(copy, b.p, max)) viol("pkcs7-rem", "len=%zu pad=%u: rem changed the buffer", len, pad);
			stat_add("round_trips", 1);
		}
	}
	/* a last byte that cannot be padding (longer than the data) leaves everything */
	if(max && max < 255)
	{
		b.p[max - 1] = max + 1 + rn(r, 255 - max);
		got = T.pkcs7_rem(b.p, max);
		if(got != max) viol("pkcs7-rem", "%zu bytes ending in %u: returned %zu, expected all", max, b.p[max - 1], got);
		stat_add("not_padding", 1);
	}
	if(max)
	{
		/* any last byte that fits is the number of bytes removed */
		b.p[max - 1] = rn(r, max > 255 ? 256 : max + 1);
		got = T.pkcs7_rem(b.p, max);
		if(got != max - b.p[max - 1]) viol("pkcs7-rem", "%zu bytes ending in %u: returned %zu", max, b.p[max - 1], got);
	}
	distinct("pad=%u len=%zu maxlen=%zu", pad, len, max);
	free(copy);
	buf_free(&b);
}
