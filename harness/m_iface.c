/* A program part built from the public headers (tools/iface.py): everything they declare must be
 * there, be the library's own, and be usable. */
#include "kv.h"
#include <dlfcn.h>

struct ent { const char *name, *where; int func; const void *at; };
struct prog
{
	const char *name;
	const struct ent *tab;
	const char *const *syms;
	const uint *version;
	uint (*lib_version)(int);
	long n;
	const char *error;
};
static struct prog P[16];

void init_iface(void)
{
	for(int i = 0; i < cfg.nlibs; i++)
	{
		void *h = dlopen(cfg.libs[i], RTLD_NOW | RTLD_LOCAL);
		struct prog *p = P + i;
		p->name = strrchr(cfg.libs[i], '/') + 1;
		if(h && (p->error = dlsym(h, "kv_error"))) continue;
		if(!h || !(p->tab = dlsym(h, "kv_iface")) || !(p->syms = dlsym(h, "kv_syms")) || !(p->version = dlsym(h, "kv_version"))
			|| !(p->lib_version = (uint (*)(int))dlsym(h, "kv_lib_version"))) { fprintf(stderr, "%s: %s\n", cfg.libs[i], dlerror()); exit(3); }
		for(p->n = 0; p->tab[p->n].name; p->n++);
	}
}

/* one way to take hold of the algorithm that an object of the headers names */
static void use(const struct prog *p, const struct ent *e)
{
	const void *d = *(const void *const *)e->at;
	uint8_t key[1024], out[1024];
	memset(key, 0x5A, sizeof key);
	if(!d) { viol("iface-null", "%s (%s) is a null pointer", e->name, e->where); return; }
	if(!strncmp(e->name, "kripto_block_", 13))
	{
		const kripto_desc_block *b = d;
		uint k = T.block_maxkey(b) < 16 ? T.block_maxkey(b) : 16, n = T.block_size(b);
		kripto_block *s = T.block_create(b, 0, key, k);
		MUST(s);
		if(T.block_getdesc(s) != b) viol("iface-desc", "%s is not the descriptor of its object", e->name);
		memcpy(out, key, n);
		T.block_encrypt(s, out, out);
		T.block_decrypt(s, out, out);
		if(memcmp(out, key, n)) viol("iface-use", "%s does not decrypt what it encrypted", e->name);
		T.block_destroy(s);
	}
	else if(!strncmp(e->name, "kripto_hash_", 12))
	{
		const kripto_desc_hash *h = d;
		kripto_hash *s = T.hash_create(h, 0, NULL, 0, T.hash_maxout(h) < 16 ? T.hash_maxout(h) : 16);
		MUST(s);
		if(T.hash_getdesc(s) != h) viol("iface-desc", "%s is not the descriptor of its object", e->name);
		T.hash_destroy(s);
	}
	else if(!strncmp(e->name, "kripto_stream_", 14))
	{
		const kripto_desc_stream *h = d;
		kripto_stream *s = T.stream_create(h, 0, key, 16, key, T.stream_maxiv(h) < 8 ? T.stream_maxiv(h) : 8);
		MUST(s);
		if(T.stream_getdesc(s) != h) viol("iface-desc", "%s is not the descriptor of its object", e->name);
		T.stream_destroy(s);
	}
	else if(!strncmp(e->name, "kripto_mac_", 11))
	{
		const kripto_desc_mac *h = d;
		kripto_mac *s = T.mac_create(h, 0, key, 16, T.mac_maxtag(h) < 16 ? T.mac_maxtag(h) : 16);
		MUST(s);
		if(T.mac_getdesc(s) != h) viol("iface-desc", "%s is not the descriptor of its object", e->name);
		T.mac_destroy(s);
	}
	else return;
	stat_add("algorithms used through their header", 1);
}

void m_iface(struct rng *r, long n)
{
	if(!cfg.nlibs) return;
	const struct prog *p = P + n % cfg.nlibs;
	long i, all = 0;
	(void)r;
	if(p->error) { viol("iface-header", "the headers cannot be included in %s: %s", p->name, p->error); return; }
	for(i = 0; i < p->n; i++)
	{
		const struct ent *e = p->tab + i;
		note("%s of %s in %s", e->name, e->where, p->name);
		if(!e->at) { viol("iface-missing", "%s is declared in %s and not in the library", e->name, e->where); continue; }
		if(e->at != dlsym(T.h, e->name)) { viol("iface-other", "%s is not the library's", e->name); continue; }
		distinct("%s %s", p->name, e->name);
		if(!e->func && strncmp(e->name, "kripto_version_", 15)) use(p, e);
		all++;
	}
	stat_add("declarations resolved", all);
	for(i = 0; i < 3; i++) if(p->version[i] != p->lib_version(i))
		viol("iface-version", "the header says version part %ld is %u, the library %u", i, p->version[i], p->lib_version(i));
	for(i = 0; p->syms[i]; i++)
	{
		if(strncmp(p->syms[i], "kripto_", 7) && p->syms[i][0] != '_')
			viol("iface-name", "the library takes the global name %s", p->syms[i]);
		all++;
	}
	stat_add("global names", i);
	/* the names in use are known to this monitor */
	if(p->n < 100) viol("iface-few", "only %ld declarations found", p->n);
	sample("%s: %ld declarations, %ld global names, version %u.%u.%u", p->name, p->n, i, p->version[0], p->version[1], p->version[2]);
}
