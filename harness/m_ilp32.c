/* The library built for a machine of 32-bit int, long, size_t and pointers,
 * inside this process: the image lies below 4 GiB and its functions run in
 * the processor's 32-bit mode, entered by a far return and left by a far
 * jump. Arguments are copied to memory it can address and back. */
#include "kv.h"
#if defined(__x86_64__)
#include <elf.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif

#define LOW ((uint8_t *)0x30000000)	/* stubs, stack, copies of arguments */
#define STACK 0x200000
#define COPIES 0x400000
#define LOWSIZE 0x18000000
#define ARENA ((uint8_t *)0x50000000)
#define ARENASIZE 0x28000000

static uint8_t *file;
static const Elf32_Sym *st;
static int nst;
static const char *names;

static uint32_t addr(const char *name)
{
	for(int i = 0; i < nst; i++)
		if(st[i].st_shndx && !strcmp(names + st[i].st_name, name)) return st[i].st_value;
	return 0;
}

static uint32_t call(uint32_t fn, int n, const uint32_t *a)
{
	uint32_t *sp = (uint32_t *)(LOW + STACK - 256), r;
	memcpy(sp, a, n * 4);
	__asm__ volatile
	(
		"sub $128, %%rsp\n\tlea 1f(%%rip), %%r8\n\tpush %%r8\n\tpush %%rbp\n\tpush %%rbx\n\tpush %%r12\n\tpush %%r13\n\tpush %%r14\n\tpush %%r15\n\t"
		"mov %%rsp, (%%rdx)\n\tmov %%rsi, %%rsp\n\tpush $0x23\n\tpush %%rdi\n\tlretq\n1:\tadd $128, %%rsp\n"
		: "=a"(r), "+d"((uint64_t){(uint64_t)(LOW + 0x400)}), "+S"(sp), "+D"((uint64_t){(uint64_t)LOW})
		: "0"((uint64_t)fn)
		: "rcx", "r8", "r9", "r10", "r11", "memory", "cc"
	);
	return r;
}

static int stubs(void)
{
	/* 32-bit: mov ecx,0x2b; mov ds,cx; mov es,cx; call eax; ljmp 0x33:LOW+0x100 */
	static const uint8_t in[] = {0xb9, 0x2b, 0, 0, 0, 0x8e, 0xd9, 0x8e, 0xc1, 0xff, 0xd0, 0xea, 0, 1, 0, 0x30, 0x33, 0};
	/* 64-bit: mov rsp,[LOW+0x400]; pop r15..r12, rbx, rbp; ret */
	static const uint8_t out[] = {0x48, 0x8b, 0x25, 0xf9, 2, 0, 0, 0x41, 0x5f, 0x41, 0x5e, 0x41, 0x5d, 0x41, 0x5c, 0x5b, 0x5d, 0xc3};
	uint8_t *p = mmap(LOW, LOWSIZE, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if(p != LOW) return 0;
	memcpy(LOW, in, sizeof in);
	memcpy(LOW + 0x100, out, sizeof out);
	p = mmap(ARENA, ARENASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	return p == ARENA;
}

static int image(const char *path)
{
	int fd = open(path, O_RDONLY);
	off_t n = fd < 0 ? 0 : lseek(fd, 0, SEEK_END);
	if(n < (off_t)sizeof(Elf32_Ehdr)) return 0;
	file = mmap(0, n, PROT_READ, MAP_PRIVATE, fd, 0);
	close(fd);
	if(file == MAP_FAILED) return 0;
	const Elf32_Ehdr *e = (const Elf32_Ehdr *)file;
	const Elf32_Phdr *ph = (const Elf32_Phdr *)(file + e->e_phoff);
	const Elf32_Shdr *sh = (const Elf32_Shdr *)(file + e->e_shoff);
	for(int i = 0; i < e->e_phnum; i++)
	{
		if(ph[i].p_type != PT_LOAD || !ph[i].p_memsz) continue;
		uintptr_t a = ph[i].p_vaddr & ~4095u, z = (ph[i].p_vaddr + ph[i].p_memsz + 4095) & ~4095u;
		uint8_t *p = mmap((void *)a, z - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if(p != (uint8_t *)a) return 0;
		memcpy((void *)(uintptr_t)ph[i].p_vaddr, file + ph[i].p_offset, ph[i].p_filesz);
		mprotect(p, z - a, (ph[i].p_flags & PF_W ? PROT_WRITE : 0) | (ph[i].p_flags & PF_X ? PROT_EXEC : 0) | PROT_READ);
	}
	for(int i = 0; i < e->e_shnum; i++) if(sh[i].sh_type == SHT_SYMTAB)
	{
		st = (const Elf32_Sym *)(file + sh[i].sh_offset);
		nst = sh[i].sh_size / sizeof *st;
		names = (const char *)file + sh[sh[i].sh_link].sh_offset;
	}
	return nst > 0;
}

/* ---- arguments ---- */
static uint32_t at, nbufs;
static struct { const void *p; size_t n; uint32_t a; int out; } bufs[8];

static uint32_t arg(const void *p, size_t n, int out)
{
	uint32_t a;
	if(!p) return 0;
	for(uint i = 0; i < nbufs; i++) if(bufs[i].p == p && bufs[i].n == n) { bufs[i].out |= out; return bufs[i].a; }
	a = at + 16 + ((uintptr_t)p & 15);
	at = (a + n + 63) & ~31u;
	if(at > (uintptr_t)LOW + LOWSIZE) { fprintf(stderr, "ilp32: %zu bytes are too many\n", n); exit(3); }
	memcpy((void *)(uintptr_t)a, p, n);
	memset((uint8_t *)(uintptr_t)a - 8, 0x5C, 8);
	memset((uint8_t *)(uintptr_t)a + n, 0x5C, 8);
	bufs[nbufs].p = p; bufs[nbufs].n = n; bufs[nbufs].a = a; bufs[nbufs].out = out; nbufs++;
	return a;
}
static int begin(void) { at = (uint32_t)(uintptr_t)LOW + COPIES; nbufs = 0; return 0; }

static uint32_t fin(const char *name, uint32_t r)
{
	for(uint i = 0; i < nbufs; i++)
	{
		const uint8_t *q = (const uint8_t *)(uintptr_t)bufs[i].a;
		for(int k = 0; k < 8; k++) if(q[k - 8] != 0x5C || q[bufs[i].n + k] != 0x5C)
			{ viol("ilp32-bounds", "kripto_%s in the 32-bit build wrote outside a buffer of %zu bytes", name, bufs[i].n); break; }
		if(bufs[i].out) memcpy((void *)bufs[i].p, q, bufs[i].n);
		else if(memcmp(q, bufs[i].p, bufs[i].n)) viol("ilp32-input", "kripto_%s in the 32-bit build changed its input of %zu bytes", name, bufs[i].n);
	}
	return r;
}

#define P(X) ((uint32_t)(uintptr_t)(X))
#define H(X) ((void *)(uintptr_t)(X))
#define IN(X, N) arg(X, N, 0)
#define OUT(X, N) arg(X, N, 1)
static uint32_t fn_cache[128];
enum {
#define X(R, N, A) F_##N,
API_FUNCS(X)
#undef X
};
/* the arguments are copied before the call and back after it */
#define C(N, ...) (begin(), fin(#N, (uint32_t)do_call(F_##N, (uint32_t[]){__VA_ARGS__}, sizeof((uint32_t[]){__VA_ARGS__}) / 4)))
static uint32_t do_call(int f, const uint32_t *a, int n) { return call(fn_cache[f], n, a); }

static uint size_of_block(const void *b);

static kripto_block *i_block_create(const kripto_desc_block *d, uint r, const void *k, uint kl) { return H(C(block_create, P(d), r, IN(k, kl), kl)); }
static kripto_block *i_block_recreate(kripto_block *s, uint r, const void *k, uint kl) { return H(C(block_recreate, P(s), r, IN(k, kl), kl)); }
static void i_block_tweak(kripto_block *s, const void *t, uint l) { C(block_tweak, P(s), IN(t, l), l); }
static void i_block_encrypt(const kripto_block *s, const void *a, void *b) { uint n = size_of_block(s); C(block_encrypt, P(s), IN(a, n), OUT(b, n)); }
static void i_block_decrypt(const kripto_block *s, const void *a, void *b) { uint n = size_of_block(s); C(block_decrypt, P(s), IN(a, n), OUT(b, n)); }
static void i_block_destroy(kripto_block *s) { C(block_destroy, P(s)); }
static const kripto_desc_block *i_block_getdesc(const kripto_block *s) { return H(C(block_getdesc, P(s))); }
static uint i_block_size(const kripto_desc_block *d) { return C(block_size, P(d)); }
static uint i_block_maxkey(const kripto_desc_block *d) { return C(block_maxkey, P(d)); }
static uint i_block_maxtweak(const kripto_desc_block *d) { return C(block_maxtweak, P(d)); }
static uint size_of_block(const void *b) { return i_block_size(i_block_getdesc(b)); }

/* no longer than fits; a multiple of every block size */
#define PIECE ((size_t)12 << 20)
static kripto_stream *i_stream_create(const kripto_desc_stream *d, uint r, const void *k, uint kl, const void *iv, uint il) { return H(C(stream_create, P(d), r, IN(k, kl), kl, IN(iv, il), il)); }
static kripto_stream *i_stream_recreate(kripto_stream *s, uint r, const void *k, uint kl, const void *iv, uint il) { return H(C(stream_recreate, P(s), r, IN(k, kl), kl, IN(iv, il), il)); }
#define PIECES(P0, STEP) do { size_t m = n > PIECE ? PIECE : n; STEP; n -= m; P0; } while(n)
static void i_stream_encrypt(kripto_stream *s, const void *a, void *b, size_t n) { const uint8_t *x = a; uint8_t *y = b; PIECES((x += m, y += m), C(stream_encrypt, P(s), IN(x, m), OUT(y, m), m)); }
static void i_stream_decrypt(kripto_stream *s, const void *a, void *b, size_t n) { const uint8_t *x = a; uint8_t *y = b; PIECES((x += m, y += m), C(stream_decrypt, P(s), IN(x, m), OUT(y, m), m)); }
static void i_stream_prng(kripto_stream *s, void *b, size_t n) { uint8_t *y = b; PIECES(y += m, C(stream_prng, P(s), OUT(y, m), m)); }
static void i_stream_destroy(kripto_stream *s) { C(stream_destroy, P(s)); }
static uint i_stream_multof(const kripto_stream *s) { return C(stream_multof, P(s)); }
static const kripto_desc_stream *i_stream_getdesc(const kripto_stream *s) { return H(C(stream_getdesc, P(s))); }
static uint i_stream_maxkey(const kripto_desc_stream *d) { return C(stream_maxkey, P(d)); }
static uint i_stream_maxiv(const kripto_desc_stream *d) { return C(stream_maxiv, P(d)); }

static kripto_hash *i_hash_create(const kripto_desc_hash *d, uint r, const void *s, uint sl, uint ol) { return H(C(hash_create, P(d), r, IN(s, sl), sl, ol)); }
static kripto_hash *i_hash_recreate(kripto_hash *h, uint r, const void *s, uint sl, uint ol) { return H(C(hash_recreate, P(h), r, IN(s, sl), sl, ol)); }
static void i_hash_input(kripto_hash *h, const void *a, size_t n) { const uint8_t *x = a; PIECES(x += m, C(hash_input, P(h), IN(x, m), m)); }
static void i_hash_output(kripto_hash *h, void *b, size_t n) { uint8_t *y = b; PIECES(y += m, C(hash_output, P(h), OUT(y, m), m)); }
static void i_hash_destroy(kripto_hash *h) { C(hash_destroy, P(h)); }
static int i_hash_all(const kripto_desc_hash *d, uint r, const void *s, uint sl, const void *a, size_t n, void *b, size_t m) { return (int)C(hash_all, P(d), r, IN(s, sl), sl, IN(a, n), n, OUT(b, m), m); }
static const kripto_desc_hash *i_hash_getdesc(const kripto_hash *h) { return H(C(hash_getdesc, P(h))); }
static uint i_hash_maxout(const kripto_desc_hash *d) { return C(hash_maxout, P(d)); }
static uint i_hash_maxsalt(const kripto_desc_hash *d) { return C(hash_maxsalt, P(d)); }
static uint i_hash_blocksize(const kripto_desc_hash *d) { return C(hash_blocksize, P(d)); }

static kripto_mac *i_mac_create(const kripto_desc_mac *d, uint r, const void *k, uint kl, uint tl) { return H(C(mac_create, P(d), r, IN(k, kl), kl, tl)); }
static kripto_mac *i_mac_recreate(kripto_mac *s, uint r, const void *k, uint kl, uint tl) { return H(C(mac_recreate, P(s), r, IN(k, kl), kl, tl)); }
static void i_mac_input(kripto_mac *s, const void *a, size_t n) { const uint8_t *x = a; PIECES(x += m, C(mac_input, P(s), IN(x, m), m)); }
static void i_mac_tag(kripto_mac *s, void *t, uint n) { C(mac_tag, P(s), OUT(t, n), n); }
static int i_mac_verify(kripto_mac *s, const void *t, uint n) { return (int)C(mac_verify, P(s), IN(t, n), n); }
static void i_mac_destroy(kripto_mac *s) { C(mac_destroy, P(s)); }
static int i_mac_all(const kripto_desc_mac *d, uint r, const void *k, uint kl, const void *a, uint n, void *t, uint tl) { return (int)C(mac_all, P(d), r, IN(k, kl), kl, IN(a, n), n, OUT(t, tl), tl); }
static const kripto_desc_mac *i_mac_getdesc(const kripto_mac *s) { return H(C(mac_getdesc, P(s))); }
static uint i_mac_maxtag(const kripto_desc_mac *d) { return C(mac_maxtag, P(d)); }
static uint i_mac_maxkey(const kripto_desc_mac *d) { return C(mac_maxkey, P(d)); }

static kripto_ae *i_ae_create(const kripto_desc_ae *d, uint r, const void *k, uint kl, const void *iv, uint il, uint tl) { return H(C(ae_create, P(d), r, IN(k, kl), kl, IN(iv, il), il, tl)); }
static kripto_ae *i_ae_recreate(kripto_ae *s, uint r, const void *k, uint kl, const void *iv, uint il, uint tl) { return H(C(ae_recreate, P(s), r, IN(k, kl), kl, IN(iv, il), il, tl)); }
static void i_ae_encrypt(kripto_ae *s, const void *a, void *b, size_t n) { const uint8_t *x = a; uint8_t *y = b; PIECES((x += m, y += m), C(ae_encrypt, P(s), IN(x, m), OUT(y, m), m)); }
static void i_ae_decrypt(kripto_ae *s, const void *a, void *b, size_t n) { const uint8_t *x = a; uint8_t *y = b; PIECES((x += m, y += m), C(ae_decrypt, P(s), IN(x, m), OUT(y, m), m)); }
static void i_ae_header(kripto_ae *s, const void *a, size_t n) { const uint8_t *x = a; PIECES(x += m, C(ae_header, P(s), IN(x, m), m)); }
static void i_ae_tag(kripto_ae *s, void *t, uint n) { C(ae_tag, P(s), OUT(t, n), n); }
static int i_ae_verify(kripto_ae *s, const void *t, uint n) { return (int)C(ae_verify, P(s), IN(t, n), n); }
static void i_ae_destroy(kripto_ae *s) { C(ae_destroy, P(s)); }
static uint i_ae_multof(const kripto_ae *s) { return C(ae_multof, P(s)); }
static const kripto_desc_ae *i_ae_getdesc(const kripto_ae *s) { return H(C(ae_getdesc, P(s))); }
static uint i_ae_maxkey(const kripto_desc_ae *d) { return C(ae_maxkey, P(d)); }
static uint i_ae_maxiv(const kripto_desc_ae *d) { return C(ae_maxiv, P(d)); }
static uint i_ae_maxtag(const kripto_desc_ae *d) { return C(ae_maxtag, P(d)); }

static int i_pbkdf2(const kripto_desc_mac *d, uint mr, uint it, const void *p, uint pl, const void *s, uint sl, void *o, size_t ol)
{ return (int)C(pbkdf2, P(d), mr, it, IN(p, pl), pl, IN(s, sl), sl, OUT(o, ol), ol); }
static int i_scrypt(const kripto_desc_mac *d, uint mr, uint64_t n, uint32_t r, uint32_t p, const void *pw, uint pl, const void *s, uint sl, void *o, size_t ol)
{ return (int)C(scrypt, P(d), mr, (uint32_t)n, (uint32_t)(n >> 32), r, p, IN(pw, pl), pl, IN(s, sl), sl, OUT(o, ol), ol); }
static size_t i_pkcs7_add(void *b, size_t n, uint pad, size_t max) { return C(pkcs7_add, OUT(b, max), n, pad, max); }
static size_t i_pkcs7_rem(void *b, size_t n) { return C(pkcs7_rem, OUT(b, n), n); }
static void i_memory_wipe(void *b, size_t n) { C(memory_wipe, OUT(b, n), n); }
static unsigned char i_memory_equals(const void *a, const void *b, size_t n) { return (unsigned char)C(memory_equals, IN(a, n), IN(b, n), n); }
/* depends on the system */
static kripto_random *i_random_create(void) { return 0; }
static size_t i_random_gen(kripto_random *s, void *b, size_t n) { return 0; }
static void i_random_destroy(kripto_random *s) { }
static int i_random_test(kripto_random *s) { return 0; }

#define D1(N, T, A) static T *i_##N(const A *d) { return H(C(N, P(d))); }
D1(stream_cbc, kripto_desc_stream, kripto_desc_block) D1(stream_cfb, kripto_desc_stream, kripto_desc_block) D1(stream_ctr, kripto_desc_stream, kripto_desc_block)
D1(stream_ecb, kripto_desc_stream, kripto_desc_block) D1(stream_ofb, kripto_desc_stream, kripto_desc_block)
D1(mac_hmac, kripto_desc_mac, kripto_desc_hash) D1(mac_omac, kripto_desc_mac, kripto_desc_block) D1(mac_xcbc, kripto_desc_mac, kripto_desc_block)
D1(ae_eax, kripto_desc_ae, kripto_desc_block)
static kripto_desc_ae *i_ae_eax2(const kripto_desc_stream *s, const kripto_desc_mac *m) { return H(C(ae_eax2, P(s), P(m))); }
static kripto_desc_block *i_block_gost(const unsigned char (*b)[16])
{
	/* the descriptor goes on using the user's table */
	static int n;
	uint8_t *t = LOW + STACK + 4096;
	int i;
	for(i = 0; i < n && memcmp(t + 128 * i, b, 128); i++);
	if(i == n) { if(n == 256) exit(3); memcpy(t + 128 * n++, b, 128); }
	return H(C(block_gost, P(t + 128 * i)));
}
static kripto_desc_block *i_block_gost_cbr(void) { return H(C(block_gost_cbr, 0)); }
static kripto_desc_block *i_block_gost_r34_12_2015(void) { return H(C(block_gost_r34_12_2015, 0)); }

static const char M32[] = "m32";
int is_ilp32(const struct api *a) { return a->h == M32; }

static int ready(const char *path)
{
	if(!stubs() || !image(path)) return 0;
	*(uint32_t *)H(addr("kv_arena")) = P(ARENA);
	*(uint32_t *)H(addr("kv_arena_size")) = ARENASIZE;
	return 1;
}

void ilp32_load(struct api *a, const char *path)
{
	int i = 0;
	char s[64];
	if(!ready(path)) { fprintf(stderr, "ilp32: cannot load %s\n", path); exit(3); }
	a->h = (void *)M32;
	a->path = path;
#define X(R, N, A) snprintf(s, sizeof s, "kripto_" #N); a->N = i_##N; fn_cache[i++] = addr(s);
	API_FUNCS(X)
#undef X
}

const void *ilp32_sym(const char *name)
{
	uint32_t p = addr(name);
	return p ? H(*(uint32_t *)H(p)) : 0;
}

/* a descriptor that this build made, which the user frees */
int ilp32_free(void *p)
{
	uint32_t a = P(p);
	if(!nst || (uint8_t *)p < ARENA || (uint8_t *)p >= ARENA + ARENASIZE) return 0;
	call(addr("free"), 1, &a);
	return 1;
}
long ilp32_blocks(void) { return nst ? *(uint32_t *)H(addr("kv_blocks")) : 0; }

/* can such code run here at all? */
void m_ilp32probe(struct rng *r, long n)
{
	static uint8_t b[8] = {1, 2, 3};
	uint32_t a[3];
	if(!cfg.nlibs || !ready(cfg.libs[0])) { printf("ILP32\tno\n"); return; }
	memcpy(LOW + COPIES, b, 8);
	a[0] = P(LOW + COPIES + 64); a[1] = P(LOW + COPIES); a[2] = 8;
	uint32_t v = call(addr("memcpy"), 3, a);
	if(v == a[0] && !memcmp(LOW + COPIES + 64, b, 8)) printf("ILP32\tyes\n");
}
#else
int is_ilp32(const struct api *a) { return 0; }
void ilp32_load(struct api *a, const char *path) { exit(3); }
const void *ilp32_sym(const char *name) { return 0; }
int ilp32_free(void *p) { return 0; }
long ilp32_blocks(void) { return 0; }
void m_ilp32probe(struct rng *r, long n) { }
#endif
