/* The Windows branch of the random source, built against the stand-ins in win/: the system
 * is played here, with its failures, and sees every handle taken, used and given back. */
#include "ops.h"
#include "alloc.h"
#include "win/windows.h"
#include "win/wincrypt.h"
#include <strings.h>
#include <sys/mman.h>

#define MAXH 8
static struct rng sys;
static int held[MAXH], nheld, taken;	/* handles: a module (RtlGenRandom) or a context */
static int fail_load, fail_proc, fail_acquire;
static long calls, fail_call;
static int lied;

/* what the system delivered for one request: small answers byte by byte, large ones by range */
#define SMALL (1u << 20)
static uint8_t dlog[SMALL];
static size_t nlog;
#define NRUN 64
static struct run { uint8_t *at; size_t len; uint64_t head, tail; } runs[NRUN];
static uint nrun;
static size_t bounced;

static uintptr_t handle(void)
{
	for(uint i = 0; i < MAXH; i++) if(!held[i]) { held[i] = 1; nheld++; taken++; return 0x5A0000 + i * 16; }
	viol("win-handles", "more than %d handles are open", MAXH);
	return 0;
}
static int known(uintptr_t h, const char *what)
{
	uint i = (h - 0x5A0000) / 16;
	if(h < 0x5A0000 || i >= MAXH || (h & 15) || !held[i]) { viol("win-handle", "%s of a handle that is not open (%llx)", what, (unsigned long long)h); return -1; }
	return i;
}

HMODULE kv_load(LPCSTR name)
{
	if(!name || strcasecmp(name, "advapi32.dll")) viol("win-module", "module %s asked for", name ? name : "(null)");
	if(fail_load) { lied = 1; return 0; }
	return (HMODULE)handle();
}
HMODULE kv_handle(LPCSTR name) { return kv_load(name); }
BOOL kv_free_lib(HMODULE lib)
{
	int i = known((uintptr_t)lib, "release");
	if(i < 0) return FALSE;
	held[i] = 0; nheld--;
	return TRUE;
}

static int deliver(uint8_t *out, uint32_t len)
{
	calls++;
	if(fail_call && calls >= fail_call)
	{
		if(len) memset(out, 0xEE, len > 40 ? 40 : len);	/* what a failed call leaves is not random */
		lied = 1;
		return FALSE;
	}
	if(len < SMALL && nlog + len <= SMALL)
	{
		for(uint32_t i = 0; i < len; i++) dlog[nlog++] = out[i] = rnd(&sys);
		return TRUE;
	}
	uint64_t h = rnd(&sys), t = rnd(&sys);
	if(len >= 16) { memcpy(out, &h, 8); memcpy(out + len - 8, &t, 8); }
	if(nrun == NRUN) bounced += len;
	else runs[nrun++] = (struct run){out, len, h, t};
	return TRUE;
}

static BOOLEAN rtlgenrandom(PVOID out, ULONG len) { return deliver(out, len); }
FARPROC kv_proc(HMODULE lib, LPCSTR name)
{
	if(known((uintptr_t)lib, "function address") < 0) return 0;
	if(!name || strcmp(name, "SystemFunction036")) { viol("win-function", "function %s asked for", name ? name : "(null)"); return 0; }
	if(fail_proc) { lied = 1; return 0; }
	return (FARPROC)rtlgenrandom;
}

BOOL kv_acquire(HCRYPTPROV *prov, LPCSTR container, LPCSTR name, DWORD type, DWORD flags)
{
	(void)name; (void)type;
	if(fail_acquire) { lied = 1; *prov = rn(&sys, 2) ? 0x77 : 0; return FALSE; }
	if(container || !(flags & CRYPT_VERIFYCONTEXT) || flags & CRYPT_NEWKEYSET)
		viol("win-context", "a context with stored keys is asked for (container %s, flags %x)", container ? container : "none", flags);
	*prov = handle();
	return TRUE;
}
BOOL kv_gen(HCRYPTPROV prov, DWORD len, BYTE *out) { return known(prov, "request") < 0 ? FALSE : deliver(out, len); }
BOOL kv_release(HCRYPTPROV prov, DWORD flags)
{
	int i = known(prov, "release");
	if(i < 0) return FALSE;
	if(flags) viol("win-release", "flags %x of CryptReleaseContext", flags);
	held[i] = 0; nheld--;
	return TRUE;
}

/* one request, checked against what the system delivered */
static uint32_t ask(kripto_random *g, uint8_t *out, size_t len, size_t room, long fail)
{
	size_t got, pos = 0;
	uint32_t h = 0;
	nrun = 0; nlog = 0; bounced = 0; calls = 0; lied = 0; fail_call = fail;
	if(len <= SMALL) memset(out, 0xC3, room);
	got = T.random_gen(g, out, len);
	fail_call = 0;
	if(got > len) { viol("random-return", "request of %zu bytes returned %zu", len, got); return 0; }
	if(!lied && got != len) viol("random-short", "request of %zu bytes returned %zu though the system did not fail", len, got);
	if(lied && got == len && len) viol("random-failure", "request of %zu bytes returned all of them though the system failed", len);
	/* the bytes claimed are those delivered, in order and without a gap */
	if(!nrun)
	{
		if(got > nlog) viol("random-claim", "request of %zu bytes returned %zu, the system gave %zu only", len, got, nlog);
		else if(memcmp(out, dlog, got)) viol("random-bytes", "request of %zu bytes: what came out is not what the system gave", len);
	}
	else if(len > SMALL)
	{
		size_t all = nlog + bounced;
		for(uint i = 0; i < nrun; i++)
		{
			struct run *n = runs + i;
			if(n->at < out || n->at >= out + len) { all += n->len; continue; }
			if(n->at != out + pos) break;
			if(memcmp(out + pos, &n->head, 8) || memcmp(out + pos + n->len - 8, &n->tail, 8)) viol("random-bytes", "request of %zu bytes: the system's bytes at %zu were changed", len, pos);
			pos += n->len;
		}
		if(pos + all < got) viol("random-claim", "request of %zu bytes returned %zu, the system was asked for %zu only", len, got, pos + all);
	}
	if(len <= SMALL) for(size_t i = len; i < room; i++) if(out[i] != 0xC3) { viol("out-of-bounds", "request of %zu bytes wrote past its end", len); break; }
	stat_add("bytes_delivered", got);
	stat_add("system_failures_in_requests", lied);
	if(got) h = out[0] | out[got - 1] << 8;
	return h;
}

void m_win(struct rng *r, long n)
{
	kripto_random *g[3];
	const char *e;
	uint i, ng = rr(r, 1, 3), ops = rn(r, 12), h = 0, nops = ops;
	static uint8_t buf[70000];

	rng_seed(&sys, rnd(r));
	memset(held, 0, sizeof held);
	nheld = taken = 0;
	fail_load = fail_proc = fail_acquire = 0; fail_call = 0;
	note("%u sources, %u requests", ng, ops);
	mon_start();
	if(n % 5 == 0)
	{
		/* a creation that fails, at every point */
		for(uint k = 0; k < 4; k++) for(long at = 1; at < 9; at++)
		{
			lied = 0;
			fail_load = k == 1; fail_proc = k == 2; fail_acquire = k == 3;
			if(!k) mon_fail(at, 0);
			kripto_random *x = T.random_create();
			int hit = lied || (!k && mon_failed());
			mon_fail(0, 0);
			fail_load = fail_proc = fail_acquire = 0;
			if(x && hit) viol("failure-ignored", "random_create succeeded although %s failed", k == 0 ? "an allocation" : k == 1 ? "loading the module" : k == 2 ? "finding the function" : "opening the context");
			if(!x && !hit) viol("api-null", "random_create failed");
			if(x) T.random_destroy(x);
			if(nheld) { viol("win-leak", "%d handles are open after random_create %s", nheld, x ? "and random_destroy" : "failed"); nheld = 0; memset(held, 0, sizeof held); }
			stat_add("failed_creations", hit);
			if(!hit || k) break;
		}
	}
	for(i = 0; i < ng; i++) if(!(g[i] = T.random_create())) { viol("api-null", "random_create failed"); goto end; }
	if(!nheld) viol("win-handles", "no source of the system is open");
	while(ops--)
	{
		size_t len = rn(r, 4) ? rn(r, 300) : rn(r, 60000), off = rn(r, 9);
		int bad = rn(r, 5) == 0;
		h = h * 31 + ask(g[rn(r, ng)], buf + off, len, len + 32, bad ? 1 + rn(r, 2) : 0);
	}
	if(n % 8 == 1 && !T.random_test(g[0])) stat_add("self_tests_refused", 1);
	if(n % 50 == 2)
	{
		/* more than the system takes at once: its length is a 32-bit number */
		static uint8_t *big;
		size_t size = (1ull << 33) + (1u << 20);
		if(!big) { big = mmap(0, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); MUST(big != MAP_FAILED); }
		static const uint64_t L[] = {1ull << 32, 1ull << 31, 1ull << 33, 0xFFFFFFFFull, 3ull << 31};
		size_t len = L[n / 50 % 5] + rn(r, 3) * rn(r, 300) + (n / 50 % 3 ? 0 : rn(r, 1u << 19));
		h ^= ask(g[0], big, len, 0, 0);
		h ^= ask(g[0], big, len, 0, 1 + rn(r, 3));
		stat_add("requests_beyond_2^31", 2);
	}
	while(ng) { i = rn(r, ng); T.random_destroy(g[i]); g[i] = g[--ng]; }
	if(nheld) viol("win-leak", "%d of %d handles are open after every source was destroyed", nheld, taken);
	if(mon_live()) viol("leak", "%ld blocks are left after every source was destroyed", mon_live());
	if((e = mon_check())) viol("heap", "%s", e);
	stat_add("handles", taken);
	distinct("%u %u %u", taken, nops, h);
	sample("%d handles taken and given back, %u requests", taken, nops);
end:
	mon_stop();
}
