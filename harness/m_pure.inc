/* ---- computing has no side effects ----
 * A child runs the scenario with a system-call filter: asking the kernel for
 * anything but memory raises SIGSYS and is recorded; so is reading the clock,
 * the time-stamp counter, the environment or libc's random numbers through the
 * interposed functions below. */
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/ucontext.h>
#include <linux/seccomp.h>
#include <linux/filter.h>
#include <linux/audit.h>
#include <stdio_ext.h>
#include <locale.h>
#include <fenv.h>
#include <signal.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>

static struct pure { int filter, done, nsys, sys[8], ncall, exited; const char *call[8]; long work, traps; char v[4][400]; int nv; } *PU;
static volatile int pure_on;

static void pure_call(const char *f) { if(pure_on && PU) { if(PU->ncall < 8) PU->call[PU->ncall] = f; PU->ncall++; } }

#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer) || __has_feature(thread_sanitizer)
#define NO_INTERPOSE
#endif
#endif
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__) && !defined(NO_INTERPOSE)
#define REAL(F) static __typeof__(F) *real; if(!real) real = (__typeof__(F) *)dlsym(RTLD_NEXT, #F); pure_call(#F)
#define EXPO __attribute__((visibility("default")))
EXPO time_t time(time_t *t) { REAL(time); return real(t); }
EXPO clock_t clock(void) { REAL(clock); return real(); }
EXPO int gettimeofday(struct timeval *restrict t, void *restrict z) { static int (*real)(struct timeval *, void *); if(!real) real = (int (*)(struct timeval *, void *))dlsym(RTLD_NEXT, "gettimeofday"); pure_call("gettimeofday"); return real(t, z); }
EXPO int clock_gettime(clockid_t c, struct timespec *t) { REAL(clock_gettime); return real(c, t); }
EXPO int timespec_get(struct timespec *t, int b) { REAL(timespec_get); return real(t, b); }
EXPO int rand(void) { REAL(rand); return real(); }
EXPO void srand(unsigned s) { REAL(srand); real(s); }
EXPO long random(void) { REAL(random); return real(); }
EXPO void srandom(unsigned s) { REAL(srandom); real(s); }
EXPO double drand48(void) { REAL(drand48); return real(); }
EXPO long lrand48(void) { REAL(lrand48); return real(); }
EXPO char *getenv(const char *n) { REAL(getenv); return real(n); }
EXPO char *secure_getenv(const char *n) { static char *(*real)(const char *); if(!real) real = (char *(*)(const char *))dlsym(RTLD_NEXT, "secure_getenv"); pure_call("secure_getenv"); return real(n); }
EXPO int atexit(void (*f)(void)) { extern int __cxa_atexit(void (*)(void *), void *, void *); pure_call("atexit"); return __cxa_atexit((void (*)(void *))(void *)f, 0, 0); }
EXPO int setenv(const char *n, const char *v, int o) { REAL(setenv); return real(n, v, o); }
EXPO int putenv(char *s) { REAL(putenv); return real(s); }
EXPO char *setlocale(int c, const char *l) { REAL(setlocale); return real(c, l); }
#endif

static void pure_sys(int sig, siginfo_t *i, void *u)
{
	ucontext_t *c = u;
	(void)sig;
	if(PU->nsys < 8) PU->sys[PU->nsys] = i->si_syscall;
	PU->nsys++;
#ifdef __x86_64__
	c->uc_mcontext.gregs[REG_RAX] = -ENOSYS;
#else
	(void)c;
#endif
}

static int pure_filter(void)
{
	static const int ok[] = {SYS_mmap, SYS_munmap, SYS_mremap, SYS_mprotect, SYS_madvise, SYS_brk, SYS_futex, SYS_rt_sigreturn, SYS_exit_group};
	struct sock_filter f[64];
	struct sigaction sa;
	int n = 0, k = sizeof ok / sizeof *ok;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = pure_sys;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSYS, &sa, 0);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 0);
	for(int i = 0; i < k; i++) f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ok[i], k - i, 0);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
	f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
	struct sock_fprog p = {n, f};
#ifdef PR_SET_TSC
	prctl(PR_SET_TSC, PR_TSC_SIGSEGV);
#endif
	if(prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return 0;
	return !prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p);
}

static void pure_v(const char *what) { if(PU->nv < 4) snprintf(PU->v[PU->nv++], 400, "%s", what); }
static uint fpctl(void)
{
#ifdef __x86_64__
	uint m; uint16_t c;
	__asm__ volatile("stmxcsr %0\n\tfnstcw %1" : "=m"(m), "=m"(c));
	return (m & ~63u) | (uint)c << 16;
#else
	return fegetround();
#endif
}
static uint fptag(void)
{
#ifdef __x86_64__
	struct { uint16_t cw, p0, sw, p1, tag, p2; uint32_t r[4]; } e;	/* fnstenv */
	__asm__ volatile("fnstenv %0\n\tfldenv %0" : "+m"(e));
	return e.tag;
#else
	return 0;
#endif
}
extern char **environ;
static uint64_t env_hash(void)
{
	uint64_t h = 1;
	for(char **e = environ; e && *e; e++) h = hash_bytes(*e, strlen(*e), h);
	return h;
}

static void pure_child(struct rng *r, const struct scen *s, struct obj *d)
{
	struct tr t;
	uint fp = fpctl();
	uint64_t env = env_hash();
	char **envp = environ;
	long total, at;
	struct lconv lc = *localeconv();
	uint8_t b[700], tag[64];
	tr_init(&t, 0);
	PU->filter = pure_filter();
	pure_on = 1;
	mon_start();
	if(scen_run(s, d, &t)) pure_v("a call failed without a fault");
	total = mon_allocs();
	PU->work++;
	for(at = 1; at <= total && at <= 12; at++)
	{
		if(at > 3 && rn(r, 3)) continue;
		mon_start();
		mon_fail(at, rn(r, 2));
		scen_run(s, d, &t);
		PU->work++;
	}
	mon_stop();
	/* refusals: a tag that is wrong, parameters that cannot be met, padding that is none */
	if(s->p.kind == K_MAC)
	{
		struct obj o = *d;
		if(obj_create(&o))
		{
			rbytes(r, b, 600); rbytes(r, tag, 64);
			T.mac_input(o.h, b, rn(r, 600));
			T.mac_verify(o.h, tag, s->p.outlen < 64 ? s->p.outlen : 64);
			T.mac_destroy(o.h);
		}
		if(!rn(r, 4)) T.scrypt(o.desc, 0, 2, 1u << 30, 1u << 30, b, 1, b, 0, tag, 8);
	}
	if(s->p.kind == K_AE)
	{
		struct obj o = *d;
		if(obj_create(&o))
		{
			rbytes(r, tag, 64);
			uint m = T.ae_multof(o.h), n = m < 600 ? rn(r, 600 / m) * m : 0;
			T.ae_header(o.h, b, rn(r, 100));
			T.ae_decrypt(o.h, b, b, n);
			T.ae_verify(o.h, tag, s->p.outlen < 64 ? s->p.outlen : 64);
			T.ae_destroy(o.h);
		}
	}
	rbytes(r, b, 700);
	T.pkcs7_rem(b, 1 + rn(r, 600));
	T.pkcs7_add(b, rn(r, 300), rr(r, 1, 255), 100 + rn(r, 600));
	T.memory_equals(b, b + 300, rn(r, 300));
	T.memory_wipe(b, rn(r, 600));
	PU->work += 4;
	pure_on = 0;
	if(fpctl() != fp) pure_v("the floating point control state was changed");
	if(fptag() != 0xFFFF) pure_v("the floating point stack was left in use");
	if(environ != envp || env_hash() != env) pure_v("the environment was changed");
	struct lconv l2 = *localeconv();
	if(memcmp(&lc, &l2, sizeof lc)) pure_v("the locale was changed");
	if(__fpending(stdout) || __fpending(stderr)) pure_v("it wrote to standard output or standard error");
	PU->done = 1;
	_exit(0);
}

void m_pure(struct rng *r, long n)
{
	struct scen s;
	struct obj d;
	int st, i;
	char what[600] = "";
	scen_pick(r, &s, n);
	note("%s", scen_str(&s));
	obj_desc(&T, &d, &s.p);
	if(!PU) PU = mmap(0, sizeof *PU, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(PU, 0, sizeof *PU);
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if(p < 0) { stat_add("no_process", 1); free_descs(&d.d); return; }
	if(!p) pure_child(r, &s, &d);
	while(waitpid(p, &st, 0) < 0 && errno == EINTR);
	if(PU->nsys)
	{
		for(i = 0; i < PU->nsys && i < 8; i++) snprintf(what + strlen(what), sizeof what - strlen(what), " %d", PU->sys[i]);
		viol("system-call", "%s: asked the kernel for more than memory: system calls%s (%d in all)", scen_str(&s), what, PU->nsys);
	}
	else if(PU->ncall)
	{
		for(i = 0; i < PU->ncall && i < 8; i++) snprintf(what + strlen(what), sizeof what - strlen(what), " %s", PU->call[i]);
		viol("environment-read", "%s: called%s (%d calls)", scen_str(&s), what, PU->ncall);
	}
	for(i = 0; i < PU->nv; i++) viol("process-state", "%s: %s", scen_str(&s), PU->v[i]);
	if(!PU->done && !PU->nsys)
	{
		if(WIFSIGNALED(st)) viol("process-ended", "%s: the process was ended by signal %d (11: also reading the time-stamp counter)", scen_str(&s), WTERMSIG(st));
		else viol("process-ended", "%s: the process was ended with status %d", scen_str(&s), WEXITSTATUS(st));
	}
	stat_add("watched_processes", 1);
	stat_add(PU->filter ? "with_system_call_filter" : "without_system_call_filter", 1);
	stat_add("watched_scenarios", PU->work);
	distinct("%s rounds=%u key_len=%u iv_len=%u out_len=%u oneshot=%d re=%d", s.p.spec, s.p.rounds, s.p.klen, s.p.ivlen, s.p.outlen, s.oneshot, s.nre);
	free_descs(&d.d);
}
