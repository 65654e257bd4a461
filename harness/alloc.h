/* The library builds made with -Wl,--wrap=malloc,... allocate through here. */
#ifndef ALLOC_H
#define ALLOC_H
#include <stddef.h>
#include <stdint.h>
void *kv_malloc(size_t n);
void kv_free(void *p);
void *kv_calloc(size_t a, size_t b);
void *kv_realloc(void *p, size_t n);

/* monitored arena: deterministic addresses, nothing reused */
void mon_start(void);		/* begin monitoring, arena empty */
void mon_stop(void);
void mon_pause(int p);		/* the driver's own use of the library is not counted */
long mon_live(void);		/* blocks not yet freed */
long mon_allocs(void), mon_frees(void);
void mon_fail(long at, int persistent);	/* at: 1-based allocation number; 0 none */
int mon_failed(void);		/* an allocation was refused */
const char *mon_check(void);	/* 0, or what went wrong (bad free, write after free, overrun) */
struct fsnap { size_t n; uint8_t *p; };
#endif
