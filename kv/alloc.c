/* Allocator under the library when counterexamples are replayed: deterministic addresses, failure injection, a log of what is
   freed.  Built by kv/drive.py with the library's sources compiled with -Dmalloc=kv_malloc and so on. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define ARENA (96u << 20)
#define MAXB 65536
static unsigned char *arena;
static size_t used;
static struct { unsigned char *p; size_t n; int live; } b[MAXB];
int kv_nblk, kv_count, kv_fail = -1, kv_live, kv_bad;
static unsigned char *lg;
size_t kv_loglen;

void kv_reset(void)
{
	if(!arena) { arena = malloc(ARENA); lg = malloc(ARENA); }
	used = 0; kv_nblk = 0; kv_count = 0; kv_fail = -1; kv_live = 0; kv_bad = 0; kv_loglen = 0;
}

void *kv_malloc(size_t n)
{
	if(!arena) kv_reset();
	if(kv_count++ == kv_fail) return 0;
	size_t m = (n + 63) & ~(size_t)15;
	if(used + m > ARENA || kv_nblk == MAXB) return 0;
	unsigned char *p = arena + used;
	used += m;
	memset(p, 0xA5, n);
	b[kv_nblk].p = p; b[kv_nblk].n = n; b[kv_nblk].live = 1;
	kv_nblk++;
	kv_live++;
	return p;
}

void *kv_calloc(size_t a, size_t c)
{
	void *p = kv_malloc(a * c);
	if(p) memset(p, 0, a * c);
	return p;
}

void kv_free(void *p)
{
	if(!p) return;
	for(int i = kv_nblk - 1; i >= 0; i--) if(b[i].p == p)
	{
		if(!b[i].live) { kv_bad = 1; return; }
		b[i].live = 0;
		kv_live--;
		if(kv_loglen + b[i].n + 8 < ARENA)
		{
			uint64_t h = ((uint64_t)i << 32) | b[i].n;
			memcpy(lg + kv_loglen, &h, 8);
			memcpy(lg + kv_loglen + 8, p, b[i].n);
			kv_loglen += b[i].n + 8;
		}
		memset(p, 0xDD, b[i].n);
		return;
	}
	kv_bad = 2;
}

void *kv_realloc(void *p, size_t n)
{
	void *q = kv_malloc(n);
	if(q && p)
	{
		for(int i = 0; i < kv_nblk; i++) if(b[i].p == p) memcpy(q, p, b[i].n < n ? b[i].n : n);
		kv_free(p);
	}
	return q;
}

/* 0 fine, 1 double free, 2 free of something else, 3 freed memory written, 4 write past the end */
int kv_check(void)
{
	if(kv_bad) return kv_bad;
	for(int i = 0; i < kv_nblk; i++) if(!b[i].live) for(size_t j = 0; j < b[i].n; j++) if(b[i].p[j] != 0xDD) return 3;
	return 0;
}

const void *kv_log(void) { return lg; }
