// Tracking allocator: finds leaks, double frees, writes behind or into freed
// blocks, and fails chosen allocations.
#ifndef MEM_H
#define MEM_H
#include <stdbool.h>
struct mem_counts { long blocks, bad, maps, fds, allocs, startup; };
void mem_install(void);
void mem_begin(long failat, int pct, unsigned long long seed);  // failat: the n-th allocation fails (0: none)
void mem_started(void);
void mem_failpct(int pct);        // from now on
void mem_counts(struct mem_counts *c);
int mem_nfds(void);
#endif
