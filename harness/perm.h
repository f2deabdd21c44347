// Every operation of the library, called where it is not permitted: outside
// of any coroutine, or on objects of another runtime.
#ifndef PERM_H
#define PERM_H
#include "neco.h"
struct perm_objs {          // objects that do not belong to the caller
    neco_chan *chan;
    neco_mutex *mu;
    neco_cond *cv;
    neco_waitgroup *wg;
    neco_stream *st, *ust;
    neco_mutex *ownmu;      // this one does (may be NULL)
    neco_cond *owncv;
    neco_chan *ownchan;
};
#define PERM_NFOREIGN 53
static inline int perm_foreign(int i) { return i < 44 ? i : i - 44 + 97; }
#define PERM_N 106
long perm_call(int i, struct perm_objs *o);   // NECO_PERM expected
#endif
