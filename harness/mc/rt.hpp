// The controlled scheduler's interface to the programs it runs.
#pragma once
#include <cstddef>

struct Op { char k[4]; int a, b, c; };
struct Thr { int ns, s[4], nw, w[4], own, np; Op p[8]; };
struct Scn { int id, no, o[12], nv, v[16][2], nq, q[4], ng, g[4], nh, h[4], rc, nt; Thr t[4]; };

void rt_invoke();                    // a call begins: takes effect with its first atomic operation
void rt_return(int result);
void rt_destroyed(int object);       // in its destructor
void rt_fail(const char* facet, const char* fmt, ...);
void rt_lock(void*);                 // a lock of the program's own
void rt_unlock(void*);
void rt_wait();                      // until all other threads have finished or wait likewise
unsigned rt_form(unsigned n);        // which form of the current call to use
void rt_tag(int object);             // allocations that follow belong to this object
void* rt_alloc_object(size_t);       // storage of the object itself
int rt_tag_of(const void*);          // which object's allocation this is in, -1 none, -2 freed
bool rt_live(const void*);
int rt_self();
struct RtQuiet { RtQuiet(); ~RtQuiet(); };   // accesses of the harness's own, not recorded

// the program
void ops_setup(const Scn&);
void ops_thread(const Scn&, int t);
void ops_teardown(const Scn&);
