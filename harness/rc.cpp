// Takes every transition of RefCount.tla in both kinds of reference count.
#include <xmem/atomic_ref_count.hpp>
#include <xmem/local_ref_count.hpp>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>

struct E { unsigned long long from, res, to; char op[8]; };
static std::vector<E> edges;
static int fails = 0;
static long taken = 0, skipped = 0;

// brings a new count to value v: by real calls, or, far from 1, by writing it, if it reads back
template <typename C> static bool bring(C& c, unsigned long long v) {
    if (v <= 70000) {
        if (v == 0) { c.dec(); return true; }
        for (unsigned long long i = 1; i < v; ++i) c.inc();
        return true;
    }
    if (sizeof(C) == 4) { unsigned w = (unsigned)v; memcpy((void*)&c, &w, 4); }
    else if (sizeof(C) == 8) memcpy((void*)&c, &v, 8);
    else return false;
    return (unsigned long long)c.count() == v;
}
template <typename C> static void all(const char* name) {
    for (auto& e : edges) {
        C c;
        if (!bring(c, e.from)) { ++skipped; continue; }
        if ((unsigned long long)c.count() != e.from) {
            if (fails++ < 5) printf("FAIL %s: the count reads %llu where the specification has %llu\n", name, (unsigned long long)c.count(), e.from);
            continue;
        }
        unsigned long long r = 0;
        if (!strcmp(e.op, "inc")) r = c.inc(); else if (!strcmp(e.op, "dec")) r = c.dec();
        else if (!strcmp(e.op, "inc_nz")) r = c.inc_nz(); else r = c.count();
        ++taken;
        if ((r != 0) != (e.res != 0) || r != e.res || (unsigned long long)c.count() != e.to) {
            if (fails++ < 5) printf("FAIL %s: %s at %llu returns %llu and leaves %llu; the specification says %llu and %llu\n", name, e.op, e.from, r, (unsigned long long)c.count(), e.res, e.to);
        }
    }
}
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r");
    if (!f) return 2;
    char line[512];
    std::vector<std::string> seen;
    while (fgets(line, sizeof line, f)) {
        unsigned a, b, c, d, x, y; char op[8];
        if (sscanf(line, "\"E <<<<%u, %u>>, <<\\\"%7[a-z_]\\\", <<%u, %u>>, <<%u, %u>>>>>>\"", &a, &b, op, &c, &d, &x, &y) != 7) continue;
        E e{a * 65536ull + b, c * 65536ull + d, x * 65536ull + y, ""};
        strcpy(e.op, op);
        edges.push_back(e);
    }
    all<xmem::atomic_ref_count>("atomic_ref_count");
    all<xmem::local_ref_count>("local_ref_count");
    printf("DONE {\"edges\": %zu, \"taken\": %ld, \"skipped\": %ld, \"failures\": %d}\n", edges.size(), taken, skipped, fails);
    return 0;
}
