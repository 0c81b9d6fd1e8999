// The histories of the recorded findings: exits 1 while the defect is there.
#include <xmem/shared_ptr.hpp>
#include <cstdio>
#include <cstring>
#include <new>
struct S : xmem::enable_shared_from_this<S> { int x = 1; };
struct VB { virtual ~VB() {} int v = 1; };
struct VD : virtual VB { int d = 2; };
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    if (!strcmp(argv[1], "sf-outlives-block")) {
        S obj;
        { xmem::shared_ptr<S> p(&obj, [](S*) {}); }
        auto q = obj.shared_from_this();
        return q ? 1 : 0;
    }
    if (!strcmp(argv[1], "weak-virtual-base")) {
        xmem::weak_ptr<VD> w;
        { xmem::shared_ptr<VD> p(new VD); w = p; }
        xmem::weak_ptr<VB> b(w);
        return b.lock() ? 1 : 0;
    }
    return 2;
}
