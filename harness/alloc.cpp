// Conformance adapter for nestl::allocator and the owners which use it by default (contract: spec/NestlAllocator.tla).
#include "common.hpp"
#include <nestl/allocator.hpp>
#include <nestl/allocator_traits.hpp>
#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>

// ---------------------------------------------------------------- the heap below nestl::allocator
struct HeapBlock { char* p; size_t n; };
static HeapBlock g_heap[4096];
static int g_heap_n = 0;
static bool g_heap_on = false;           // inside a nestl call
static bool g_tracked = true;            // nestl::allocator goes through global operator new
static void* heap_new(size_t n)
{
    if (!g_heap_on) return malloc(n ? n : 1);
    if (F.hit_alloc()) return 0;
    if (n > (size_t(1) << 30)) return 0;                       // this heap has no more
    char* p = static_cast<char*>(malloc(n ? n : 1));
    if (p && g_heap_n < 4096) { memset(p, 0xA5, n); g_heap[g_heap_n].p = p; g_heap[g_heap_n].n = n; ++g_heap_n; }
    return p;
}
static void heap_delete(void* p)
{
    for (int i = 0; i < g_heap_n; ++i) if (g_heap[i].p == p) { g_heap[i] = g_heap[--g_heap_n]; break; }
    free(p);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_new(n); }
void* operator new(size_t n)
{
    void* p = heap_new(n);
#if NESTL_HAS_EXCEPTIONS
    if (!p) throw std::bad_alloc();
#else
    if (!p) abort();
#endif
    return p;
}
void operator delete(void* p) noexcept { heap_delete(p); }
void operator delete(void* p, size_t) noexcept { heap_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { heap_delete(p); }
struct On { bool was; On() : was(g_heap_on) { g_heap_on = true; } ~On() { g_heap_on = was; } };

// ---------------------------------------------------------------- object types
struct S3 { unsigned char c[3]; };
struct S24 { long a; double b; unsigned char c[8]; };
struct S200 { unsigned char c[200]; };
template <int T> struct Ty;
template <> struct Ty<1> { typedef unsigned char type; };
template <> struct Ty<2> { typedef short type; };
template <> struct Ty<3> { typedef S3 type; };
template <> struct Ty<4> { typedef S24 type; };
template <> struct Ty<5> { typedef long double type; };
template <> struct Ty<6> { typedef S200 type; };

struct Slot { int t; size_t n; void* p; unsigned char pat; bool held; Slot() : t(0), n(0), p(0), pat(0), held(false) {} };
static size_t size_of(int t) { switch (t) { case 1: return 1; case 2: return sizeof(short); case 3: return sizeof(S3); case 4: return sizeof(S24); case 5: return sizeof(long double); default: return sizeof(S200); } }
static size_t align_of(int t) { switch (t) { case 1: return 1; case 2: return alignof(short); case 3: return alignof(S3); case 4: return alignof(S24); case 5: return alignof(long double); default: return alignof(S200); } }

template <typename T> struct With
{
    typedef nestl::allocator<T> A;
    typedef nestl::allocator_traits<A> TR_;
    static T* alloc(Err& e, size_t n, int via)
    {
        switch (via)
        {
        case 0: { A a; return a.allocate(e, n); }
        case 1: { A a; return TR_::allocate(e, a, n); }
        case 2: { nestl::allocator<S24> o; A a(o); A b(a); return b.allocate(e, n); }
        case 3: { typename nestl::detail::allocator_rebind<nestl::allocator<S3>, T>::other a; return a.allocate(e, n); }
        default: { typename nestl::allocator<char>::template rebind<T>::other a; int hint = 0; return a.allocate(e, n, &hint); }
        }
    }
    static void dealloc(T* p, size_t n, int via)
    {
        switch (via)
        {
        case 0: { A a; a.deallocate(p, n); break; }
        case 1: { A a; TR_::deallocate(a, p, n); break; }
        case 2: { nestl::allocator<S24> o; A a(o); A b(a); b.deallocate(p, n); break; }
        case 3: { typename nestl::detail::allocator_rebind<nestl::allocator<S3>, T>::other a; a.deallocate(p, n); break; }
        default: { A a; A b; b = a; b.deallocate(p, n); break; }
        }
    }
    // a number of objects no heap has room for
    static size_t huge(int k)
    {
        const size_t all = ~size_t(0), m = TR_::max_size(A());
        if (m > all / sizeof(T)) diverge("max-size", "max_size() objects of " + itos(sizeof(T)) + " bytes do not fit the address space");
        switch (k)
        {
        case 0: return all;
        case 1: return m == all ? all : m + 1;
        case 2: return sizeof(T) == 1 ? all : all / sizeof(T) + 2;                 // the byte count wraps around to a small one
        case 3: return m;
        case 5: return g_tracked ? ((size_t(1) << 32) + 64) / sizeof(T) + 1 : all; // more than this heap has; small in 32 bits
        case 6: return g_tracked ? (size_t(1) << 31) / sizeof(T) + 1 : all;
        default: return sizeof(T) == 1 ? all - 7 : all / sizeof(T) + 1 + 4096 / sizeof(T);
        }
    }
};
template <typename R, template <typename> class X, typename... A> R by_type(int t, A... a)
{
    switch (t)
    {
    case 1: return X<Ty<1>::type>::run(a...);
    case 2: return X<Ty<2>::type>::run(a...);
    case 3: return X<Ty<3>::type>::run(a...);
    case 4: return X<Ty<4>::type>::run(a...);
    case 5: return X<Ty<5>::type>::run(a...);
    default: return X<Ty<6>::type>::run(a...);
    }
}
template <typename T> struct DoAlloc { static void* run(Err* e, size_t n, int via) { return With<T>::alloc(*e, n, via); } };
template <typename T> struct DoDealloc { static int run(void* p, size_t n, int via) { With<T>::dealloc(static_cast<T*>(p), n, via); return 0; } };
template <typename T> struct DoHuge { static size_t run(int k) { return With<T>::huge(k); } };

// ---------------------------------------------------------------- owners with the default allocator
// every step is repeated when it fails; the first error seen is the result
struct Client
{
    str err;
    Client() : err("none") {}
    template <typename Fn> void step(Fn f)
    {
        for (int i = 0; i < 3; ++i)
        {
            Err e;
            f(e);
            if (!e) return;
            bool was = g_heap_on; g_heap_on = false;
            if (err == "none") err = err_kind(e); else err = "second-failure";
            g_heap_on = was;
        }
    }
    int run(int kind, int n)
    {
        typedef nestl::vector<int> VI;
        switch (kind)
        {
        case 1:
            {
                VI v;
                for (int i = 0; i < n; ++i) step([&](Err& e) { v.push_back_nothrow(e, i); });
                return same(v, n);
            }
        case 2:
            {
                nestl::vector<long double> v;
                step([&](Err& e) { v.reserve_nothrow(e, size_t(n)); });
                for (int i = 0; i < n; ++i) step([&](Err& e) { v.insert_nothrow(e, v.cend(), static_cast<long double>(i)); });
                step([&](Err& e) { v.shrink_to_fit_nothrow(e); });
                nestl::vector<long double> w;
                step([&](Err& e) { w.copy_nothrow(e, v); });
                return same(v, n) == n ? same(w, n) : -1;
            }
        case 3:
            {
                nestl::list<short> l;
                for (int i = 0; i < n; ++i) step([&](Err& e) { l.push_back_nothrow(e, short(i)); });
                nestl::list<short> m;
                step([&](Err& e) { m.copy_nothrow(e, l); });
                return same(l, n) == n ? same(m, n) : -1;
            }
        case 4:
            {
                nestl::set<int> s;
                for (int i = 0; i < n; ++i) step([&](Err& e) { s.insert_nothrow(e, i); });
                nestl::set<int> m;
                step([&](Err& e) { m.copy_nothrow(e, s); });
                return same(s, n) == n ? same(m, n) : -1;
            }
        case 5:
            {
                nestl::shared_ptr<S24> p[24]; nestl::weak_ptr<S24> w[24];
                int k = 0;
                for (int i = 0; i < n && i < 24; ++i) { step([&](Err& e) { p[i] = nestl::make_shared_nothrow<S24>(e); }); w[i] = p[i]; }
                for (int i = 0; i < n && i < 24; ++i) if (p[i] && p[i].use_count() == 1 && w[i].lock().get() == p[i].get()) ++k;
                for (int i = 0; i < n && i < 24; i += 2) p[i].reset();
                return k;
            }
        case 6:
            {
                nestl::vector<VI> v;
                for (int i = 0; i < n; ++i)
                {
                    VI x;
                    step([&](Err& e) { x.assign_nothrow(e, size_t(3), i); });
                    step([&](Err& e) { v.push_back_nothrow(e, x); });
                }
                if (int(v.size()) != n) return -1;
                for (int i = 0; i < n; ++i) if (v[size_t(i)].size() != 3 || v[size_t(i)][2] != i) return -2;
                return n;
            }
        case 7:
            {
                nestl::list<VI> l;
                for (int i = 0; i < n; ++i)
                {
                    VI x;
                    step([&](Err& e) { x.push_back_nothrow(e, i); });
                    step([&](Err& e) { l.push_back_nothrow(e, std::move(x)); if (e && x.empty()) { Err f; x.push_back_nothrow(f, i); } });
                }
                nestl::list<VI> m(std::move(l));
                int k = 0;
                for (nestl::list<VI>::iterator i = m.begin(); i != m.end(); ++i, ++k) if (i->size() != 1 || (*i)[0] != k) return -2;
                return k;
            }
        default:
            {
                nestl::set<int> s;
                int k = 0;
                for (int i = n; i > 0; --i) step([&](Err& e) { s.insert_nothrow(e, i); });
                for (int i = 1; i <= n; ++i) k += int(s.erase(i));
                for (int i = 0; i < n; ++i) step([&](Err& e) { s.insert_nothrow(e, i); });
                nestl::set<int> t(std::move(s));
                return k == n ? same(t, n) : -1;
            }
        }
    }
    template <typename C> static int same(const C& c, int n)
    {
        int k = 0;
        for (typename C::const_iterator i = c.begin(); i != c.end(); ++i, ++k) if (k >= n || int(*i) != k) return -2;
        return k;
    }
};

// ---------------------------------------------------------------- the system under test
struct AllocSys
{
    std::vector<Slot> sl;
    int heap0;
    static int g_pat;
    Slot last;                            // last allocation
    AllocSys() : heap0(g_heap_n) {}
    ~AllocSys() { teardown(); }
    static bool supports(const Op&) { return true; }
    static bool st_match(const str& a, const str& b) { return a == b; }
    static bool has_alloc_field() { return false; }
    static str contents_tag(const str&, const str&) { return "contents"; }
    void set_slots(int n) { sl.assign(size_t(n), Slot()); }
    void materialize(const str& st, int fl)
    {
        std::vector<str> p = split(st, '|');
        set_slots(int(p.size()));
        for (size_t i = 0; i < p.size(); ++i)
        {
            if (p[i].empty()) continue;
            std::vector<int> q = ints(p[i]);
            Err e;
            if (!take(sl[i], e, q[0], size_t(q[1]), fl)) diverge("spurious-error", "allocation failed while building the state");
        }
    }
    static void fill(Slot& s) { if (s.p) memset(s.p, s.pat, s.n * size_of(s.t)); }
    static bool intact(const Slot& s)
    {
        const unsigned char* c = static_cast<const unsigned char*>(s.p);
        if (!c) return s.n == 0;
        for (size_t i = 0; i < s.n * size_of(s.t); ++i) if (c[i] != s.pat) return false;
        return true;
    }
    // returns whether the call succeeded
    bool take(Slot& s, Err& e, int t, size_t n, int via)
    {
        void* p;
        { On o; Armed g; p = by_type<void*, DoAlloc>(t, &e, n, via); }
        last = Slot(); last.p = p;
        if (e) { if (p) diverge("failstate", "an address is returned together with an error"); return false; }
        s.t = t; s.n = n; s.p = p; s.held = true; s.pat = static_cast<unsigned char>(1 + (g_pat += 37) % 251);
        if (!p && n) diverge("contents", "null returned without an error");
        if (p && reinterpret_cast<uintptr_t>(p) % align_of(t)) diverge("alignment", "misaligned block");
        const HeapBlock* b = block(p);
        if (p && b && static_cast<char*>(p) + n * size_of(t) > b->p + b->n) { diverge("bounds", "block of " + itos(b->n) + " bytes for " + itos(n) + " objects of " + itos(size_of(t)) + " bytes"); s.n = 0; }
        fill(s);
        return true;
    }
    static const HeapBlock* block(const void* p)
    {
        const char* c = static_cast<const char*>(p);
        for (int i = 0; i < g_heap_n; ++i) if (c >= g_heap[i].p && c <= g_heap[i].p + g_heap[i].n && (g_heap[i].n == 0 || c < g_heap[i].p + g_heap[i].n || c == g_heap[i].p)) return &g_heap[i];
        return 0;
    }
    void drop(Slot& s, int via)
    {
        if (s.p) { On o; Armed g; by_type<int, DoDealloc>(s.t, s.p, s.n, via); }
        s = Slot();
    }
    void before() {}
    str observe()
    {
        str r;
        for (size_t i = 0; i < sl.size(); ++i)
        {
            if (i) r += "|";
            if (sl[i].held) r += intact(sl[i]) ? itos(sl[i].t) + "," + itos(sl[i].n) : str("overwritten");
        }
        return r;
    }
    str origins() { return ""; }
    bool iterators_ok(const str&) { return true; }
    int empty() const { int k = 0; for (size_t i = 0; i < sl.size(); ++i) if (sl[i].held && !sl[i].p) ++k; return k; }
    int held() const { int k = 0; for (size_t i = 0; i < sl.size(); ++i) if (sl[i].held) ++k; return k; }
    bool accounts()
    {
        if (!g_tracked || g_heap_n - heap0 == held() - empty()) return true;
        diverge("leak", "the heap has given out " + itos(g_heap_n - heap0) + " block(s) while the program holds " + itos(held() - empty()));
        return false;
    }
    void teardown()
    {
        for (size_t i = 0; i < sl.size(); ++i) if (sl[i].held) drop(sl[i], int(i % 5));
        if (g_tracked && g_heap_n != heap0) { diverge("leak", itos(g_heap_n - heap0) + " block(s) never returned to the heap"); g_heap_n = heap0; }
    }
    void apply(const Op& op, str& err, str& ret)
    {
        const str& n = op.n;
        Slot& s = sl[size_t(op.c - 1)];
        Err e;
        if (n == "alloc") take(s, e, op.x[0], size_t(op.x[1]), op.x[2]);
        else if (n == "alloc_huge")
        {
            void* p;
            size_t k = by_type<size_t, DoHuge>(op.x[0], op.x[1]);
            { On o; Armed g; p = by_type<void*, DoAlloc>(op.x[0], &e, k, op.x[2]); }
            if (p && e) diverge("failstate", "an address is returned together with an error");
            if (p && !e) by_type<int, DoDealloc>(op.x[0], p, k, 0);
            F.alloc_fired = false;
        }
        else if (n == "dealloc") drop(s, op.x[0]);
        else if (n == "rewrite") { s.pat = static_cast<unsigned char>(1 + (g_pat += 37) % 251); fill(s); }
        else if (n == "client")
        {
            Client c;
            int k;
            { On o; Armed g; k = c.run(op.x[0], op.x[1]); }
            ret = itos(k);
            err = c.err;
            return;
        }
        else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
        err = err_kind(e);
    }
};
int AllocSys::g_pat = 0;

static str pair_of(const void* p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    return "[" + itos(long(a >> 20)) + "," + itos(long(a & ((1 << 20) - 1))) + "]";
}
static void trace(uint64_t seed, long steps, int slots)
{
    Rng r(seed);
    AllocSys sys;
    sys.set_slots(slots);
    for (long i = 0; i < steps; ++i)
    {
        int c = r.below(slots);
        Slot& s = sys.sl[size_t(c)];
        Op op;
        int q = r.below(12);
        if (q < 2) op = mk("client", 1, iv(1 + r.below(8), r.below(r.below(4) ? 6 : 20)));
        else if (s.held) op = r.below(4) ? mk("dealloc", c + 1, iv(r.below(5))) : mk("rewrite", c + 1);
        else if (q == 2) op = mk("alloc_huge", c + 1, iv(1 + r.below(6), r.below(7), r.below(5)));
        else op = mk("alloc", c + 1, iv(1 + r.below(6), r.below(3) ? r.below(12) : r.below(3) ? r.below(600) : r.below(40000), r.below(5)));
        long fa = r.below(4) == 0 ? 1 + r.below(op.n == "client" ? 12 : 1) : 0;
        ++g_cases; g_op = op.n; g_fault = fa ? "alloc" : "none"; g_row = i;
        set_case("default allocator seed=" + itos(seed) + " step " + itos(i) + " " + op.txt + (fa ? "!heap" + itos(fa) : "") + " with " + sys.observe());
        F.request(fa, 0);
        str err = "none", ret;
        sys.last = Slot();
        sys.apply(op, err, ret);
        str f = F.fired(); g_fault = f; if (f != "none") ++g_fired;
        F.request(0, 0);
        const void* p = op.n == "alloc" && err == "none" ? sys.last.p : 0;
        const HeapBlock* b = p ? AllocSys::block(p) : 0;
        str bs;
        for (int k = 0; k < slots; ++k)
        {
            const Slot& t = sys.sl[size_t(k)];
            bs += (k ? "," : "") + (!t.held ? str("[]") : AllocSys::intact(t) ? "[" + itos(t.t) + "," + itos(t.n) + "]" : str("[-1,-1]"));
        }
        TR.line(jop(op) + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"lo\":" + (p ? pair_of(p) : str("[]")) +
            ",\"blo\":" + (b ? pair_of(b->p) : str("[]")) + ",\"bhi\":" + (b ? pair_of(b->p + b->n) : str("[]")) +
            ",\"sz\":" + itos(op.n == "alloc" ? size_of(op.x[0]) : 1) + ",\"al\":" + itos(op.n == "alloc" ? align_of(op.x[0]) : 1) +
            ",\"heap\":" + itos(g_tracked ? g_heap_n - sys.heap0 : -1) + ",\"empty\":" + itos(sys.empty()) + ",\"b\":[" + bs + "]}");
        if (op.n == "alloc" && err == "none" && s.held && s.n != size_t(op.x[1])) break;       // too small a block
    }
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    {   // does nestl::allocator use global operator new?
        int n = g_heap_n; Err e; nestl::allocator<int> al; int* p;
        { On o; p = al.allocate(e, 3); }
        g_tracked = g_heap_n > n;
        if (p) al.deallocate(p, 3);
    }
    str mode = a.get("mode", "exh");
    if (mode == "trace") { TR.open(a.get("trace", "")); trace(uint64_t(a.num("seed", 1)), a.num("steps", 1500), int(a.num("slots", 12))); TR.close(); finish(); }
    Table t(a.get("table", "").c_str());
    if (mode == "walk") { walks<AllocSys>(t, uint64_t(a.num("seed", 1)), a.num("steps", 20000), 60, a.get("start", "|")); finish(); }
    exhaustive<AllocSys>(t, 5, int(a.num("part", 0)), int(a.num("parts", 1)), a.num("from", 0));
    finish();
}
