// Conformance adapter for nestl::shared_ptr, weak_ptr and make_shared (contract: spec/NestlSharedPtr.tla).
#include "common.hpp"
#include <nestl/shared_ptr.hpp>

// ---------------------------------------------------------------- global operator new, as used by nestl::allocator
struct NewBlock { void* p; size_t n; long serial; };
static NewBlock g_new[256];
static int g_new_n = 0;
static long g_new_serial = 1000000;
static bool g_new_on = false;            // inside a make_shared call without allocator
static void* tracked_new(size_t n)
{
    if (!g_new_on) return malloc(n ? n : 1);
    if (F.hit_alloc()) return 0;
    void* p = malloc(n ? n : 1);
    if (p && g_new_n < 256) { memset(p, 0xA5, n); g_new[g_new_n].p = p; g_new[g_new_n].n = n; g_new[g_new_n].serial = ++g_new_serial; ++g_new_n; }
    return p;
}
static void tracked_delete(void* p)
{
    for (int i = 0; i < g_new_n; ++i) if (g_new[i].p == p) { g_new[i] = g_new[--g_new_n]; break; }
    free(p);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return tracked_new(n); }
void* operator new(size_t n)
{
    void* p = tracked_new(n);
#if NESTL_HAS_EXCEPTIONS
    if (!p) throw std::bad_alloc();
#else
    if (!p) abort();
#endif
    return p;
}
void operator delete(void* p) noexcept { tracked_delete(p); }
void operator delete(void* p, size_t) noexcept { tracked_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { tracked_delete(p); }

struct Quiet { bool was; Quiet() : was(g_new_on) { g_new_on = false; } ~Quiet() { g_new_on = was; } };   // the harness' own allocations

// ---------------------------------------------------------------- the managed type
struct Pad { long pad; Pad() NESTL_NOEXCEPT_SPEC : pad(1) {} };
struct Base { long bid; Base() NESTL_NOEXCEPT_SPEC : bid(0) {} };     // at a non-zero offset in Node
struct Node;
typedef nestl::shared_ptr<Node> SP;
typedef nestl::shared_ptr<Base> BP;
typedef nestl::weak_ptr<Node> WP;

static std::map<const void*, Node*> g_nodes;   // live objects
static std::vector<int> g_dead;                // (object, what its destructor could lock) in order of destruction
static int id_of(const Node* n);

struct alignas(16) Node : Pad, Base     // as much as operator new guarantees
{
    int val;
    SP nx;
    WP wk;
    void enter() { Quiet q; ++g_elem_copies; if (reinterpret_cast<uintptr_t>(this) % alignof(Node)) diverge("lifetime", "object constructed at a misaligned address"); if (!g_nodes.insert(std::make_pair(static_cast<const void*>(this), this)).second) diverge("lifetime", "object constructed over a live object"); mem_cell("ctor", this); }
    void leave()
    {
        Quiet q;
        mem_cell("dtor", this);
        if (!g_nodes.erase(this)) { diverge("lifetime", "destruction of an object which is not alive"); return; }
        if (bid == 0) return;                  // never handed out
        int got;
        {
            SP t = wk.lock();
            got = t ? id_of(t.get()) : 0;
            if (wk.expired() != (got == 0)) diverge("weak", "expired() disagrees with lock() in a destructor");
        }
        g_dead.push_back(int(bid)); g_dead.push_back(got);
        bid = -1;
    }
    Node(const Node&) = delete;
    Node& operator=(const Node&) = delete;
    ~Node() { leave(); }
#if ELEM_KIND == 1
    static void fail() { if (F.hit_elem()) { throw_elem(); } }
    Node() : val(0) { fail(); enter(); }
    explicit Node(int v) : val(v) { fail(); enter(); }
    Node(int v, const SP& n) : val(v) { fail(); nx = n; enter(); }
    Node(int v, SP&& n) : val(v) { fail(); nx = std::move(n); enter(); }
    Node(const Node* o) : val(0) { fail(); val = o->val; nx = o->nx; enter(); }
#else
    Node() NESTL_NOEXCEPT_SPEC : val(0) { enter(); }
#endif
};
#if ELEM_KIND != 1
namespace nestl
{
template <> struct two_phase_initializator<Node>
{
    template <typename E> static bool bad(E& err, Node& d)
    {
        Quiet q;
        if (!g_nodes.count(&d) || d.val != 0) diverge("lifetime", "two-phase init of an object which is not freshly default constructed");
        if (!F.hit_elem()) { mem_cell("init", &d); return false; }
        mem_cell("initfail", &d);
        d.val = 555; set_elem_error(err, F.serial); return true;
    }
    template <typename E> static void init(E& err, Node& d, int v) NESTL_NOEXCEPT_SPEC { if (!bad(err, d)) d.val = v; }
    template <typename E> static void init(E& err, Node& d, int v, const SP& n) NESTL_NOEXCEPT_SPEC { if (!bad(err, d)) { d.val = v; d.nx = n; } }
    template <typename E> static void init(E& err, Node& d, int v, SP&& n) NESTL_NOEXCEPT_SPEC { if (!bad(err, d)) { d.val = v; d.nx = std::move(n); } }
    template <typename E> static void init(E& err, Node& d, const Node* o) NESTL_NOEXCEPT_SPEC { if (!bad(err, d)) { d.val = o->val; d.nx = o->nx; } }
};
}
#endif
static int id_of(const Node* n)
{
    if (!n) return 0;
    if (!g_nodes.count(n)) return -9;          // dangling
    return int(n->bid);
}
static const void* block_key(const Node* n, long& serial, bool& isnew, int& owner)
{
    for (int i = 0; i < g_new_n; ++i)
        if (reinterpret_cast<uintptr_t>(n) >= reinterpret_cast<uintptr_t>(g_new[i].p) && reinterpret_cast<uintptr_t>(n) < reinterpret_cast<uintptr_t>(g_new[i].p) + g_new[i].n) { serial = g_new[i].serial; isnew = true; owner = 0; return g_new[i].p; }
    const std::pair<const uintptr_t, Block>* b = block_of(n);
    if (!b) return 0;
    serial = b->second.serial; isnew = false; owner = b->second.owner;
    return reinterpret_cast<const void*>(b->first);
}

static int g_N = 2, g_NS = 2, g_NW = 1;
static bool g_default_tracked = true;          // nestl::allocator goes through global operator new

struct PtrSys
{
    struct Info { Node* n; const void* blk; long serial; bool isnew; int val; };
    std::vector<Info> obj;                     // by id - 1; n != 0: was created, may be dead
    std::vector<SP*> s; BP* b; std::vector<WP*> w;
    bool up;
    PtrSys() : b(0), up(false) {}
    ~PtrSys() { teardown(); }
    static bool has_alloc_field() { return false; }
    static bool supports(const Op& op) { return op.c != 0 || g_default_tracked; }
    static bool st_match(const str& want, const str& now)
    {
        if (want == now) return true;
        std::vector<str> a = split(want, '|'), b = split(now, '|');
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i)
        {
            if (a[i] == b[i]) continue;
            std::vector<str> x = split(a[i], ','), y = split(b[i], ',');
            if (x.size() != y.size()) return false;
            for (size_t j = 0; j < x.size(); ++j)
                if (x[j] != y[j] && !(y[j] == "?" && (x[j] == "0" || x[j][0] == '-'))) return false;   // '?': expired
        }
        return true;
    }
    // only what concerns observers and blocks differs
    static str contents_tag(const str& want, const str& now)
    {
        std::vector<str> a = split(want, '|'), b = split(now, '|');
        if (a.size() != 8 || b.size() != 8) return "contents";
        return a[0] == b[0] && a[1] == b[1] && a[3] == b[3] && a[5] == b[5] && a[7] == b[7] ? "weak" : "contents";
    }
    void teardown()
    {
        if (!up) return;
        for (size_t i = 0; i < s.size(); ++i) { s[i]->reset(); }
        b->reset();
        for (size_t i = 0; i < w.size(); ++i) w[i]->reset();
        // cycles are the program's own: break them
        for (int guard = 0; !g_nodes.empty() && guard < 100; ++guard)
        {
            Node* n = g_nodes.begin()->second;
            for (std::map<const void*, Node*>::iterator i = g_nodes.begin(); i != g_nodes.end(); ++i) if (i->second->nx) { n = i->second; break; }
            SP t; t.swap(n->nx);
        }
        for (size_t i = 0; i < s.size(); ++i) delete s[i];
        delete b;
        for (size_t i = 0; i < w.size(); ++i) delete w[i];
        s.clear(); w.clear(); b = 0; up = false;
        if (!g_nodes.empty()) { diverge("lifetime", itos(g_nodes.size()) + " object(s) never destroyed"); g_nodes.clear(); }
        if (g_new_n) { diverge("leak", itos(g_new_n) + " block(s) never returned to operator delete"); g_new_n = 0; }
        g_dead.clear();
    }
    bool in_use(int id)
    {
        const Info& o = obj[id - 1];
        if (!o.blk) return false;
        if (o.isnew) { for (int i = 0; i < g_new_n; ++i) if (g_new[i].p == o.blk && g_new[i].serial == o.serial) return true; return false; }
        std::map<uintptr_t, Block>::iterator it = g_blocks.find(reinterpret_cast<uintptr_t>(o.blk));
        return it != g_blocks.end() && it->second.serial == o.serial;
    }
    int free_id() { for (int i = 1; i <= g_N; ++i) if (!in_use(i)) return i; return 0; }
    void name(SP& p, int id, int al, int val)  // gives a fresh object its number
    {
        Info o; o.n = p.get(); o.val = val; o.blk = 0; o.serial = 0; o.isnew = false;
        int owner = -1;
        o.blk = block_key(o.n, o.serial, o.isnew, owner);
        if (!o.blk) diverge("allocator", "the object does not lie in memory of the given allocator");
        else if (owner != al) diverge("allocator", "allocated from allocator " + itos(owner) + " instead of " + itos(al));
        obj[id - 1] = o;
        o.n->bid = id;
    }
    void materialize(const str& st, int)
    {
        teardown();
        std::vector<str> p = split(st, '|');
        std::vector<int> ss = ints(p[0]), ww = ints(p[2]), nx = ints(p[3]), wk = ints(p[4]);
        int bb = atoi(p[1].c_str());
        obj.assign(size_t(g_N), Info());
        for (size_t i = 0; i < ss.size(); ++i) s.push_back(new SP());
        b = new BP();
        for (size_t i = 0; i < ww.size(); ++i) w.push_back(new WP());
        up = true;
        std::vector<SP> tmp(size_t(g_N) + 1);
        std::vector<int> blk = ints(p[6]);
        for (int i = 1; i <= g_N; ++i)
            if (blk[i - 1])
            {
                Err e; TrackAlloc<Node> a(1 + i % 2);
                tmp[i] = nestl::make_shared_a_nothrow<Node>(e, a, 500 + i);
                if (e || !tmp[i]) { diverge("spurious-error", "make_shared failed while building the initial state"); obj[i - 1] = Info(); continue; }
                name(tmp[i], i, 1 + i % 2, 500 + i);
            }
        for (int i = 1; i <= g_N; ++i)
        {
            if (nx[i - 1]) tmp[i]->nx = tmp[nx[i - 1]];
            if (wk[i - 1]) tmp[i]->wk = tmp[std::abs(wk[i - 1])];
        }
        for (size_t i = 0; i < ss.size(); ++i) if (ss[i]) *s[i] = tmp[ss[i]];
        if (bb) *b = tmp[bb];
        for (size_t i = 0; i < ww.size(); ++i) if (ww[i]) *w[i] = tmp[std::abs(ww[i])];
        for (int i = 1; i <= g_N; ++i) tmp[i].reset();
        g_dead.clear();
    }
    void before() { g_dead.clear(); }
    str origins() { return ""; }
    bool iterators_ok(const str&) { return true; }
    bool accounts() { return true; }

    // observation -----------------------------------------------------------------
    std::map<int, long> uc; str bad;
    template <typename P> int see(const P& p, const Node* n)
    {
        long u = p.use_count();
        int id = id_of(n);
        if ((p.get() != 0) != static_cast<bool>(p)) bad = "bool disagrees with get()";
        if (p.unique() != (u == 1)) bad = "unique() disagrees with use_count()";
        if (id == -9) { bad = "a shared_ptr points to an object which is not alive"; return id; }
        if (id == 0) { if (u != 0) bad = "an empty pointer reports owners"; return 0; }
        if (!uc.insert(std::make_pair(id, u)).second && uc[id] != u) bad = "owners of one object report different use_count";
        if (&*p != p.get() || p.operator->() != p.get()) bad = "dereference disagrees with get()";
        return id;
    }
    str seew(WP& q)
    {
        long u = q.use_count();
        bool ex = q.expired();
        if (ex != (u == 0)) bad = "expired() disagrees with use_count()";
        int id;
        {
            SP t = q.lock();
            id = id_of(t.get());
            if (id == -9) { bad = "lock() yields a dead object"; return "-99"; }
            if (static_cast<bool>(t) == ex) bad = "lock() disagrees with expired()";
            if (t && t.use_count() != u + 1) bad = "lock() did not add one owner";
        }
        if (q.use_count() != u) bad = "a temporary owner changed use_count";
        if (id && uc.count(id) && uc[id] != u) bad = "observer and owner report different use_count";
        return id ? itos(id) : str("?");
    }
    str observe()
    {
        std::vector<int> dead = g_dead;
        uc.clear(); bad.clear();
        str r; std::vector<int> v;
        for (size_t i = 0; i < s.size(); ++i) v.push_back(see(*s[i], s[i]->get()));
        r = join(v) + "|";
        {
            int id = 0;
            if (Base* p = b->get())
            {
                const Node* n = 0;
                for (std::map<const void*, Node*>::iterator i = g_nodes.begin(); i != g_nodes.end(); ++i) if (static_cast<Base*>(i->second) == p) n = i->second;
                if (!n) { bad = "the base pointer does not point to a live object"; id = -9; } else id = see(*b, n);
            }
            else id = see(*b, 0);
            r += itos(id) + "|";
        }
        std::map<int, Node*> byid;
        for (std::map<const void*, Node*>::iterator i = g_nodes.begin(); i != g_nodes.end(); ++i)
        {
            int id = int(i->second->bid);
            if (id < 1 || id > g_N || byid.count(id)) { bad = "an unexpected object is alive"; continue; }
            byid[id] = i->second;
            if (i->second->val != obj[id - 1].val) bad = "the value of an object changed";
        }
        str w1, nx1, wk1, live, blk, uc1;
        for (int o = 1; o <= g_N; ++o)
        {
            const char* c = o == 1 ? "" : ",";
            Node* n = byid.count(o) ? byid[o] : 0;
            nx1 += c + itos(n ? see(n->nx, n->nx.get()) : 0);
            live += c + str(n ? "1" : "0");
            blk += c + str(in_use(o) ? "1" : "0");
        }
        for (int o = 1; o <= g_N; ++o) { Node* n = byid.count(o) ? byid[o] : 0; wk1 += (o == 1 ? "" : ",") + (n ? seew(n->wk) : str("0")); }
        for (size_t i = 0; i < w.size(); ++i) w1 += (i ? "," : "") + seew(*w[i]);
        for (int o = 1; o <= g_N; ++o) uc1 += (o == 1 ? "" : ",") + itos(uc.count(o) ? uc[o] : 0);
        if (!bad.empty()) diverge(bad.find("lock") != str::npos || bad.find("expired") != str::npos || bad.find("observer") != str::npos ? "weak" : "contents", "inconsistent observers: " + bad);
        if (g_dead != dead) diverge("lifetime", "looking at the pointers destroyed an object");
        long known = 0;
        for (int o = 1; o <= g_N; ++o) if (in_use(o)) ++known;
        long total = long(g_blocks.size()) + g_new_n;
        if (total != known) diverge("leak", itos(total) + " blocks allocated while only " + itos(known) + " belong to objects");
        return r + w1 + "|" + nx1 + "|" + wk1 + "|" + live + "|" + blk + "|" + uc1;
    }
    // places ------------------------------------------------------------------------
    SP& sp(int p) { if (p > 50) return obj[p - 51].n->nx; return p < 10 ? *s[p - 1] : (*s[p % 10 - 1])->nx; }
    WP& wp(int p) { return p < 30 ? *w[p % 10 - 1] : (*s[p % 10 - 1])->wk; }
    static bool shared(int p) { int k = p / 10; return k == 0 || k == 1 || k == 3 || k == 5; }

    template <typename A> SP make(const str& n, Err& e, A& a, int val, SP* src)
    {
        if (n == "make0") return nestl::make_shared_a_nothrow<Node>(e, a);
        if (n == "make1") return nestl::make_shared_a_nothrow<Node>(e, a, val);
        if (n == "make_nx") return nestl::make_shared_a_nothrow<Node>(e, a, val, static_cast<const SP&>(*src));
        if (n == "make_nxmv") return nestl::make_shared_a_nothrow<Node>(e, a, val, std::move(*src));
        return nestl::make_shared_a_nothrow<Node>(e, a, static_cast<const Node*>(src->get()));
    }
    SP make0(const str& n, Err& e, int val, SP* src)
    {
        struct On { On() { g_new_on = true; } ~On() { g_new_on = false; } } on;
        if (n == "make0") return nestl::make_shared_nothrow<Node>(e);
        if (n == "make1") return nestl::make_shared_nothrow<Node>(e, val);
        if (n == "make_nx") return nestl::make_shared_nothrow<Node>(e, val, static_cast<const SP&>(*src));
        if (n == "make_nxmv") return nestl::make_shared_nothrow<Node>(e, val, std::move(*src));
        return nestl::make_shared_nothrow<Node>(e, static_cast<const Node*>(src->get()));
    }
    void apply(const Op& op, str& err, str& ret)
    {
        const str& n = op.n;
        const int d = op.x[0], q = op.x[1];
        Armed g;
        str pre;
        if (n.compare(0, 4, "make") == 0)
        {
            SP* src = n == "make0" || n == "make1" ? 0 : &sp(q);
            int id = free_id();
            int val = n == "make0" ? 0 : 1000 + id;
            if (n == "make_copy") val = obj[id_of(src->get()) - 1].val;
            Err e;
            SP* dst = d == 10 ? 0 : &sp(d);        // the source may be the slot the destination is reached through
            long a0 = F.n_alloc;
            {
                SP t;
                if (op.c == 0) { SP u = make0(n, e, val, src); t.swap(u); }
                else { TrackAlloc<Node> a(op.c); SP u = make(n, e, a, val, src); t.swap(u); }
                pre = itos(F.n_alloc - a0);
                err = err_kind(e);
                if (err != "none")
                {
                    if (t || t.get() || t.use_count()) diverge("failstate", "make_shared failed but returned a pointer");
                    F.disarm();
                    return;
                }
                if (!t || !t.get()) { diverge("contents", "make_shared reported success and returned an empty pointer"); F.disarm(); return; }
                if (t.use_count() != 1) diverge("contents", "make_shared returned a pointer which is not the sole owner");
                name(t, id, op.c, val);
                F.disarm();
                if (d == 10) *b = std::move(t); else *dst = std::move(t);
            }
        }
        else if (n == "copy") { if (d == 10) { if (q == 10) { BP& z = *b; *b = z; } else *b = sp(q); } else { const SP& z = sp(q); sp(d) = z; } }
        else if (n == "move") { if (d == 10) { if (q == 10) { BP& z = *b; *b = std::move(z); } else *b = std::move(sp(q)); } else { SP& z = sp(q); sp(d) = std::move(z); } }
        else if (n == "cctor") { if (d == 10) { b->~BP(); ::new(static_cast<void*>(b)) BP(sp(q)); } else { s[d - 1]->~SP(); ::new(static_cast<void*>(s[d - 1])) SP(static_cast<const SP&>(sp(q))); } }
        else if (n == "mctor") { s[d - 1]->~SP(); ::new(static_cast<void*>(s[d - 1])) SP(std::move(sp(q))); }
        else if (n == "swap") { if (d == 10) { BP& z = *b; b->swap(z); } else { SP& z = sp(q); sp(d).swap(z); } }
        else if (n == "reset") { if (d == 10) b->reset(); else sp(d).reset(); }
        else if (n == "null") { if (d == 10) *b = nullptr; else sp(d) = nullptr; }
        else if (n == "nctor") { if (d == 10) { b->~BP(); ::new(static_cast<void*>(b)) BP(nullptr); } else { s[d - 1]->~SP(); if (d % 2) ::new(static_cast<void*>(s[d - 1])) SP(); else ::new(static_cast<void*>(s[d - 1])) SP(nullptr); } }
        else if (n == "wcopy") { if (shared(q)) { SP& z = sp(q); wp(d) = z; } else { const WP& z = wp(q); wp(d) = z; } }
        else if (n == "wmove") { WP& z = wp(q); wp(d) = std::move(z); }
        else if (n == "wcctor") { WP* m = w[d % 10 - 1]; m->~WP(); if (shared(q)) ::new(static_cast<void*>(m)) WP(sp(q)); else ::new(static_cast<void*>(m)) WP(static_cast<const WP&>(wp(q))); }
        else if (n == "wmctor") { WP* m = w[d % 10 - 1]; m->~WP(); ::new(static_cast<void*>(m)) WP(std::move(wp(q))); }
        else if (n == "wreset") wp(d).reset();
        else if (n == "wnctor") { WP* m = w[d % 10 - 1]; m->~WP(); ::new(static_cast<void*>(m)) WP(); }
        else if (n == "lock") { if (d == 10) *b = wp(q).lock(); else { WP& z = wp(q); SP& t = sp(d); t = z.lock(); } }
        else if (n == "lock_ctor") { SP t(wp(q).lock()); sp(d).swap(t); }
        else if (n == "tmp_copies")
        {
            SP& z = sp(d);
            { F.disarm(); std::vector<SP> c; c.reserve(size_t(q)); F.arm();
              for (int i = 0; i < q; ++i) { if (i % 3 == 0) { c.push_back(z); } else { c.push_back(SP()); if (i % 3 == 1) c.back() = z; else { SP t(z); c.back() = std::move(t); } } }
              pre = itos(z.use_count()); }
            pre += "," + itos(z.use_count());
        }
        else if (n == "tmp_weaks")
        {
            long u;
            { F.disarm(); std::vector<WP> c; c.reserve(size_t(q)); F.arm();
              for (int i = 0; i < q; ++i)
              {
                  if (i % 3 == 0 || c.empty()) { if (shared(d)) c.push_back(WP(sp(d))); else c.push_back(WP(static_cast<const WP&>(wp(d)))); }
                  else { c.push_back(WP()); if (i % 3 == 1) c.back() = c[size_t(i) - 1]; else { WP t(c[size_t(i) / 2]); c.back() = std::move(t); } }
              }
              u = shared(d) ? sp(d).use_count() : wp(d).use_count();
              for (int i = 0; i < q; ++i) if (c[size_t(i)].use_count() != u) { diverge("weak", "one of many observers disagrees"); break; } }
            pre = itos(u) + "," + itos(shared(d) ? sp(d).use_count() : wp(d).use_count());
        }
        else if (n == "const_copy")
        {
            SP& z = sp(d);
            nestl::shared_ptr<const Node> c(z), e;
            e = c; e.reset(); e = c; e = nullptr; e.swap(c); c = e; e = z; e.reset();
            if (c.get() != z.get()) diverge("contents", "a pointer to const differs from its source");
            pre = itos(c.use_count());
        }
        else if (n == "tmp_weak")
        {
            WP x, y;
            if (shared(d)) { WP t(sp(d)); x = t; y = sp(d); } else { WP t(wp(d)); x = std::move(t); y = wp(d); }
            { WP t(x); WP u(std::move(t)); y = u; x = std::move(u); if (u.use_count() || !u.expired() || t.use_count()) diverge("weak", "a moved-from weak_ptr is not empty"); }
            if (x.use_count() != y.use_count()) diverge("weak", "two observers of one object disagree");
            pre = itos(x.use_count());
        }
        else if (n == "tmp_lock") { SP t(wp(d).lock()); SP u; u = wp(d).lock(); u.reset(); pre = itos(id_of(t.get())) + "," + itos(t.use_count()); }
        else if (n == "base_lock")
        {
            nestl::weak_ptr<Base> v(*b); BP t(std::move(*b)), u(t);
            if (b->get() || *b) diverge("contents", "a moved-from pointer is not empty");
            *b = v.lock(); v = *b; nestl::weak_ptr<Base> x; x = v; v.reset(); t.reset(); u = x.lock(); u = nullptr;
            pre = itos(b->get() ? b->get()->bid : 0);
        }
        else if (n == "self_swap") { SP& z = sp(d); z.swap(z); }
        else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
        ret = pre;
        if (!g_dead.empty()) ret += (ret.empty() ? "" : ",") + join(g_dead);
    }
    // preconditions (as NestlSharedPtr!Pre)
    bool alive(int o) { for (std::map<const void*, Node*>::iterator i = g_nodes.begin(); i != g_nodes.end(); ++i) if (i->second->bid == o && i->second == obj[o - 1].n) return true; return false; }
    bool defined(int p) { if (p > 50) return alive(p - 50); return p < 30 || s[p % 10 - 1]->get() != 0; }
    const void* loc(int p) { return p == 10 ? static_cast<const void*>(b) : shared(p) ? static_cast<const void*>(&sp(p)) : static_cast<const void*>(&wp(p)); }
    bool allowed(const Op& op)
    {
        const str& n = op.n; int d = op.x[0], q = op.x[1], kd = d / 10, kq = q / 10;
        bool one = n == "reset" || n == "null" || n == "nctor" || n == "wreset" || n == "wnctor" || n == "make0" || n == "make1" || n == "tmp_copies" || n == "tmp_weaks" || n == "const_copy" || n == "tmp_weak" || n == "tmp_lock" || n == "base_lock" || n == "self_swap";
        if (!defined(d) || (!one && !defined(q))) return false;
        bool same = (kd == 0 || kd == 3 || kd == 5) && (kq == 0 || kq == 3 || kq == 5);
        bool apart = false;
        if (!one)
        {
            apart = loc(d) != loc(q);
            if (kq == 3 || kq == 4)
            {
                if (kd == 0 && d == q % 10) apart = false;
                bool other = false;
                for (int i = 1; i <= int(s.size()); ++i) if (!(kd == 0 && d == i) && s[i - 1]->get() == s[q % 10 - 1]->get()) other = true;
                apart = apart && other;
            }
        }
        if (n == "copy" || n == "move") return shared(d) && shared(q) && (kq != 1 || kd == 1);
        if (n == "cctor") return kq != 5 && (kd == 0 || kd == 1) && shared(q) && (kq != 1 || kd == 1) && apart;
        if (n == "mctor") return kq != 5 && kd == 0 && same && apart;
        if (n == "swap") return same || (d == 10 && q == 10);
        if (n == "reset" || n == "null") return shared(d);
        if (n == "nctor") return kd == 0 || kd == 1;
        if (n == "wcopy") return !shared(d) && kq != 1;
        if (n == "wmove") return !shared(d) && !shared(q);
        if (n == "wcctor") return kd == 2 && kq != 1 && loc(d) != loc(q);
        if (n == "wmctor") return kd == 2 && !shared(q) && loc(d) != loc(q);
        if (n == "wreset") return !shared(d);
        if (n == "wnctor") return kd == 2;
        if (n == "lock") return shared(d) && !shared(q);
        if (n == "lock_ctor") return kd == 0 && !shared(q) && apart;
        if (n.compare(0, 4, "make") == 0 && !free_id()) return false;
        if (n == "make0" || n == "make1") return shared(d);
        if (n == "make_nx" || n == "make_nxmv") return shared(d) && (kq == 0 || kq == 3);
        if (n == "make_copy") return shared(d) && (kq == 0 || kq == 3) && sp(q).get() != 0;
        if (n == "tmp_copies" || n == "const_copy" || n == "self_swap") return kd == 0 || kd == 3;
        if (n == "tmp_weak" || n == "tmp_weaks") return kd != 1;
        if (n == "tmp_lock") return !shared(d);
        if (n == "base_lock") return d == 10;
        return false;
    }
};

static str bracket(const str& s) { str r = s; for (size_t i = 0; i < r.size(); ++i) if (r[i] == '?') r.replace(i, 1, "-1"); return "[" + r + "]"; }

static void trace(uint64_t seed, long steps)
{
    Rng r(seed);
    static const char* names[] = { "copy", "copy", "cctor", "move", "move", "mctor", "swap", "reset", "null", "nctor", "wcopy", "wcopy", "wcctor", "wmove", "wmctor", "wreset", "wnctor",
                                   "lock", "lock", "lock_ctor", "make0", "make1", "make1", "make1", "make_nx", "make_nx", "make_nxmv", "make_copy", "tmp_copies", "tmp_weaks", "const_copy", "tmp_weak", "tmp_lock", "base_lock", "self_swap" };
    const int nn = sizeof names / sizeof *names;
    long done = 0;
    std::vector<int> places;
    for (int i = 1; i <= g_NS; ++i) { places.push_back(i); places.push_back(i); places.push_back(30 + i); places.push_back(40 + i); }
    places.push_back(10);
    for (int i = 1; i <= g_NW; ++i) { places.push_back(20 + i); places.push_back(20 + i); }
    for (int i = 1; i <= g_N; ++i) places.push_back(50 + i);
    while (done < steps)
    {
        {
            PtrSys sys;
            str z1, z2, z3;
            for (int i = 0; i < g_NS; ++i) z1 += i ? ",0" : "0";
            for (int i = 0; i < g_NW; ++i) z2 += i ? ",0" : "0";
            for (int i = 0; i < g_N; ++i) z3 += i ? ",0" : "0";
            sys.materialize(z1 + "|0|" + z2 + "|" + z3 + "|" + z3 + "|" + z3 + "|" + z3 + "|" + z3, 0);
            g_op = "fresh"; set_case("fresh pointers");
            TR.line("{\"n\":\"fresh\",\"c\":" + itos(g_N) + ",\"x\":[" + itos(g_NS) + "," + itos(g_NW) + "],\"s\":[],\"f\":\"none\"}");
            str hist;
            for (int i = 0; i < 200 && done < steps; ++i)
            {
                str n = names[r.below(nn)];
                int d = places[r.below(int(places.size()))], q = places[r.below(int(places.size()))];
                if (n == "base_lock") d = 10;
                int c = 1;
                if (n.compare(0, 4, "make") == 0) c = r.below(3);
                if (n == "tmp_copies" || n == "tmp_weaks") q = r.below(40) == 0 ? 70000 : r.below(300);
                Op op = mk(n, c, iv(d, q));
                if (!wanted<PtrSys>(op) || !sys.allowed(op)) continue;
                ++done; ++g_cases;
                long fa = 0, fe = 0;
                if (n.compare(0, 4, "make") == 0) { int k = r.below(6); if (k == 0) fa = 1; else if (k == 1) fe = 1; }
                hist += " " + op.txt + (fa ? "!alloc" : "") + (fe ? "!elem" : "");
                if (hist.size() > 8000) hist = "..." + hist.substr(hist.size() - 6000);
                g_op = n; g_fault = fa ? "alloc" : fe ? "elem" : "none"; g_row = done;
                set_case("trace seed=" + itos(seed) + ":" + hist);
                F.request(fa, fe);
                sys.before();
                str err = "none", ret;
                long made = g_elem_copies;
                long d0 = g_divs;
                sys.apply(op, err, ret);
                made = g_elem_copies - made;
                str f = F.fired(); g_fault = f;
                if (f != "none") { ++g_fired; ret = ""; }
                long na = F.n_alloc;
                F.request(0, 0);
                if (g_mem) for (size_t k = 0; k < sys.s.size(); ++k) if (*sys.s[k]) mem_cell("use", sys.s[k]->get());     // whatever has an owner is there
                str now = sys.observe();
                std::vector<str> p = split(now, '|');
                TR.line(jop(op) + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"os\":[" + p[0] + "],\"ob\":" + p[1] + ",\"ow\":" + bracket(p[2]) + ",\"onx\":[" + p[3] + "],\"owk\":" + bracket(p[4]) +
                        ",\"live\":[" + p[5] + "],\"blk\":[" + p[6] + "],\"uc\":[" + p[7] + "],\"na\":" + itos(na) + ",\"made\":" + itos(made) + "}");
                if (g_divs != d0) break;
            }
            F.request(0, 0);
            g_op = "teardown";
        }
        globals_clean("after the pointers were destroyed");
    }
}

// a managed type with stricter alignment than any fundamental type, from an allocator which honours it
struct alignas(64) Wide { int v; explicit Wide(int x) NESTL_NOEXCEPT_SPEC : v(x) {} ~Wide() { v = -1; } };
static void wide()
{
    set_case("managed objects of alignment 64"); g_op = "make1";
    std::vector<nestl::shared_ptr<Wide> > kept;
    for (int i = 0; i < 24; ++i)
    {
        TrackAlloc<Wide> al(1); Err e;
        nestl::shared_ptr<Wide> p = nestl::make_shared_a_nothrow<Wide>(e, al, i);
        if (e) { diverge("spurious-error", "make_shared failed"); return; }
        if (reinterpret_cast<uintptr_t>(p.get()) % 64) { diverge("lifetime", "object constructed at a misaligned address"); return; }
        if (p->v != i) diverge("contents", "the object does not hold the value it was made from");
        kept.push_back(p);
    }
    kept.clear();
    globals_clean("after the pointers were destroyed");
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    str mode = a.get("mode", "exh");
    g_N = int(a.num("N", 2)); g_NS = int(a.num("NS", 2)); g_NW = int(a.num("NW", 1));
    {   // does nestl::allocator use global operator new?
        nestl::allocator<int> al; Err e; g_new_on = true; int* p = al.allocate(e, 3); g_new_on = false;
        g_default_tracked = g_new_n == 1;
        if (p) al.deallocate(p, 3);
        g_new_n = 0;
    }
    if (mode == "trace" && !a.num("mem", 0)) wide();
    if (mode == "trace") { TR.open(a.get("trace", "")); trace(uint64_t(a.num("seed", 1)), a.num("steps", 1500)); TR.close(); finish(); }
    Table t(a.get("table", "").c_str());
    if (mode == "exh") exhaustive<PtrSys>(t, 1, int(a.num("part", 0)), int(a.num("parts", 1)), a.num("from", 0));
    else if (mode == "walk") walks<PtrSys>(t, uint64_t(a.num("seed", 1)), a.num("steps", 20000), int(a.num("len", 60)), a.get("start", ""));
    finish();
}
