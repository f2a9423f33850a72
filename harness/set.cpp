// Conformance adapter for nestl::set (contract: spec/NestlSet.tla, design model: spec/RbTree.tla).
#include "common.hpp"
#include <nestl/set.hpp>

// stateful comparator; reports which stored keys it was shown
static bool g_count = false;
static std::vector<const Elem*> g_seen;
static int g_used_dir = -1;
static bool g_copying = false;          // copy_nothrow: the comparator is copied too, which may fail like an element
struct Cmp
{
    int dir;
#if CMP_FAIL
    Cmp(const Cmp& o) NESTL_NOEXCEPT_SPEC : dir(o.dir) {}
    Cmp& operator=(const Cmp& o) { if (g_copying && F.hit_elem()) throw_elem(); dir = o.dir; return *this; }
#endif
    Cmp() NESTL_NOEXCEPT_SPEC : dir(0) {}
    explicit Cmp(int d) NESTL_NOEXCEPT_SPEC : dir(d) {}
    bool operator()(const Elem& a, const Elem& b) const
    {
        use_live(&a, "comparison"); use_live(&b, "comparison");
        g_used_dir = dir;
        if (g_count) { g_seen.push_back(&a); g_seen.push_back(&b); }
        int x = a.v / 10, y = b.v / 10;
        return dir == 0 ? x < y : y < x;
    }
};
typedef TrackAlloc<Elem> Alloc;
typedef nestl::set<Elem, Cmp, Alloc> S;

// number of distinct stored keys compared since the last start
struct Visits
{
    Visits() { g_seen.clear(); g_count = true; }
    ~Visits() { g_count = false; }
    int stop(const Elem* probe)
    {
        g_count = false;
        std::sort(g_seen.begin(), g_seen.end());
        g_seen.erase(std::unique(g_seen.begin(), g_seen.end()), g_seen.end());
        int n = 0;
        for (size_t i = 0; i < g_seen.size(); ++i) if (g_seen[i] != probe) ++n;
        return n;
    }
};

struct SetSys
{
    typename std::aligned_storage<sizeof(S), alignof(S)>::type mem[2];
    bool alive[2];
    int vis;                              // distinct stored keys compared by the last lookup, -1: not a lookup
    S& s(int c) { return *reinterpret_cast<S*>(&mem[c - 1]); }
    SetSys() : vis(-1) { alive[0] = alive[1] = false; }
    ~SetSys() { teardown(); }
    void teardown() { saved.clear(); for (int c = 1; c <= 2; ++c) kill(c); }
    void kill(int c) { if (alive[c - 1]) { s(c).~S(); alive[c - 1] = false; } }
    void make(int c, int dir, int al) { Alloc a(al); Cmp k(dir); ::new(&mem[c - 1]) S(k, a); alive[c - 1] = true; }

    static bool has_alloc_field() { return true; }
    // the comparator of an empty set is not observable: '?' matches either
    static bool st_match(const str& want, const str& now)
    {
        if (want == now) return true;
        if (want.size() != now.size()) return false;
        for (size_t i = 0; i < now.size(); ++i) if (now[i] != '?' && now[i] != want[i]) return false;
        return true;
    }
    static bool supports(const Op& op)
    {
#ifdef MIN_ALLOC
        if (op.n == "move_assign" || op.n == "move_self" || op.n == "t_move_noexcept") return false;   // only for allocators which propagate on move assignment
#endif
#if ELEM_KIND == 3
        if (op.n == "insert_mv") return false;
#endif
        return true;
    }
    void materialize(const str& st, int flavor)
    {
        teardown();
        std::vector<str> p = split(st, '|');
        std::vector<int> dir = ints(p[2]), al = ints(p[3]);
        for (int c = 1; c <= 2; ++c)
        {
            std::vector<int> q = ints(p[c - 1]);
            if (flavor == 1) std::reverse(q.begin(), q.end());
            if (flavor == 2) std::rotate(q.begin(), q.begin() + q.size() / 2, q.end());
            make(c, dir[c - 1], al[c - 1]);
            Err e;
            for (size_t i = 0; i < q.size() && !e; ++i) { Tmp t(q[i]); s(c).insert_nothrow(e, static_cast<const Elem&>(t.e)); }
            if (e) diverge("spurious-error", "error while building the initial state: " + err_kind(e));
        }
    }
    struct Saved { int id; S::iterator it; S::const_iterator cit; };
    std::map<const Elem*, Saved> saved;
    void before()
    {
        saved.clear();
        for (int c = 1; c <= 2; ++c)
        {
            size_t k = 0, n = s(c).size();
            for (S::iterator i = s(c).begin(); i != s(c).end() && k < n; ++i) { Saved x; x.id = 100 * c + int(++k); x.it = i; x.cit = i; saved[&*i] = x; }
        }
    }
    str origins()
    {
        str r;
        for (int c = 1; c <= 2; ++c)
        {
            std::vector<int> o; size_t n = s(c).size();
            for (S::iterator i = s(c).begin(); i != s(c).end() && o.size() <= n; ++i)
            {
                std::map<const Elem*, Saved>::iterator f = saved.find(&*i);
                o.push_back(f == saved.end() ? 0 : f->second.id);
            }
            r += (c == 2 ? ";" : "") + join(o);
        }
        return r;
    }
    bool iterators_ok(const str& org)
    {
        std::vector<str> p = split(org, ';');
        for (int c = 1; c <= 2; ++c)
        {
            if (org == "*" || p[c - 1] == "*") continue;
            for (S::iterator i = s(c).begin(); i != s(c).end(); ++i)
            {
                std::map<const Elem*, Saved>::iterator f = saved.find(&*i);
                if (f == saved.end()) continue;
                Saved& x = f->second;
                S::iterator j = x.it, k = i; ++j; ++k;
                S::const_iterator cj = x.cit; cj++;
                bool ok = x.it == i && &*x.it == &*i && x.it.operator->() == &*i && j == k && &*x.cit == &*i && cj == S::const_iterator(k);
                if (i != s(c).begin())
                {
                    S::iterator a = x.it, b = i; a--; --b; ok = ok && a == b;
                    S::const_iterator ca = x.cit, cb = i; --ca; cb--; ok = ok && ca == cb;
                }
                if (!ok) { diverge("address", "an iterator taken before the call no longer designates its key"); return false; }
            }
        }
        return true;
    }
    static str seq(S& x, str& bad)
    {
        const S& cx = x;
        std::vector<int> a;
        size_t n = x.size();
        if (n > 1000000) { bad = "size() is " + itos((long long)n); return "?"; }
        if (x.empty() != (n == 0)) bad = "empty() disagrees with size()";
        for (S::iterator i = x.begin(); i != x.end(); ++i) { use_live(&*i, "access"); a.push_back(i->v); if (a.size() > n + 5) break; }
        if (a.size() != n) { bad = "iteration length disagrees with size()"; return join(a); }
        if (!walk_all(x.begin(), x.end(), a, show)) bad = "iteration differs";
        if (!walk_all(cx.begin(), cx.end(), a, show)) bad = "const iteration differs";
        if (!walk_all(cx.cbegin(), cx.cend(), a, show)) bad = "cbegin iteration differs";
        {
            std::vector<int> z(a.rbegin(), a.rend());
            if (!walk_all(x.rbegin(), x.rend(), z, show)) bad = "reverse iteration differs";
            if (!walk_all(cx.rbegin(), cx.rend(), z, show)) bad = "const reverse iteration differs";
            if (!walk_all(cx.crbegin(), cx.crend(), z, show)) bad = "crbegin iteration differs";
        }
        {   // an iterator converts to a const_iterator for the same element
            S::iterator p = x.begin(); S::const_iterator q = cx.begin(), r(p); 
            for (size_t k = 0; k <= n; ++k) { S::const_iterator c(p); if (!(c == q) || c != q || (k < n && &*c != &*p)) { bad = "iterator and const_iterator differ"; break; }
                bool same = p == q && !(p != q) && q == p && !(q != p);
                if (k < n) { ++q; same = same && !(p == q) && p != q && !(q == p) && q != p; ++p; }
                if (!same) { bad = "comparison of iterator and const_iterator"; break; } }
            r = x.end(); if (!(r == cx.end())) bad = "iterator and const_iterator differ";
        }
        if (x.max_size() < n) bad = "max_size() smaller than size()";
        return join(a);
    }
    // which comparator the set uses, -1 if it is empty
    static int dir_of(S& x)
    {
        if (x.size() == 0) return -1;
        g_used_dir = -1;
        const S& cx = x;
        cx.find(*cx.begin());
        return g_used_dir;
    }
    static str dirs(int d) { return d < 0 ? str("?") : itos(d); }
    str observe()
    {
        str bad;
        str a = seq(s(1), bad), b = seq(s(2), bad);
        if (!bad.empty()) { diverge("contents", "inconsistent observers: " + bad); return a + "|" + b + "|" + "|"; }
        return a + "|" + b + "|" + dirs(dir_of(s(1))) + "," + dirs(dir_of(s(2))) + "|" + itos(s(1).get_allocator().id) + "," + itos(s(2).get_allocator().id);
    }
    bool accounts()
    {
        size_t n = s(1).size() + s(2).size();
        if (live_count(n) != n) { diverge("lifetime", itos(g_live.size()) + " live keys while the sets hold " + itos(n)); return false; }
        if (g_blocks.size() > n) { diverge("leak", itos(g_blocks.size()) + " nodes allocated while the sets hold " + itos(n) + " keys"); return false; }
        for (int c = 1; c <= 2; ++c)
            for (S::iterator i = s(c).begin(); i != s(c).end(); ++i)
            {
                const std::pair<const uintptr_t, Block>* b = block_of(&*i);
                if (!b) { diverge("lifetime", "a key lies outside allocated memory"); return false; }
                if (b->second.owner != s(c).get_allocator().id)
                { diverge("allocator", "a node comes from allocator " + itos(b->second.owner) + " but its set holds allocator " + itos(s(c).get_allocator().id)); return false; }
            }
        return true;
    }
    static S::iterator at(S& x, int i) { S::iterator it = x.begin(); while (i-- > 0) ++it; return it; }
    template <typename It> static long off(S& x, It it)
    {
        long k = 0; size_t n = x.size();
        for (S::const_iterator i = x.cbegin(); ; ++i, ++k) { if (i == S::const_iterator(it)) return k; if (i == x.cend() || size_t(k) > n) return -1; }
    }
    void apply(const Op& op, str& err, str& ret)
    {
        const int c = op.c, d = 3 - c;
        S& a = s(c); S& b = s(d);
        Err e;
        const str& n = op.n;
        const std::vector<int>& x = op.x;
        vis = -1;
        bool ins = false; S::iterator_with_flag w; int mv = -1;
        if (n == "insert") { Tmp t(x[0]); Visits v; { Armed g; w = a.insert_nothrow(e, static_cast<const Elem&>(t.e)); } vis = v.stop(&t.e); ins = true; }
#if ELEM_KIND != 3
        else if (n == "insert_mv") { Tmp t(x[0]); Visits v; { Armed g; w = a.insert_nothrow(e, std::move(t.e)); } vis = v.stop(&t.e); ins = true; mv = w.second ? t.handed() : 1; }
#endif
        else if (n == "insert_own") { const Elem& k = *at(a, x[0]); Visits v; { Armed g; w = a.insert_nothrow(e, k); } vis = v.stop(0); ins = true; }
        else if (n == "erase_key") { Tmp t(x[0]); Visits v; size_t r; { Armed g; r = a.erase(static_cast<const Elem&>(t.e)); } vis = v.stop(&t.e); ret = itos((long long)r); }
        else if (n == "erase_own") { const Elem& k = *at(a, x[0]); Visits v; size_t r; { Armed g; r = a.erase(k); } vis = v.stop(0); ret = itos((long long)r); }
        else if (n == "erase_pos") { S::const_iterator p = at(a, x[0]); S::iterator r; { Armed g; r = a.erase(p); } ret = itos(off(a, r)); }
        else if (n == "find") { Tmp t(x[0]); Visits v; S::iterator r; { Armed g; r = a.find(static_cast<const Elem&>(t.e)); } vis = v.stop(&t.e); ret = itos(off(a, r)); }
        else if (n == "cfind") { Tmp t(x[0]); const S& ca = a; Visits v; S::const_iterator r; { Armed g; r = ca.find(static_cast<const Elem&>(t.e)); } vis = v.stop(&t.e); ret = itos(off(a, r)); }
        else if (n == "find_own") { const Elem& k = *at(a, x[0]); Visits v; S::iterator r; { Armed g; r = a.find(k); } vis = v.stop(0); ret = itos(off(a, r)); }
        else if (n == "clear") { Armed g; a.clear(); }
        else if (n == "copy") { Armed g; g_copying = true; a.copy_nothrow(e, static_cast<const S&>(b)); g_copying = false; }
        else if (n == "copy_self") { Armed g; a.copy_nothrow(e, static_cast<const S&>(a)); }
#ifndef MIN_ALLOC
        else if (n == "move_assign") { Armed g; a = std::move(b); }
#endif
#ifndef MIN_ALLOC
        else if (n == "move_self") { Armed g; S& alias = a; a = std::move(alias); }
#endif
        else if (n == "mctor") { saved_drop(d); kill(d); { Armed g; ::new(&mem[d - 1]) S(std::move(a)); } alive[d - 1] = true; }
        else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
        err = err_kind(e);
        if (ins && err == "none") ret = itos(off(a, w.first)) + "," + itos(w.second ? 1 : 0);
        if (mv >= 0 && err == "none") ret += "," + itos(mv);
    }
    void saved_drop(int c)
    {
        for (std::map<const Elem*, Saved>::iterator i = saved.begin(); i != saved.end(); )
            if (i->second.id / 100 == c) saved.erase(i++); else ++i;
    }
};

// ---------------------------------------------------------------- recording histories
static std::vector<int> contents(S& x)
{
    std::vector<int> a; size_t n = x.size();
    for (S::iterator i = x.begin(); i != x.end() && a.size() <= n; ++i) a.push_back(i->v);
    return a;
}
static void record(SetSys& sys, const Op& op, const str& f, const str& err, const str& ret, long na, long made)
{
    mem_quiet(sys.s(1), -1, sys.s(2), -1);
    std::vector<str> og = split(sys.origins(), ';');
    std::vector<int> q1 = contents(sys.s(1)), q2 = contents(sys.s(2));
    int d1 = SetSys::dir_of(sys.s(1)), d2 = SetSys::dir_of(sys.s(2));
    TR.line(jop(op) + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"q1\":" + jarr(q1) + ",\"q2\":" + jarr(q2) +
            ",\"o1\":[" + og[0] + "],\"o2\":[" + og[1] + "],\"dir\":[" + itos(d1) + "," + itos(d2) + "],\"al\":[" + itos(sys.s(1).get_allocator().id) + "," +
            itos(sys.s(2).get_allocator().id) + "],\"na\":" + itos(na) + ",\"made\":" + itos(made) + ",\"vis\":" + itos(sys.vis) + "}");
}
// one recorded call; false if the harness' own accounting failed
static bool call(SetSys& sys, const Op& op, long fa, long fe)
{
    ++g_cases;
    F.request(fa, fe);
    sys.before();
    str err = "none", ret;
    long made = g_elem_copies + g_elem_moves;
    sys.apply(op, err, ret);
    made = g_elem_copies + g_elem_moves - made;
    str f = F.fired();
    g_fault = f;
    if (f != "none") { ++g_fired; ret = ""; sys.vis = -1; }
    long na = F.n_alloc;
    F.request(0, 0);
    str bad;
    SetSys::seq(sys.s(1), bad); SetSys::seq(sys.s(2), bad);
    if (!bad.empty()) { diverge("contents", "inconsistent observers: " + bad); return false; }
    record(sys, op, f, err, ret, na, made);
    std::vector<str> none;
    return sys.iterators_ok(op.n == "copy" || op.n == "copy_self" ? "*" : ";") && sys.accounts();
}

static void trace(uint64_t seed, long steps, int maxlen)
{
    Rng r(seed);
    static const char* names[] = { "insert", "insert", "insert", "insert_mv", "insert", "erase_key", "erase_key", "find", "cfind", "find_own", "insert_own", "erase_own",
                                   "erase_pos", "erase_pos", "clear", "copy", "copy_self", "move_assign", "mctor" };
    const int nn = sizeof names / sizeof *names;
    long done = 0;
    while (done < steps)
    {
        {
            SetSys sys;
            int d1 = r.below(2), d2 = r.below(2), al = 1 + r.below(2);
            sys.materialize("||" + itos(d1) + "," + itos(d2) + "|1," + itos(al), 0);
            sys.before();
            g_op = "fresh"; set_case("fresh sets");
            record(sys, mk("fresh", 1, iv(d1, d2)), "none", "none", "", 0, 0);
            str hist;
            int span = 3 + r.below(maxlen);
            for (int i = 0; i < 150 && done < steps; ++i, ++done)
            {
                str n = names[r.below(nn)];
                if (n == "clear" && r.below(4)) n = "insert";
                int c = r.below(3) == 0 ? 2 : 1;
                int len = int(sys.s(c).size());
                int k = 10 * (1 + r.below(span)) + r.below(3);
                Op op = mk(n, c); bool ok = true;
                if (n == "insert" || n == "insert_mv" || n == "erase_key" || n == "find" || n == "cfind") op = mk(n, c, iv(k));
                else if (n == "find_own" || n == "insert_own" || n == "erase_own" || n == "erase_pos") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len))); }
                if (!ok || !wanted<SetSys>(op)) continue;
                long fa = 0, fe = 0;
                int q = r.below(8);
                int reach = n == "copy" ? int(sys.s(3 - c).size()) + 1 : 2;
                if (q == 0) fa = 1 + r.below(reach);
                else if (q == 1) fe = 1 + r.below(reach);
                hist += " " + op.txt + (fa ? "!alloc" + itos(fa) : "") + (fe ? "!elem" + itos(fe) : "");
                if (hist.size() > 8000) hist = "..." + hist.substr(hist.size() - 6000);
                g_op = n; g_fault = fa ? "alloc" : fe ? "elem" : "none"; g_row = done;
                set_case("trace seed=" + itos(seed) + ": sets dir=" + itos(d1) + "," + itos(d2) + hist);
                if (!call(sys, op, fa, fe)) break;
            }
            F.request(0, 0);
        }
        globals_clean("after the sets were destroyed");
    }
}

static void build(SetSys& sys, int c, const std::vector<int>& h)
{
    Err e;
    for (size_t i = 0; i < h.size(); ++i)
    {
        Tmp t(10 * std::abs(h[i]));
        if (h[i] > 0) sys.s(c).insert_nothrow(e, static_cast<const Elem&>(t.e)); else sys.s(c).erase(static_cast<const Elem&>(t.e));
    }
    if (e) diverge("spurious-error", "error while building a shape");
}
// every shape of the design model (spec/RbTree.tla) and every operation there
static void shapes(const char* path, int part, int parts, int nkeys)
{
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); exit(3); }
    char* line = 0; size_t cap = 0; ssize_t len; long idx = -1;
    while ((len = getline(&line, &cap, f)) > 0)
    {
        while (len && line[len - 1] == '\n') line[--len] = 0;
        if (++idx % parts != part) continue;
        std::vector<int> h = ints(str(line, len));
        // copies of this shape, complete and with a failure at every point; the target alternates between empty and not
        long sz = 0;
        for (size_t i = 0; i < h.size(); ++i) sz += h[i] > 0 ? 1 : -1;
        for (long fa = 0; fa <= sz; ++fa)
            for (int kind = 0; kind < 2; ++kind)
            {
                if (fa == 0 && kind) continue;
                {
                    SetSys sys;
                    sys.materialize("||0,0|1,1", 0);
                    g_op = "build"; g_fault = "none"; g_row = idx;
                    set_case("shape history " + join(h) + " then copy");
                    build(sys, 1, h);
                    std::vector<int> pre;
                    if ((fa + kind) % 2) { pre = iv(3, 1); build(sys, 2, pre); }
                    sys.before(); sys.vis = -1;
                    record(sys, mk("build", 1, h, pre), "none", "none", "", 0, 0);
                    Op op = mk("copy", 2);
                    g_op = op.n; g_fault = fa == 0 ? "none" : kind ? "elem" : "alloc";
                    set_case("shape history " + join(h) + " then copy, failure " + g_fault + itos(fa));
                    call(sys, op, kind ? 0 : fa, kind ? fa : 0);
                    F.request(0, 0);
                }
                globals_clean("after the sets were destroyed");
            }
        for (int k = 1; k <= nkeys; ++k)
            for (int how = 0; how < 2; ++how)
            {
                {
                    SetSys sys;
                    sys.materialize("||0,0|1,1", 0);
                    g_op = "build"; g_fault = "none"; g_row = idx;
                    set_case("shape history " + join(h) + " then " + itos(k));
                    bool in = false; Err e;
                    for (size_t i = 0; i < h.size(); ++i)
                    {
                        Tmp t(10 * std::abs(h[i]));
                        if (h[i] > 0) sys.s(1).insert_nothrow(e, static_cast<const Elem&>(t.e)); else sys.s(1).erase(static_cast<const Elem&>(t.e));
                        if (std::abs(h[i]) == k) in = h[i] > 0;
                    }
                    if (e) diverge("spurious-error", "error while building a shape");
                    if (how == 1 && !in) continue;            // absent key: only an insertion to try
                    sys.before(); sys.vis = -1;
                    record(sys, mk("build", 1, h), "none", "none", "", 0, 0);
                    int pos = 0;
                    for (S::iterator i = sys.s(1).begin(); i != sys.s(1).end() && i->v < 10 * k; ++i) ++pos;
                    Op op = !in ? mk("insert", 1, iv(10 * k)) : how == 0 ? mk("erase_key", 1, iv(10 * k)) : mk("erase_pos", 1, iv(pos));
                    g_op = op.n;
                    set_case("shape history " + join(h) + " then " + op.txt);
                    call(sys, op, 0, 0);
                }
                globals_clean("after the sets were destroyed");
            }
    }
    free(line); fclose(f);
}

// ---------------------------------------------------------------- balance
// Long histories on one set; the worst lookup for every size is recorded and judged by TraceSet (CostOK).
struct Worst { std::map<int, int> look, er; };
struct Load
{
    SetSys sys; Worst w; str name; long steps; int c;
    std::vector<int> keys;               // current keys (classes), sorted
    explicit Load(const str& n) : name(n), steps(0), c(1)
    { sys.materialize("||0,0|1,1", 0); g_op = "cost"; set_case("balance workload " + n); }
    S& s() { return sys.s(c); }
    void note(std::map<int, int>& m, int size, int v) { int& x = m[size]; if (v > x) x = v; }
    void ins(int k)
    {
        std::vector<int>::iterator p = std::lower_bound(keys.begin(), keys.end(), k);
        if (p != keys.end() && *p == k) return;
        Tmp t(10 * k); Err e; Visits v; g_op = "insert";
        s().insert_nothrow(e, static_cast<const Elem&>(t.e));
        note(w.look, int(keys.size()), v.stop(&t.e));
        keys.insert(p, k); tick();
    }
    void del(int k)
    {
        std::vector<int>::iterator p = std::lower_bound(keys.begin(), keys.end(), k);
        if (p == keys.end() || *p != k) return;
        Tmp t(10 * k); Visits v; g_op = "erase_key";
        s().erase(static_cast<const Elem&>(t.e));
        note(w.er, int(keys.size()), v.stop(&t.e));
        keys.erase(p); tick();
    }
    void delpos(int k)
    {
        std::vector<int>::iterator p = std::lower_bound(keys.begin(), keys.end(), k);
        if (p == keys.end() || *p != k) return;
        g_op = "erase_pos";
        Tmp t(10 * k); S::iterator i = s().find(static_cast<const Elem&>(t.e));
        if (i == s().end()) { diverge("ret", "find missed a key which is in the set"); keys.erase(p); return; }
        s().erase(i); keys.erase(p); tick();
    }
    int depth(int k)
    {
        Tmp t(10 * k); Visits v; g_op = "find";
        S::iterator i = s().find(static_cast<const Elem&>(t.e));
        int d = v.stop(&t.e);
        note(w.look, int(keys.size()), d);
        bool in = std::binary_search(keys.begin(), keys.end(), k);
        if (in != (i != s().end()) || (in && i->v != 10 * k)) diverge("ret", "find disagrees with the history of insertions and erasures");
        return d;
    }
    // measure all keys and some gaps; returns the deepest and the shallowest key
    void sweep(int& deep, int& shallow)
    {
        int best = -1, least = 1 << 30; deep = shallow = 0;
        for (size_t i = 0; i < keys.size(); ++i)
        {
            int d = depth(keys[i]);
            if (d > best) { best = d; deep = keys[i]; }
            if (d < least) { least = d; shallow = keys[i]; }
        }
    }
    void check()
    {
        int a, b; sweep(a, b);
        if (s().size() != keys.size()) diverge("contents", "size() disagrees with the history");
        size_t i = 0;
        for (S::iterator it = s().begin(); it != s().end() && i < keys.size(); ++it, ++i) if (it->v != 10 * keys[i]) { diverge("contents", "iteration disagrees with the history"); break; }
    }
    void tick() { ++g_cases; if (++steps % 64 == 0) { watchdog(); if (keys.size() < 3000 && steps % 512 == 0) check(); } }
    void copy_on() { Err e; g_op = "copy"; sys.s(3 - c).copy_nothrow(e, static_cast<const S&>(s())); sys.s(c).clear(); c = 3 - c; if (e) diverge("spurious-error", "copy failed"); check(); }
#ifdef MIN_ALLOC
    void move_on() { }
#else
    void move_on() { g_op = "move_assign"; sys.s(3 - c) = std::move(s()); c = 3 - c; check(); }
#endif
    void done()
    {
        check();
        for (int e = 0; e < 2; ++e)
        {
            std::map<int, int>& m = e ? w.er : w.look;
            int top = -1;                // only sizes where the worst lookup exceeds that of all smaller sizes, and every 64th
            for (std::map<int, int>::iterator i = m.begin(); i != m.end(); ++i)
                if (i->second > top || i->first % 64 == 0)
                {
                    top = std::max(top, i->second);
                    TR.line("{\"n\":\"cost\",\"f\":\"none\",\"size\":" + itos(i->first) + ",\"vis\":" + itos(i->second) + ",\"er\":" + itos(e) + ",\"w\":\"" + name + "\"}");
                }
        }
    }
};
static void balance(uint64_t seed, int n, int patterns)
{
    Rng r(seed);
    for (int dirn = 0; dirn < 2; ++dirn)
    {
        int sg = dirn ? -1 : 1, base = 100000;
        str t = dirn ? " descending" : " ascending";
        { Load l("sorted inserts, erased in order," + t); for (int i = 0; i < n; ++i) l.ins(base + sg * i); for (int i = 0; i < n - 8; ++i) l.del(base + sg * i); l.done(); }
        { Load l("sorted inserts, erased in reverse," + t); for (int i = 0; i < n; ++i) l.ins(base + sg * i); for (int i = n - 1; i > 8; --i) l.delpos(base + sg * i); l.done(); }
        { Load l("sorted inserts, every other erased," + t); for (int i = 0; i < n; ++i) l.ins(base + sg * i); for (int i = 0; i < n; i += 2) l.del(base + sg * i);
          for (int i = 1; i < n; i += 4) l.del(base + sg * i); for (int i = 0; i < n; i += 3) l.ins(base + sg * i); l.done(); }
        { Load l("sliding window," + t); for (int i = 0; i < 6 * n; ++i) { l.ins(base + sg * i); if (i >= 200) { if (i % 3) l.del(base + sg * (i - 200)); else l.delpos(base + sg * (i - 200)); } } l.done(); }
        { Load l("sorted inserts, copied half way," + t); for (int i = 0; i < n; ++i) { l.ins(base + sg * i); if (i == n / 3) l.copy_on(); if (i == n / 2) l.move_on(); } for (int i = 0; i < n / 2; ++i) l.del(base + sg * i); l.done(); }
        { Load l("sorted inserts, minimum of the rest erased," + t); for (int i = 0; i < n; ++i) { l.ins(base + sg * i); if (i % 3 == 2) l.del(l.keys.front()); } l.done(); }
        { Load l("sorted inserts, maximum of the rest erased," + t); for (int i = 0; i < n; ++i) { l.ins(base + sg * i); if (i % 3 == 2) l.del(l.keys.back()); } l.done(); }
    }
    { Load l("zigzag"); for (int i = 0; i < n; ++i) l.ins(100000 + (i % 2 ? i : -i)); for (int i = 0; i < n; ++i) l.del(100000 + (i % 2 ? -(n - i) : n - i)); l.done(); }
    { Load l("converging"); for (int i = 0; i < n; ++i) l.ins(100000 + (i % 2 ? n - i : i - n)); for (int i = 0; i < n - 3; ++i) l.del(l.keys[l.keys.size() / 2]); l.done(); }
    { Load l("random"); for (int i = 0; i < 8 * n; ++i) { int k = 1 + r.below(2 * n); if (r.below(2)) l.ins(k); else l.del(k); if (i == 4 * n) l.copy_on(); } l.done(); }
    { Load l("random growth and decay"); for (int p = 0; p < 4; ++p) { for (int i = 0; i < n; ++i) l.ins(1 + r.below(4 * n)); while (l.keys.size() > 20) l.delpos(l.keys[r.below(int(l.keys.size()))]); } l.done(); }
    // adversarial: new keys next to the deepest key, erase shallow ones
    for (int v = 0; v < 4; ++v)
    {
        Load l("next to the deepest key " + itos(v));
        for (int i = 0; i < 16; ++i) l.ins(1000000 + i * 50000);
        for (int i = 0; i < n; ++i)
        {
            int deep, shallow;
            if (l.keys.size() > 160) { l.sweep(deep, shallow); for (int j = 0; j < 40 && l.keys.size() > 8; ++j) l.del(l.keys[(v & 2) ? size_t(j) * 3 % l.keys.size() : r.below(int(l.keys.size()))]); continue; }
            l.sweep(deep, shallow);
            size_t p = size_t(std::lower_bound(l.keys.begin(), l.keys.end(), deep) - l.keys.begin());
            int lo = p ? l.keys[p - 1] : l.keys[p] - 1000, hi = p + 1 < l.keys.size() ? l.keys[p + 1] : l.keys[p] + 1000;
            int k = (v & 1) ? (lo + deep) / 2 : (deep + hi) / 2;
            if (k == deep || k == lo) { for (int j = 0; j < 10 && l.keys.size() > 8; ++j) l.del(l.keys[r.below(int(l.keys.size()))]); l.ins(1 + r.below(2000000)); }
            else l.ins(k);
            if (i % 3 == 0) l.del(shallow);
        }
        l.done();
    }
    // random repeated patterns of quantile operations
    for (int p = 0; p < patterns; ++p)
    {
        int len = 2 + r.below(7);
        std::vector<int> pat; str nm = "pattern";
        for (int i = 0; i < len; ++i) { pat.push_back(r.below(14)); nm += " " + itos(pat.back()); }
        Load l(nm);
        int start = 8 + r.below(n / 3);
        int lo = 0, hi = 0;
        for (int i = 0; i < start; ++i) l.ins((++hi) * 4096);
        for (int i = 0; i < n; ++i)
        {
            int o = pat[i % len], m = int(l.keys.size());
            if (m > n) { for (int j = 0; j < n / 2; ++j) l.del(o % 2 ? l.keys.front() : l.keys.back()); continue; }
            if (m < 4) { for (int j = 0; j < start; ++j) l.ins((++hi) * 4096); continue; }
            int at = o < 2 ? 0 : o < 4 ? m - 2 : o < 6 ? m / 2 : o < 8 ? m / 4 : o < 10 ? 3 * m / 4 : r.below(m - 1);
            switch (o % 2)
            {
            case 0: { int a = l.keys[at], b = l.keys[at + 1]; if (o == 0) l.ins((--lo) * 4096); else if (o == 2) l.ins((++hi) * 4096); else if (b - a > 1) l.ins(a + (b - a) / 2); else l.ins((++hi) * 4096); break; }
            default: if (o == 1) l.del(l.keys.front()); else if (o == 3) l.delpos(l.keys.back()); else if (o % 4 == 1) l.del(l.keys[at]); else l.delpos(l.keys[at]);
            }
        }
        l.done();
    }
}

// one very large set
static void bulk(int n)
{
    for (int dirn = 0; dirn < 2; ++dirn)
    {
        Load l(str("large set, ") + (dirn ? "descending" : "ascending"));
        for (int i = 0; i < n; ++i) l.ins(dirn ? 10000000 - i : i);
        l.copy_on();
        std::vector<int> ks = l.keys;
        for (size_t i = 0; i < ks.size() / 4; ++i) l.del(ks[dirn ? i : ks.size() - 1 - i]);
        l.move_on();
        l.done();
    }
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    str mode = a.get("mode", "exh");
    if (mode == "trace" || mode == "shapes" || mode == "balance" || mode == "bulk")
    {
        TR.open(a.get("trace", ""));
        if (mode == "trace") trace(uint64_t(a.num("seed", 1)), a.num("steps", 1500), int(a.num("maxlen", 24)));
        else if (mode == "bulk") bulk(int(a.num("n", 70000)));
        else if (mode == "shapes") shapes(a.get("histories", "").c_str(), int(a.num("part", 0)), int(a.num("parts", 1)), int(a.num("keys", 7)));
        else balance(uint64_t(a.num("seed", 1)), int(a.num("n", 600)), int(a.num("patterns", 60)));
        TR.close();
        finish();
    }
    Table t(a.get("table", "").c_str());
    if (mode == "exh") exhaustive<SetSys>(t, 3, int(a.num("part", 0)), int(a.num("parts", 1)), a.num("from", 0));
    else if (mode == "walk") walks<SetSys>(t, uint64_t(a.num("seed", 1)), a.num("steps", 20000), int(a.num("len", 60)), a.get("start", "||0,0|1,1"));
    finish();
}
