// Conformance adapter for nestl::list (contract: spec/NestlList.tla).
#include "common.hpp"
#include <nestl/list.hpp>

typedef TrackAlloc<Elem> Alloc;
typedef nestl::list<Elem, Alloc> L;

// an ordering which has to be carried along: it cannot be default constructed and its direction is state
struct Order
{
    int sign;
    explicit Order(int s) : sign(s) { }
    bool operator()(const Elem& a, const Elem& b) const { return sign < 0 ? b < a : a < b; }
};

static int g_org_base = 10000;

struct ListSys
{
    typename std::aligned_storage<sizeof(L), alignof(L)>::type mem[2];
    bool alive[2];
    L& l(int c) { return *reinterpret_cast<L*>(&mem[c - 1]); }
    ListSys() { alive[0] = alive[1] = false; }
    ~ListSys() { teardown(); }
    void teardown() { saved.clear(); for (int c = 1; c <= 2; ++c) kill(c); }
    void kill(int c) { if (alive[c - 1]) { l(c).~L(); alive[c - 1] = false; } }
    void make(int c, int al) { Alloc a(al); ::new(&mem[c - 1]) L(a); alive[c - 1] = true; }

    static bool has_alloc_field() { return true; }
    static bool st_match(const str& want, const str& now) { return want == now; }
    static bool supports(const Op& op)
    {
#if !NESTL_HAS_EXCEPTIONS
        if (op.n.compare(0, 2, "t_") == 0) return false;
#endif
#if ELEM_KIND == 1
        if (op.n == "assign_n_default") return false;
#endif
#ifdef MIN_ALLOC
        if (op.n == "move_assign" || op.n == "move_self" || op.n == "t_move_noexcept") return false;   // only for allocators which propagate on move assignment
#endif
#if ELEM_KIND == 3
        if (op.n.size() > 3 && op.n.compare(op.n.size() - 3, 3, "_mv") == 0) return false;
#endif
        return true;
    }
    void materialize(const str& s, int)
    {
        teardown();
        std::vector<str> p = split(s, '|');
        std::vector<int> al = ints(p[2]);
        for (int c = 1; c <= 2; ++c)
        {
            std::vector<int> q = ints(p[c - 1]);
            make(c, al[c - 1]);
            Err e;
            for (size_t i = 0; i < q.size() && !e; ++i) { l(c).emplace_back_nothrow(e); if (!e) setv(l(c).back(), q[i]); }
            if (e) diverge("spurious-error", "error while building the initial state: " + err_kind(e));
        }
    }
    // identity of the elements before the call: g_org_base * list + position
    struct Saved { int id; L::iterator it; L::const_iterator cit; };
    std::map<const Elem*, Saved> saved;
    void before()
    {
        saved.clear();
        for (int c = 1; c <= 2; ++c)
        {
            int k = 0;
            for (L::iterator i = l(c).begin(); i != l(c).end(); ++i) { Saved s; s.id = g_org_base * c + ++k; s.it = i; s.cit = i; saved[&*i] = s; }
        }
    }
    str origins()
    {
        str r;
        for (int c = 1; c <= 2; ++c)
        {
            std::vector<int> o;
            for (L::iterator i = l(c).begin(); i != l(c).end(); ++i)
            {
                std::map<const Elem*, Saved>::iterator s = saved.find(&*i);
                o.push_back(s == saved.end() ? 0 : s->second.id);
            }
            r += (c == 2 ? ";" : "") + join(o);
        }
        return r;
    }
    // iterators taken before the call still work in the list which owns the element now
    // (only meaningful where the specification gives the element an origin)
    bool iterators_ok(const str& org)
    {
        std::vector<str> p = split(org, ';');
        for (int c = 1; c <= 2; ++c)
        {
            if (org == "*" || p[c - 1] == "*") continue;
            for (L::iterator i = l(c).begin(); i != l(c).end(); ++i)
            {
                std::map<const Elem*, Saved>::iterator s = saved.find(&*i);
                if (s == saved.end()) continue;
                Saved& x = s->second;
                L::iterator j = x.it, k = i; ++j; ++k;
                L::const_iterator cj = x.cit; ++cj;
                bool ok = x.it == i && &*x.it == &*i && x.it.operator->() == &*i && j == k && &*x.cit == &*i && cj == L::const_iterator(k);
                if (i != l(c).begin()) { L::iterator a = x.it, b = i; a--; --b; ok = ok && a == b; }
                if (!ok) { diverge("address", "an iterator taken before the call no longer designates its element"); return false; }
            }
        }
        return true;
    }
    static str seq(L& x, str& bad)
    {
        const L& cx = x;
        std::vector<int> a;
        size_t n = x.size();
        if (n > 1000000) { bad = "size() is " + itos((long long)n); return "?"; }
        if (x.empty() != (n == 0)) bad = "empty() disagrees with size()";
        for (L::iterator i = x.begin(); i != x.end(); ++i) { use_live(&*i, "access"); a.push_back(val(*i)); if (a.size() > n + 5) break; }
        if (a.size() != n) { bad = "iteration length disagrees with size()"; return join(a); }
        if (!walk_all(x.begin(), x.end(), a, show)) bad = "iteration differs";
        if (!walk_all(cx.begin(), cx.end(), a, show)) bad = "const iteration differs";
        if (!walk_all(cx.cbegin(), cx.cend(), a, show)) bad = "cbegin iteration differs";
        {
            std::vector<int> z(a.rbegin(), a.rend());
            if (!walk_all(x.rbegin(), x.rend(), z, show)) bad = "reverse iteration differs";
            if (!walk_all(cx.rbegin(), cx.rend(), z, show)) bad = "const reverse iteration differs";
            if (!walk_all(cx.crbegin(), cx.crend(), z, show)) bad = "crbegin iteration differs";
        }
        {   // an iterator converts to a const_iterator for the same element
            L::iterator p = x.begin(); L::const_iterator q = cx.begin(), r(p); 
            for (size_t k = 0; k <= n; ++k) { L::const_iterator c(p); if (!(c == q) || c != q || (k < n && &*c != &*p)) { bad = "iterator and const_iterator differ"; break; }
                bool same = q == p && !(q != p);
                if (k < n) { ++q; same = same && !(q == p) && q != p; ++p; }
                if (!same) { bad = "comparison of iterator and const_iterator"; break; } }
            r = x.end(); if (!(r == cx.end())) bad = "iterator and const_iterator differ";
        }
        if (n)
        {
            if (val(x.front()) != a[0] || val(cx.front()) != a[0]) bad = "front() differs";
            if (val(x.back()) != a[n - 1] || val(cx.back()) != a[n - 1]) bad = "back() differs";
        }
        if (x.max_size() < n) bad = "max_size() smaller than size()";
        return join(a);
    }
    str observe()
    {
        str bad;
        str r = seq(l(1), bad) + "|" + seq(l(2), bad) + "|" + itos(l(1).get_allocator().id) + "," + itos(l(2).get_allocator().id);
        if (!bad.empty()) diverge("contents", "inconsistent observers: " + bad);
        return r;
    }
    bool accounts()
    {
        size_t n = l(1).size() + l(2).size();
        if (live_count(n) != n) { diverge("lifetime", itos(g_live.size()) + " live elements while the lists hold " + itos(n)); return false; }
        long leaves = 0;
        for (int c = 1; c <= 2; ++c) for (L::iterator i = l(c).begin(); i != l(c).end(); ++i) leaves += leaves_of(val(*i));
        if (!nested_accounts(leaves)) return false;
        if (g_blocks.size() > n) { diverge("leak", itos(g_blocks.size()) + " nodes allocated while the lists hold " + itos(n) + " elements"); return false; }
        for (int c = 1; c <= 2; ++c)
            for (L::iterator i = l(c).begin(); i != l(c).end(); ++i)
            {
                const std::pair<const uintptr_t, Block>* b = block_of(&*i);
                if (!b) { diverge("lifetime", "an element lies outside allocated memory"); return false; }
                if (b->second.owner != l(c).get_allocator().id)
                { diverge("allocator", "a node comes from allocator " + itos(b->second.owner) + " but its list holds allocator " + itos(l(c).get_allocator().id)); return false; }
            }
        return true;
    }
    static L::iterator at(L& x, int i) { L::iterator it = x.begin(); while (i-- > 0) ++it; return it; }
    static L::const_iterator cat(L& x, int i) { return at(x, i); }
    static Elem& el(L& x, int i) { return *at(x, i); }
    static long off(L& x, L::iterator it)
    {
        long k = 0;
        for (L::iterator i = x.begin(); ; ++i, ++k) { if (i == it) return k; if (i == x.end()) return -1; }
    }

    void apply(const Op& op, str& err, str& ret)
    {
        const int c = op.c, d = 3 - c;
        L& a = l(c); L& b = l(d);
        Err e;
        const str& n = op.n;
        const std::vector<int>& x = op.x;
        bool has = false; L::iterator r; long num = -1; int mv = -1;
        if (n == "push_back") { Tmp t(x[0]); Armed g; a.push_back_nothrow(e, static_cast<const Elem&>(t.e)); }
        else if (n == "push_front") { Tmp t(x[0]); Armed g; a.push_front_nothrow(e, static_cast<const Elem&>(t.e)); }
        else if (n == "emplace_back") { Tmp t(x[0]); Armed g; a.emplace_back_nothrow(e, EMPL(t, x[0])); }
        else if (n == "emplace_front") { Tmp t(x[0]); Armed g; a.emplace_front_nothrow(e, EMPL(t, x[0])); }
#if ELEM_KIND != 3
        else if (n == "push_back_mv") { Tmp t(x[0]); { Armed g; a.push_back_nothrow(e, std::move(t.e)); } mv = t.handed(); }
        else if (n == "push_front_mv") { Tmp t(x[0]); { Armed g; a.push_front_nothrow(e, std::move(t.e)); } mv = t.handed(); }
        else if (n == "insert_mv") { Tmp t(x[1]); L::const_iterator p = cat(a, x[0]); { Armed g; r = a.insert_nothrow(e, p, std::move(t.e)); } has = true; mv = t.handed(); }
#endif
        else if (n == "push_own") { Elem& o = el(a, x[0]); Armed g; a.push_back_nothrow(e, static_cast<const Elem&>(o)); }
        else if (n == "emplace_own") { Elem& o = el(a, x[0]); Armed g; a.emplace_back_nothrow(e, static_cast<const Elem&>(o)); }
        else if (n == "push_front_own") { Elem& o = el(a, x[0]); Armed g; a.push_front_nothrow(e, static_cast<const Elem&>(o)); }
        else if (n == "insert") { Tmp t(x[1]); L::const_iterator p = cat(a, x[0]); Armed g; r = a.insert_nothrow(e, p, static_cast<const Elem&>(t.e)); has = true; }
        else if (n == "emplace") { Tmp t(x[1]); L::const_iterator p = cat(a, x[0]); Armed g; r = a.emplace_nothrow(e, p, EMPL(t, x[1])); has = true; }
        else if (n == "insert_own") { Elem& o = el(a, x[1]); L::const_iterator p = cat(a, x[0]); Armed g; r = a.insert_nothrow(e, p, static_cast<const Elem&>(o)); has = true; }
        else if (n == "insert_n") { Tmp t(x[2]); L::const_iterator p = cat(a, x[0]); Armed g; a.insert_nothrow(e, p, size_t(x[1]), t.e); }
        else if (n == "insert_n_own") { Elem& o = el(a, x[2]); L::const_iterator p = cat(a, x[0]); Armed g; a.insert_nothrow(e, p, size_t(x[1]), o); }
        else if (n == "insert_range") { Src s(op.s); L::const_iterator p = cat(a, x[0]); Armed g; a.insert_nothrow(e, p, s.b(), s.e()); }
        else if (n == "insert_range_in") { Src s(op.s); L::const_iterator p = cat(a, x[0]); Armed g; a.insert_nothrow(e, p, InIt(s.b()), InIt(s.e())); }
        else if (n == "insert_range_bi") { Src s(op.s); L::const_iterator p = cat(a, x[0]); Armed g; a.insert_nothrow(e, p, BiIt(s.b()), BiIt(s.e())); }
        else if (n == "insert_range_other") { L::const_iterator p = cat(a, x[0]); Armed g; a.insert_nothrow(e, p, b.cbegin(), b.cend()); }
        else if (n == "erase") { L::const_iterator p = cat(a, x[0]); Armed g; r = a.erase(p); has = true; }
        else if (n == "erase_range") { L::const_iterator p = cat(a, x[0]), q = cat(a, x[1]); Armed g; r = a.erase(p, q); has = true; }
        else if (n == "pop_back") { Armed g; a.pop_back(); }
        else if (n == "pop_front") { Armed g; a.pop_front(); }
        else if (n == "clear") { Armed g; a.clear(); }
        else if (n == "assign_n") { Tmp t(x[1]); Armed g; a.assign_nothrow(e, size_t(x[0]), t.e); }
#if ELEM_KIND != 1
        else if (n == "assign_n_default") { Armed g; a.assign_nothrow(e, size_t(x[0])); }
#endif
        else if (n == "assign_own") { Elem& o = el(a, x[1]); Armed g; a.assign_nothrow(e, size_t(x[0]), o); }
        else if (n == "assign_range") { Src s(op.s); Armed g; a.assign_nothrow(e, s.b(), s.e()); }
        else if (n == "assign_range_in") { Src s(op.s); Armed g; a.assign_nothrow(e, InIt(s.b()), InIt(s.e())); }
        else if (n == "write") { setv(el(a, x[0]), x[1]); }
        else if (n == "copy") { Armed g; a.copy_nothrow(e, static_cast<const L&>(b)); }
        else if (n == "copy_self") { Armed g; a.copy_nothrow(e, static_cast<const L&>(a)); }
        else if (n == "swap") { Armed g; a.swap(b); }
        else if (n == "swap_self") { Armed g; a.swap(a); }
#ifndef MIN_ALLOC
        else if (n == "move_assign") { Armed g; a = std::move(b); }
#endif
#ifndef MIN_ALLOC
        else if (n == "move_self") { Armed g; L& alias = a; a = std::move(alias); }
#endif
        else if (n == "mctor") { saved_drop(d); kill(d); { Armed g; ::new(&mem[d - 1]) L(std::move(a)); } alive[d - 1] = true; }
        else if (n == "merge") { Armed g; a.merge(b); }
        else if (n == "merge_rv") { Armed g; a.merge(std::move(b)); }
        else if (n == "merge_comp") { Armed g; a.merge(b, Order(-1)); }
        else if (n == "merge_comp_rv") { Armed g; a.merge(std::move(b), Order(-1)); }
        else if (n == "splice_all") { L::const_iterator p = cat(a, x[0]); Armed g; a.splice(p, b); }
        else if (n == "splice_all_rv") { L::const_iterator p = cat(a, x[0]); Armed g; a.splice(p, std::move(b)); }
        else if (n == "splice_one") { L::const_iterator p = cat(a, x[0]), q = cat(b, x[1]); Armed g; a.splice(p, b, q); }
        else if (n == "splice_one_rv") { L::const_iterator p = cat(a, x[0]), q = cat(b, x[1]); Armed g; a.splice(p, std::move(b), q); }
        else if (n == "splice_range") { L::const_iterator p = cat(a, x[0]), q = cat(b, x[1]), w = cat(b, x[2]); Armed g; a.splice(p, b, q, w); }
        else if (n == "splice_range_rv") { L::const_iterator p = cat(a, x[0]), q = cat(b, x[1]), w = cat(b, x[2]); Armed g; a.splice(p, std::move(b), q, w); }
        else if (n == "splice_self_one") { L::const_iterator p = cat(a, x[0]), q = cat(a, x[1]); Armed g; a.splice(p, a, q); }
        else if (n == "splice_self_range") { L::const_iterator p = cat(a, x[0]), q = cat(a, x[1]), w = cat(a, x[2]); Armed g; a.splice(p, a, q, w); }
        else if (n == "sort") { Armed g; a.sort(); }
        else if (n == "sort_comp") { Armed g; a.sort(Order(-1)); }
        else if (n == "eq") { Armed g; num = l(1) == l(2); }
        else if (n == "eq_self") { Armed g; num = a == a; }
        else if (n == "eq_seq")
        {
            L w(a.get_allocator()); Err e2;
            for (size_t i = 0; i < op.s.size() && !e2; ++i) { w.emplace_back_nothrow(e2); if (!e2) setv(w.back(), op.s[i]); }
            if (e2) diverge("spurious-error", "error while building a list to compare with: " + err_kind(e2));
            const L& l = a; const L& m = w; bool p, q;
            { Armed g; p = l == m; q = m == l; }
            ret = itos(p) + "," + itos(q); return;
        }
#if NESTL_HAS_EXCEPTIONS
        else if (n.compare(0, 2, "t_") == 0)
        {
            std::exception_ptr ep;
            int ald = b.get_allocator().id;
            if (n == "t_push_back") { Tmp t(x[0]); Armed g; try { a.push_back(static_cast<const Elem&>(t.e)); } catch (...) { ep = std::current_exception(); } }
#if ELEM_KIND != 3
            else if (n == "t_push_back_mv") { Tmp t(x[0]); { Armed g; try { a.push_back(std::move(t.e)); } catch (...) { ep = std::current_exception(); } } ret = itos(t.handed()); }
#endif
            else if (n == "t_copy_assign") { Armed g; try { a = static_cast<const L&>(b); } catch (...) { ep = std::current_exception(); } }
            else if (n == "t_copy_assign_self") { Armed g; try { L& alias = a; a = static_cast<const L&>(alias); } catch (...) { ep = std::current_exception(); } }
            else if (n == "t_copy_ctor")
            {
                kill(d);
                bool ok = false;
                { Armed g; try { ::new(&mem[d - 1]) L(static_cast<const L&>(a)); ok = true; } catch (...) { ep = std::current_exception(); } }
                if (ok) alive[d - 1] = true; else make(d, ald);
            }
            else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
            err = classify(ep);
            return;
        }
#endif
        else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
        err = err_kind(e);
        if (has && err == "none") ret = itos(off(a, r));
        if (num >= 0) ret = itos(num);
        if (mv >= 0 && err == "none") ret += (ret.empty() ? "" : ",") + itos(mv);
    }
    void saved_drop(int c)
    {
        for (std::map<const Elem*, Saved>::iterator i = saved.begin(); i != saved.end(); )
            if (i->second.id / 10000 == c) saved.erase(i++); else ++i;
    }
};

// ---------------------------------------------------------------- recording histories
static std::vector<int> contents(L& x)
{
    std::vector<int> a; size_t n = x.size();
    for (L::iterator i = x.begin(); i != x.end() && a.size() <= n; ++i) a.push_back(val(*i));
    return a;
}
static void record(ListSys& sys, const Op& op, const str& f, const str& err, const str& ret, long na, long made)
{
    mem_quiet(sys.l(1), -1, sys.l(2), -1);
    std::vector<str> og = split(sys.origins(), ';');
    TR.line(jop(op) + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"q1\":" + jarr(contents(sys.l(1))) + ",\"q2\":" + jarr(contents(sys.l(2))) +
            ",\"o1\":[" + og[0] + "],\"o2\":[" + og[1] + "],\"al\":[" + itos(sys.l(1).get_allocator().id) + "," + itos(sys.l(2).get_allocator().id) + "],\"na\":" + itos(na) + ",\"made\":" + itos(made) + "}");
}

static bool is_sorted_by(L& x, bool greater)
{
    std::vector<int> q = contents(x);
    for (size_t i = 1; i < q.size(); ++i) if (greater ? q[i] > q[i - 1] : q[i] < q[i - 1]) return false;
    return true;
}

static void trace(uint64_t seed, long steps, int maxlen, bool big)
{
    Rng r(seed);
    static const char* names[] = {
        "push_back", "push_back", "push_back_mv", "emplace_back", "push_front", "push_front_mv", "emplace_front", "push_own", "emplace_own", "push_front_own",
        "insert", "insert_mv", "emplace", "insert_own", "insert_n", "insert_n_own", "insert_range", "insert_range_in", "insert_range_bi", "insert_range_other",
        "erase", "erase_range", "pop_back", "pop_front", "clear", "assign_n", "assign_n_default", "assign_own", "assign_range", "assign_range_in",
        "write", "copy", "copy_self", "swap", "swap_self", "move_assign", "mctor", "merge", "merge_rv", "merge_comp", "merge_comp_rv",
        "splice_all", "splice_all_rv", "splice_one", "splice_one_rv", "splice_range", "splice_range_rv", "splice_self_one", "splice_self_range",
        "sort", "sort", "sort_comp", "eq", "eq_seq", "eq_seq", "t_push_back", "t_push_back_mv", "t_copy_assign", "t_copy_assign_self", "t_copy_ctor" };
    const int nn = sizeof names / sizeof *names;
    long done = 0;
    while (done < steps)
    {
        {
            ListSys sys;
            bool same = r.below(3) != 0;
            sys.materialize(same ? "||1,1" : "||1,2", 0);
            sys.before();
            g_op = "fresh"; g_case = "fresh lists";
            record(sys, mk("fresh", 1), "none", "none", "", 0, 0);
            str hist;
            const int scale = big ? maxlen / 20 : 1;       // sizes of ranges and counts
            for (int i = 0; i < 150 && done < steps; ++i, ++done)
            {
                str n = names[r.below(nn)];
                int c = r.below(3) == 0 ? 2 : 1, d = 3 - c;
                if (big && i < 2) { n = "assign_range"; c = i + 1; d = 3 - c; }
                if (big && n == "clear" && r.below(3)) n = "pop_front";
                int len = int(sys.l(c).size()), dl = int(sys.l(d).size());
                if (len + dl >= maxlen) { static const char* sh[] = { "clear", "erase_range", "sort", "sort_comp", "assign_range", "move_assign" }; n = sh[r.below(6)]; }
                int v = 1 + r.below(6);
                bool eqal = sys.l(1).get_allocator().id == sys.l(2).get_allocator().id;
                Op op = mk(n, c); bool ok = true;
                if (n == "push_back" || n == "push_back_mv" || n == "emplace_back" || n == "push_front" || n == "push_front_mv" || n == "emplace_front" || n == "t_push_back" || n == "t_push_back_mv") op = mk(n, c, iv(v));
                else if (n == "push_own" || n == "emplace_own" || n == "push_front_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len))); }
                else if (n == "insert" || n == "insert_mv" || n == "emplace") op = mk(n, c, iv(r.below(len + 1), v));
                else if (n == "insert_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len + 1), r.below(len))); }
                else if (n == "insert_n") op = mk(n, c, iv(r.below(len + 1), r.below(5 * scale), v));
                else if (n == "insert_n_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len + 1), r.below(5 * scale), r.below(len))); }
                else if (n == "insert_range_other" || n == "splice_all" || n == "splice_all_rv") op = mk(n, c, iv(r.below(len + 1)));
                else if (n.compare(0, 12, "insert_range") == 0) { std::vector<int> s; for (int k = r.below(9 * scale); k > 0; --k) s.push_back(1 + r.below(6)); op = mk(n, c, iv(r.below(len + 1)), s); }
                else if (n == "erase") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len))); }
                else if (n == "erase_range") { int p = r.below(len + 1); op = mk(n, c, iv(p, p + r.below(len - p + 1))); }
                else if (n == "pop_back" || n == "pop_front") ok = len > 0;
                else if (n == "assign_n") op = mk(n, c, iv(r.below(12 * scale), v));
                else if (n == "assign_n_default") op = mk(n, c, iv(r.below(12 * scale)));
                else if (n == "assign_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(12 * scale), r.below(len))); }
                else if (n.compare(0, 12, "assign_range") == 0) { std::vector<int> s; for (int k = r.below(20 * scale); k > 0; --k) s.push_back(1 + r.below(6)); op = mk(n, c, iv(), s); }
                else if (n == "eq_seq") op = mk(n, c, iv(), near(contents(sys.l(c)), r));
                else if (n == "write") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len), v)); }
                else if (n == "merge" || n == "merge_rv") ok = eqal && is_sorted_by(sys.l(1), false) && is_sorted_by(sys.l(2), false);
                else if (n == "merge_comp" || n == "merge_comp_rv") ok = eqal && is_sorted_by(sys.l(1), true) && is_sorted_by(sys.l(2), true);
                else if (n == "splice_one" || n == "splice_one_rv") { if (!dl) ok = false; else op = mk(n, c, iv(r.below(len + 1), r.below(dl))); }
                else if (n == "splice_range" || n == "splice_range_rv") { int p = r.below(dl + 1); op = mk(n, c, iv(r.below(len + 1), p, p + r.below(dl - p + 1))); }
                else if (n == "splice_self_one") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len + 1), r.below(len))); }
                else if (n == "splice_self_range") { int p = r.below(len + 1), q = p + r.below(len - p + 1), t = r.below(len + 1); ok = t < p || t >= q; op = mk(n, c, iv(t, p, q)); }
                if (n.compare(0, 7, "splice_") == 0 && n.compare(0, 11, "splice_self") != 0 && !eqal) ok = false;
                if (!ok || !wanted<ListSys>(op)) { --i; continue; }
                long fa = 0, fe = 0;
                int q = r.below(8);
                if (q == 0) fa = 1 + r.below(r.below(2) ? 4 : std::max(4, dl + 1));
                else if (q == 1) fe = 1 + r.below(r.below(2) ? 5 : std::max(5, dl + 1));
                hist += " " + op.txt + (fa ? "!alloc" + itos(fa) : "") + (fe ? "!elem" + itos(fe) : "");
                if (hist.size() > 8000u) hist = "..." + hist.substr(hist.size() - 6000);
                g_op = n; g_fault = fa ? "alloc" : fe ? "elem" : "none"; g_row = done;
                set_case("trace seed=" + itos(seed) + ":" + hist);
                ++g_cases;
                F.request(fa, fe);
                sys.before();
                str err = "none", ret;
                long made = g_elem_copies + g_elem_moves;
                sys.apply(op, err, ret);
                made = g_elem_copies + g_elem_moves - made;
                str f = F.fired();
                g_fault = f;
                err = norm_err(f, err);
                if (f != "none") { ++g_fired; ret = ""; }
                record(sys, op, f, err, ret, F.n_alloc, made);
                if (!sys.accounts()) break;
            }
            F.request(0, 0);
        }
        globals_clean("after the containers were destroyed");
    }
}

// sorting long lists: all lengths up to n, few distinct keys, both orderings
static void sort_trace(uint64_t seed, int maxn)
{
    Rng r(seed);
    for (int n = 0; n <= maxn; n += n < 20 ? 1 : 7)
    {
        {
            ListSys sys; sys.materialize("||1,1", 0); sys.before();
            g_op = "fresh"; record(sys, mk("fresh", 1), "none", "none", "", 0, 0);
            for (int c = 1; c <= 2; ++c)
            {
                std::vector<int> s; for (int i = 0; i < n; ++i) s.push_back(1 + r.below(5));
                Op ops[] = { mk("assign_range", c, iv(), s), mk("sort", c), mk("sort_comp", c), mk("sort", c) };
                for (int k = 0; k < 4; ++k)
                {
                    g_op = ops[k].n; g_fault = "none"; set_case("sort run n=" + itos(n) + " " + ops[k].txt); ++g_cases;
                    F.request(0, 0); sys.before();
                    str err = "none", ret; long made = g_elem_copies + g_elem_moves;
                    sys.apply(ops[k], err, ret);
                    record(sys, ops[k], "none", err, ret, F.n_alloc, g_elem_copies + g_elem_moves - made);
                }
            }
            Op m = mk("merge", 1);
            g_op = "merge"; set_case("merge run n=" + itos(n)); ++g_cases; F.request(0, 0); sys.before();
            str err = "none", ret; long made = g_elem_copies + g_elem_moves;
            sys.apply(m, err, ret);
            record(sys, m, "none", err, ret, F.n_alloc, g_elem_copies + g_elem_moves - made);
            sys.accounts();
        }
        globals_clean("after the containers were destroyed");
    }
}

// ---------------------------------------------------------------- very long lists (spec/NestlRuns.tla)
static void record_runs(ListSys& sys, const Op& op, const str& sr, const str& f, const str& err, const str& ret, long na, long made)
{
    str q[2];
    for (int c = 1; c <= 2; ++c)
    {
        std::vector<int> v; std::vector<long> o; size_t n = sys.l(c).size();
        if (n > 3000000) { diverge("contents", "size() is " + itos((long long)n)); finish(); }
        for (L::iterator i = sys.l(c).begin(); i != sys.l(c).end() && v.size() <= n; ++i)
        {
            v.push_back(val(*i));
            std::map<const Elem*, ListSys::Saved>::iterator s = sys.saved.find(&*i);
            o.push_back(s == sys.saved.end() ? 0 : s->second.id);
        }
        if (v.size() != n) diverge("contents", "iteration length disagrees with size()");
        // and the same from behind
        size_t k = v.size();
        for (L::reverse_iterator i = sys.l(c).rbegin(); i != sys.l(c).rend(); ++i) if (k == 0 || val(*i) != v[--k]) { k = 1; break; }
        if (k != 0) diverge("contents", "reverse iteration differs");
        q[c - 1] = runs_json(v, o);
    }
    TR.line(jop(op) + ",\"sr\":" + sr + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"q1\":" + q[0] + ",\"q2\":" + q[1] +
            ",\"al\":[" + itos(sys.l(1).get_allocator().id) + "," + itos(sys.l(2).get_allocator().id) + "],\"cap\":[0,0],\"na\":" + itos(na) + ",\"made\":" + itos(made) + ",\"moved\":[0,0]}");
}
static void runs_trace(uint64_t seed, long steps, int most)
{
    Rng r(seed);
    g_org_base = 100000000;
    static const char* names[] = {
        "push_back", "push_back_mv", "emplace_back", "push_front", "emplace_front", "push_own", "insert", "insert_mv", "insert_own", "insert_n", "insert_n", "insert_n_own",
        "insert_range", "insert_range_in", "insert_range_bi", "insert_range_other", "erase", "erase_range", "erase_range", "pop_back", "pop_front", "clear",
        "assign_n", "assign_own", "assign_range", "assign_range_in", "write", "copy", "copy_self", "swap", "move_assign", "mctor",
        "splice_all", "splice_one", "splice_range", "splice_range", "splice_self_one", "splice_self_range", "splice_self_range", "eq", "eq_self" };
    const int nn = sizeof names / sizeof *names;
    long done = 0;
    while (done < steps)
    {
        {
            ListSys sys;
            sys.materialize(r.below(4) ? "||1,1" : "||1,2", 0);
            sys.before();
            g_op = "fresh"; g_case = "fresh lists";
            record_runs(sys, mk("fresh", 1), "[]", "none", "none", "", 0, 0);
            str hist;
            for (int i = 0; i < 40 && done < steps; ++i, ++done)
            {
                str n = names[r.below(nn)];
                int c = r.below(3) == 0 ? 2 : 1, d = 3 - c;
                if (i < 2) { n = "assign_range"; c = i + 1; d = 3 - c; }
                if (n == "clear" && r.below(3)) n = "pop_front";
                int len = int(sys.l(c).size()), dl = int(sys.l(d).size());
                if (len + dl >= 2 * most) { static const char* sh[] = { "clear", "erase_range", "assign_range", "move_assign" }; n = sh[r.below(4)]; }
                int v = 1 + r.below(50000), room = std::max(1, most - len), pos = any_size(r, len), own = len ? std::min(any_size(r, len), len - 1) : 0;
                bool eqal = sys.l(1).get_allocator().id == sys.l(2).get_allocator().id;
                Op op = mk(n, c); std::vector<RunOf> rs; bool ok = true;
                if (n == "push_back" || n == "push_back_mv" || n == "emplace_back" || n == "push_front" || n == "emplace_front") op = mk(n, c, iv(v));
                else if (n == "push_own") { ok = len > 0; op = mk(n, c, iv(own)); }
                else if (n == "insert" || n == "insert_mv") op = mk(n, c, iv(pos, v));
                else if (n == "insert_own") { ok = len > 0; op = mk(n, c, iv(pos, own)); }
                else if (n == "insert_n") op = mk(n, c, iv(pos, any_size(r, room), v));
                else if (n == "insert_n_own") { ok = len > 0; op = mk(n, c, iv(pos, any_size(r, room), own)); }
                else if (n == "insert_range_other" || n == "splice_all") op = mk(n, c, iv(pos));
                else if (n.compare(0, 12, "insert_range") == 0) { rs = random_runs(r, any_size(r, room)); op = mk(n, c, iv(pos)); }
                else if (n == "erase") { ok = len > 0; op = mk(n, c, iv(own)); }
                else if (n == "erase_range") op = mk(n, c, iv(pos, pos + any_size(r, len - pos)));
                else if (n == "pop_back" || n == "pop_front") ok = len > 0;
                else if (n == "assign_n") op = mk(n, c, iv(any_size(r, most), v));
                else if (n == "assign_own") { ok = len > 0; op = mk(n, c, iv(any_size(r, most), own)); }
                else if (n.compare(0, 12, "assign_range") == 0) { rs = random_runs(r, any_size(r, most)); op = mk(n, c, iv()); }
                else if (n == "write") { ok = len > 0; op = mk(n, c, iv(own, v)); }
                else if (n == "splice_one") { ok = dl > 0; op = mk(n, c, iv(pos, dl ? std::min(any_size(r, dl), dl - 1) : 0)); }
                else if (n == "splice_range") { int p = any_size(r, dl); op = mk(n, c, iv(pos, p, p + any_size(r, dl - p))); }
                else if (n == "splice_self_one") { ok = len > 0; op = mk(n, c, iv(pos, own)); }
                else if (n == "splice_self_range") { int p = any_size(r, len), q = p + any_size(r, len - p); ok = pos < p || pos >= q; op = mk(n, c, iv(pos, p, q)); }
                if (n.compare(0, 7, "splice_") == 0 && n.compare(0, 11, "splice_self") != 0 && !eqal) ok = false;
                if (!ok || !wanted<ListSys>(op)) { --i; continue; }
                const str sr = runs_json(rs);
                const Op shown = op;
                op.s = unroll(rs);
                long fa = 0, fe = 0;
                int q = r.below(8), w = n == "insert_n" || n == "insert_n_own" ? op.x[1] : n == "assign_n" || n == "assign_own" ? op.x[0] : n == "copy" || n == "insert_range_other" ? dl : n == "copy_self" ? len : int(op.s.size());
                if (q == 0) fa = 1 + any_size(r, w);
                else if (q == 1) fe = 1 + any_size(r, w);
                hist += " " + op.txt + (rs.empty() ? str("") : "runs" + sr) + (fa ? "!alloc" + itos(fa) : "") + (fe ? "!elem" + itos(fe) : "");
                g_op = n; g_fault = fa ? "alloc" : fe ? "elem" : "none"; g_row = done;
                set_case("runs seed=" + itos(seed) + ":" + hist);
                ++g_cases;
                F.request(fa, fe);
                sys.before();
                str err = "none", ret;
                long made = g_elem_copies + g_elem_moves;
                sys.apply(op, err, ret);
                made = g_elem_copies + g_elem_moves - made;
                str f = F.fired();
                g_fault = f;
                err = norm_err(f, err);
                if (f != "none") { ++g_fired; ret = ""; }
                record_runs(sys, shown, sr, f, err, ret, F.n_alloc, made);
                if (!sys.accounts()) break;
            }
            F.request(0, 0);
        }
        globals_clean("after the containers were destroyed");
    }
}

// one very long list
static void bulk_stage(int k, const str& stage, std::vector<long>& ret)
{
    str r; for (size_t i = 0; i < ret.size(); ++i) r += (i ? "," : "") + itos(ret[i]);
    TR.line(jop(mk(stage, 1, iv(k))) + ",\"f\":\"none\",\"ret\":[" + r + "]}");
    ret.clear();
}
static void bulk_look(L& x, std::vector<long>& ret) { long n = 0; for (L::const_iterator i = x.cbegin(); i != x.cend(); ++i) ++n; ret.push_back(long(x.size())); ret.push_back(n); }
static void bulk_op(const char* n, int k) { g_op = n; g_fault = "none"; set_case(str(n) + " on a list of " + itos(k) + " elements"); ++g_cases; }
// elements of x which are out of order, or equivalent and not in the order of at (or not in at)
static long bulk_wrong(L& x, const std::map<const Elem*, long>& at)
{
    long wrong = 0; const Elem* prev = 0; long pa = 0;
    for (L::iterator i = x.begin(); i != x.end(); prev = &*i, ++i)
    {
        std::map<const Elem*, long>::const_iterator f = at.find(&*i);
        if (f == at.end()) { ++wrong; pa = -1; continue; }
        if (prev && (val(*prev) > val(*i) || (val(*prev) == val(*i) && pa > f->second))) ++wrong;
        pa = f->second;
    }
    return wrong;
}
static void bulk_trace(int k)
{
    {
        ListSys sys; sys.materialize("||1,1", 0); sys.before();
        g_op = "fresh"; set_case("fresh lists"); record(sys, mk("fresh", 1), "none", "none", "", 0, 0);
        Err e; std::vector<long> ret;
        L& a = sys.l(1); L& b = sys.l(2);
        bulk_op("bulk_fill", k);
        for (int i = 0; i < k && !e; ++i) { Tmp t(i % 7); if (i < k / 2) a.push_back_nothrow(e, static_cast<const Elem&>(t.e)); else a.push_front_nothrow(e, static_cast<const Elem&>(t.e)); }
        if (e) diverge("spurious-error", "append reported " + err_kind(e));
        bulk_look(a, ret);
        long wrong = 0, j = k - 1;
        for (L::iterator i = a.begin(); i != a.end(); ++i) { if (val(*i) != int(j % 7)) ++wrong; if (j == k / 2) j = 0; else if (j > k / 2) --j; else ++j; }
        ret.push_back(wrong);
        bulk_stage(k, "bulk_fill", ret);
        std::map<const Elem*, long> at; j = 0;
        for (L::iterator i = a.begin(); i != a.end(); ++i) at[&*i] = j++;
        bulk_op("bulk_sort", k);
        a.sort();
        bulk_look(a, ret); ret.push_back(bulk_wrong(a, at));
        bulk_stage(k, "bulk_sort", ret);
        bulk_op("bulk_splice", k);
        b.splice(b.cend(), a);
        bulk_look(a, ret); bulk_look(b, ret);
        { L::const_iterator p = b.cbegin(); for (int i = 0; i < 10; ++i) ++p; a.splice(a.cbegin(), b, p, b.cend()); }
        ret.push_back(long(a.size())); bulk_look(b, ret);
        bulk_stage(k, "bulk_splice", ret);
        // every second element to the other list, then back
        bulk_op("bulk_merge", k);
        b.splice(b.cend(), a); b.sort();
        { L::const_iterator p = b.cbegin(); while (p != b.cend()) { L::const_iterator q = p; ++q; if (q == b.cend()) break; L::const_iterator n = q; ++n; a.splice(a.cend(), b, q); p = n; } }
        ret.push_back(long(a.size())); ret.push_back(long(b.size()));
        at.clear(); j = 0;
        for (L::iterator i = a.begin(); i != a.end(); ++i) at[&*i] = j++;
        for (L::iterator i = b.begin(); i != b.end(); ++i) at[&*i] = j++;
        a.merge(b);
        bulk_look(a, ret); bulk_look(b, ret); ret.push_back(bulk_wrong(a, at));
        bulk_stage(k, "bulk_merge", ret);
        bulk_op("bulk_erase", k);
        a.erase(a.cbegin(), a.cend());
        bulk_look(a, ret);
        bulk_stage(k, "bulk_erase", ret);
        sys.accounts();
    }
    globals_clean("after the containers were destroyed");
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    str mode = a.get("mode", "exh");
    if (mode == "trace" || mode == "sort" || mode == "bulk" || mode == "runs")
    {
        TR.open(a.get("trace", ""));
        if (mode == "trace") trace(uint64_t(a.num("seed", 1)), a.num("steps", 1500), int(a.num("maxlen", 40)), a.num("big", 0) != 0);
        else if (mode == "runs") runs_trace(uint64_t(a.num("seed", 1)), a.num("steps", 100), int(a.num("most", 70000)));
        else if (mode == "bulk") bulk_trace(int(a.num("n", 70000)));
        else sort_trace(uint64_t(a.num("seed", 1)), int(a.num("n", 90)));
        TR.close();
        finish();
    }
    Table t(a.get("table", "").c_str());
    if (mode == "exh") exhaustive<ListSys>(t, 1, int(a.num("part", 0)), int(a.num("parts", 1)), a.num("from", 0));
    else if (mode == "walk") walks<ListSys>(t, uint64_t(a.num("seed", 1)), a.num("steps", 20000), int(a.num("len", 60)), a.get("start", "||1,1"));
    finish();
}
