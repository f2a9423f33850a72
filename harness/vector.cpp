// Conformance adapter for nestl::vector (contract: spec/NestlVector.tla).
#include "common.hpp"
#include <nestl/vector.hpp>

typedef TrackAlloc<Elem> Alloc;
typedef nestl::vector<Elem, Alloc> V;

static str aname(int c) { return c == 1 ? "first" : "second"; }

struct VecSys
{
    typename std::aligned_storage<sizeof(V), alignof(V)>::type mem[2];
    bool alive[2];
    V& v(int c) { return *reinterpret_cast<V*>(&mem[c - 1]); }
    VecSys() { alive[0] = alive[1] = false; }
    ~VecSys() { teardown(); }
    void teardown() { for (int c = 1; c <= 2; ++c) kill(c); }
    void kill(int c) { if (alive[c - 1]) { v(c).~V(); alive[c - 1] = false; } }
    void make(int c, int al) { Alloc a(al); ::new(&mem[c - 1]) V(a); alive[c - 1] = true; }

    static bool has_alloc_field() { return true; }
    static bool st_match(const str& want, const str& now) { return want == now; }
    static bool supports(const Op& op)
    {
#if !NESTL_HAS_EXCEPTIONS
        if (op.n.compare(0, 2, "t_") == 0) return false;
#endif
#if ELEM_KIND == 1
        if (op.n == "assign_n_default") return false;   // the default argument is evaluated by the caller
#endif
#ifdef MIN_ALLOC
        if (op.n == "move_assign" || op.n == "move_self" || op.n == "t_move_noexcept") return false;   // only for allocators which propagate on move assignment
#endif
#if ELEM_KIND == 3
        if (op.n == "push_back_mv" || op.n == "insert_mv" || op.n == "t_push_back_mv") return false;
#endif
        return true;
    }

    // "q1|q2|a1,a2"
    void materialize(const str& s, int flavor)
    {
        teardown();
        std::vector<str> p = split(s, '|');
        std::vector<int> al = ints(p[2]);
        for (int c = 1; c <= 2; ++c)
        {
            std::vector<int> q = ints(p[c - 1]);
            make(c, al[c - 1]);
            Err e;
            size_t slack = flavor == 0 ? 0 : flavor == 1 ? 1 : 4;
            if (q.size() + slack) v(c).reserve_nothrow(e, q.size() + slack);
            for (size_t i = 0; i < q.size() && !e; ++i) { v(c).emplace_back_nothrow(e); if (!e) setv(v(c)[i], q[i]); }
            if (e) { diverge("spurious-error", "error while building the initial state: " + err_kind(e)); }
        }
    }
    const V* d0[2]; const Elem* data0[2]; size_t cap0[2];
    void before()
    {
        for (int c = 1; c <= 2; ++c) { cap0[c - 1] = v(c).capacity(); data0[c - 1] = v(c).begin(); }
    }
    static str seq(V& x, str& bad)
    {
        const V& cx = x;
        std::vector<int> a;
        size_t n = x.size();
        if (n > 1000000) { bad = "size() is " + itos((long long)n); return "?"; }
        if (x.empty() != (n == 0)) bad = "empty() disagrees with size()";
        if (x.capacity() < n) bad = "capacity() smaller than size()";
        for (V::iterator i = x.begin(); i != x.end(); ++i) { use_live(&*i, "access"); a.push_back(val(*i)); }
        if (a.size() != n) bad = "iteration length disagrees with size()";
        if (a.size() != n) return join(a);
        if (!walk_all(x.begin(), x.end(), a, show)) bad = "iteration differs";
        if (!walk_all(cx.begin(), cx.end(), a, show)) bad = "const iteration differs";
        if (!walk_all(cx.cbegin(), cx.cend(), a, show)) bad = "cbegin iteration differs";
        {
            std::vector<int> z(a.rbegin(), a.rend());
            if (!walk_all(x.rbegin(), x.rend(), z, show)) bad = "reverse iteration differs";
            if (!walk_all(cx.rbegin(), cx.rend(), z, show)) bad = "const reverse iteration differs";
            if (!walk_all(cx.crbegin(), cx.crend(), z, show)) bad = "crbegin iteration differs";
        }
        {   // an iterator converts to a const_iterator for the same element
            V::iterator p = x.begin(); V::const_iterator q = cx.begin(), r(p); 
            for (size_t k = 0; k <= n; ++k) { V::const_iterator c(p); if (!(c == q) || c != q || (k < n && &*c != &*p)) { bad = "iterator and const_iterator differ"; break; }
                bool same = p == q && !(p != q) && q == p && !(q != p);
                if (k < n) { ++q; same = same && !(p == q) && p != q && !(q == p) && q != p; ++p; }
                if (!same) { bad = "comparison of iterator and const_iterator"; break; } }
            r = x.end(); if (!(r == cx.end())) bad = "iterator and const_iterator differ";
        }
        for (size_t i = 0; i < n && i < a.size(); ++i) if (val(x[i]) != a[i] || val(cx[i]) != a[i]) bad = "operator[] differs from iteration";
        if (n && a.size() == n)
        {
            if (val(x.front()) != a[0] || val(cx.front()) != a[0]) bad = "front() differs";
            if (val(x.back()) != a[n - 1] || val(cx.back()) != a[n - 1]) bad = "back() differs";
#if !NESTL_HAS_EXCEPTIONS
            if (val(x.data()[0]) != a[0] || cx.data() != cx.begin()) bad = "data() differs";
#endif
        }
        return join(a);
    }
    str observe()
    {
        str bad;
        str r = seq(v(1), bad) + "|" + seq(v(2), bad) + "|" + itos(v(1).get_allocator().id) + "," + itos(v(2).get_allocator().id);
        if (!bad.empty()) diverge("contents", "inconsistent observers: " + bad);
        return r;
    }
    str origins() { return ""; }
    bool iterators_ok(const str&) { return true; }
    bool accounts()
    {
        if (live_count(v(1).size() + v(2).size()) != v(1).size() + v(2).size())
        {
            diverge("lifetime", itos(g_live.size()) + " live elements while the vectors hold " + itos(v(1).size() + v(2).size()));
            return false;
        }
        long leaves = 0;
        for (int c = 1; c <= 2; ++c) for (V::iterator i = v(c).begin(); i != v(c).end(); ++i) leaves += leaves_of(val(*i));
        if (!nested_accounts(leaves)) return false;
        if (g_blocks.size() > 2) { diverge("leak", itos(g_blocks.size()) + " blocks allocated for two vectors"); return false; }
        for (int c = 1; c <= 2; ++c)
            if (v(c).capacity())
            {
                const std::pair<const uintptr_t, Block>* b = block_of(v(c).begin());
                if (!b || b->first != reinterpret_cast<uintptr_t>(v(c).begin()) || b->second.n < v(c).capacity())
                { diverge("lifetime", "storage of the " + aname(c) + " vector is not an allocated block of capacity() elements"); return false; }
                if (b->second.owner != v(c).get_allocator().id)
                { diverge("allocator", "storage of the " + aname(c) + " vector comes from allocator " + itos(b->second.owner) + " but it holds allocator " + itos(v(c).get_allocator().id)); return false; }
            }
        return true;
    }

    void apply(const Op& op, str& err, str& ret)
    {
        const int c = op.c, d = 3 - c;
        V& a = v(c); V& b = v(d);
        Err e;
        const str& n = op.n;
        const std::vector<int>& x = op.x;
        std::vector<int> sv = op.s;
        long r = -1; int mv = -1;
        if (n == "push_back") { Tmp t(x[0]); Armed g; a.push_back_nothrow(e, static_cast<const Elem&>(t.e)); }
        else if (n == "emplace_back") { Tmp t(x[0]); Armed g; a.emplace_back_nothrow(e, EMPL(t, x[0])); }
#if ELEM_KIND != 3
        else if (n == "push_back_mv") { Tmp t(x[0]); { Armed g; a.push_back_nothrow(e, std::move(t.e)); } mv = t.handed(); }
        else if (n == "insert_mv") { Tmp t(x[1]); { Armed g; r = a.insert_nothrow(e, a.cbegin() + x[0], std::move(t.e)) - a.begin(); } mv = t.handed(); }
#endif
        else if (n == "push_own") { Armed g; a.push_back_nothrow(e, static_cast<const Elem&>(a[x[0]])); }
        else if (n == "emplace_own") { Armed g; a.emplace_back_nothrow(e, static_cast<const Elem&>(a[x[0]])); }
        else if (n == "insert") { Tmp t(x[1]); { Armed g; r = a.insert_nothrow(e, a.cbegin() + x[0], static_cast<const Elem&>(t.e)) - a.begin(); } }
        else if (n == "insert_own") { Armed g; r = a.insert_nothrow(e, a.cbegin() + x[0], static_cast<const Elem&>(a[x[1]])) - a.begin(); }
        else if (n == "insert_range") { Src s(sv); Armed g; a.insert_nothrow(e, a.cbegin() + x[0], s.b(), s.e()); }
        else if (n == "insert_range_in") { Src s(sv); Armed g; a.insert_nothrow(e, a.cbegin() + x[0], InIt(s.b()), InIt(s.e())); }
        else if (n == "insert_range_bi") { Src s(sv); Armed g; a.insert_nothrow(e, a.cbegin() + x[0], BiIt(s.b()), BiIt(s.e())); }
        else if (n == "resize") { Armed g; a.resize_nothrow(e, x[0]); }
        else if (n == "resize_v") { Tmp t(x[1]); Armed g; a.resize_nothrow(e, x[0], t.e); }
        else if (n == "resize_own") { Armed g; a.resize_nothrow(e, x[0], a[x[1]]); }
        else if (n == "reserve") { Armed g; a.reserve_nothrow(e, x[0]); }
        else if (n == "shrink") { Armed g; a.shrink_to_fit_nothrow(e); }
        else if (n == "clear") { Armed g; a.clear(); }
        else if (n == "assign_n") { Tmp t(x[1]); Armed g; a.assign_nothrow(e, size_t(x[0]), t.e); }
#if ELEM_KIND != 1
        else if (n == "assign_n_default") { Armed g; a.assign_nothrow(e, size_t(x[0])); }
#endif
        else if (n == "assign_own") { Armed g; a.assign_nothrow(e, size_t(x[0]), a[x[1]]); }
        else if (n == "assign_range") { Src s(sv); Armed g; a.assign_nothrow(e, s.b(), s.e()); }
        else if (n == "assign_range_in") { Src s(sv); Armed g; a.assign_nothrow(e, InIt(s.b()), InIt(s.e())); }
        else if (n == "assign_range_bi") { Src s(sv); Armed g; a.assign_nothrow(e, BiIt(s.b()), BiIt(s.e())); }
        else if (n == "write") { setv(a[x[0]], x[1]); }
        else if (n == "copy") { Armed g; a.copy_nothrow(e, static_cast<const V&>(b)); }
        else if (n == "copy_self") { Armed g; a.copy_nothrow(e, static_cast<const V&>(a)); }
        else if (n == "swap") { Armed g; a.swap(b); }
        else if (n == "swap_self") { Armed g; a.swap(a); }
#ifndef MIN_ALLOC
        else if (n == "move_assign") { Armed g; a = std::move(b); }
#endif
#ifndef MIN_ALLOC
        else if (n == "move_self") { Armed g; V& alias = a; a = std::move(alias); }
#endif
        else if (n == "mctor") { kill(d); { Armed g; ::new(&mem[d - 1]) V(std::move(a)); } alive[d - 1] = true; }
        else if (n == "eq") { Armed g; r = v(1) == v(2); }
        else if (n == "eq_self") { Armed g; r = a == a; }
        else if (n == "eq_seq")
        {
            V w(a.get_allocator()); Err e2;
            for (size_t i = 0; i < sv.size() && !e2; ++i) { w.emplace_back_nothrow(e2); if (!e2) setv(w[i], sv[i]); }
            if (e2) diverge("spurious-error", "error while building a vector to compare with: " + err_kind(e2));
            const V& l = a; const V& m = w; bool p, q;
            { Armed g; p = l == m; q = m == l; }
            ret = itos(p) + "," + itos(q); return;
        }
#if NESTL_HAS_EXCEPTIONS
        else if (n.compare(0, 2, "t_") == 0)
        {
            std::exception_ptr ep;
            int ald = b.get_allocator().id;
            if (n == "t_push_back") { Tmp t(x[0]); Armed g; try { a.push_back(static_cast<const Elem&>(t.e)); } catch (...) { ep = std::current_exception(); } }
            else if (n == "t_push_own") { Armed g; try { a.push_back(static_cast<const Elem&>(a[x[0]])); } catch (...) { ep = std::current_exception(); } }
#if ELEM_KIND != 3
            else if (n == "t_push_back_mv") { Tmp t(x[0]); { Armed g; try { a.push_back(std::move(t.e)); } catch (...) { ep = std::current_exception(); } } ret = itos(t.handed()); }
#endif
            else if (n == "t_copy_assign") { Armed g; try { a = static_cast<const V&>(b); } catch (...) { ep = std::current_exception(); } }
            else if (n == "t_copy_assign_self") { Armed g; try { V& alias = a; a = static_cast<const V&>(alias); } catch (...) { ep = std::current_exception(); } }
            else if (n == "t_copy_noexcept") { Armed g; try { a = static_cast<const V&>(b).as_noexcept(); } catch (...) { ep = std::current_exception(); } }
#ifndef MIN_ALLOC
            else if (n == "t_move_noexcept") { Armed g; a = std::move(b.as_noexcept()); }
#endif
            else if (n == "t_copy_ctor" || n == "t_copy_ctor_noexcept")
            {
                kill(d);
                bool ok = false;
                {
                    Armed g;
                    try
                    {
                        if (n == "t_copy_ctor") ::new(&mem[d - 1]) V(static_cast<const V&>(a));
                        else ::new(&mem[d - 1]) V(static_cast<const V&>(a).as_noexcept());
                        ok = true;
                    }
                    catch (...) { ep = std::current_exception(); }
                }
                if (ok) alive[d - 1] = true; else make(d, ald);
            }
            else if (n == "t_move_ctor_noexcept") { kill(d); { Armed g; ::new(&mem[d - 1]) V(std::move(a.as_noexcept())); } alive[d - 1] = true; }
            else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
            err = classify(ep);
            return;
        }
#endif
        else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
        err = err_kind(e);
        if (r >= 0 || n == "insert" || n == "insert_mv" || n == "insert_own") ret = itos(r);
        if (mv >= 0) ret += (ret.empty() ? "" : ",") + itos(mv);
    }
};


// ---------------------------------------------------------------- recording histories
static std::vector<int> contents(V& x) { std::vector<int> a; for (V::iterator i = x.begin(); i != x.end(); ++i) a.push_back(val(*i)); return a; }

static void record(VecSys& sys, const Op& op, const str& f, const str& err, const str& ret, long na)
{
    std::vector<int> q[2]; int cap[2], moved[2];
    for (int c = 1; c <= 2; ++c)
    {
        if (sys.v(c).size() > 100000) { diverge("contents", "size() is " + itos((long long)sys.v(c).size())); finish(); }
        q[c - 1] = contents(sys.v(c));
        cap[c - 1] = int(std::min<size_t>(sys.v(c).capacity(), 2000000000));
        moved[c - 1] = sys.cap0[c - 1] != 0 && sys.data0[c - 1] != sys.v(c).begin();
    }
    mem_quiet(sys.v(1), cap[0], sys.v(2), cap[1]);
    TR.line(jop(op) + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"q1\":" + jarr(q[0]) + ",\"q2\":" + jarr(q[1]) +
            ",\"al\":[" + itos(sys.v(1).get_allocator().id) + "," + itos(sys.v(2).get_allocator().id) + "],\"cap\":[" + itos(cap[0]) + "," + itos(cap[1]) +
            "],\"na\":" + itos(na) + ",\"moved\":[" + itos(moved[0]) + "," + itos(moved[1]) + "]}");
}

static void trace(uint64_t seed, long steps, int maxlen, bool big, bool vast = false)
{
    Rng r(seed);
    static const char* names[] = {
        "push_back", "push_back", "push_back", "emplace_back", "emplace_back", "push_back_mv", "push_own", "emplace_own", "insert", "insert", "insert_mv", "insert_own",
        "insert_range", "insert_range_in", "insert_range_bi", "resize", "resize_v", "resize_own", "reserve", "reserve", "shrink", "clear",
        "assign_n", "assign_n_default", "assign_own", "assign_range", "assign_range_in", "assign_range_bi", "write", "copy", "copy_self", "swap", "swap_self",
        "move_assign", "mctor", "eq", "eq_seq", "eq_seq", "t_push_back", "t_push_own", "t_push_back_mv", "t_copy_assign", "t_copy_assign_self", "t_copy_noexcept",
        "t_move_noexcept", "t_copy_ctor", "t_copy_ctor_noexcept", "t_move_ctor_noexcept" };
    const int nn = sizeof names / sizeof *names;
    long done = 0;
    while (done < steps)
    {
        {
            VecSys sys;
            str al = r.below(2) ? "1,1" : "1,2";
            sys.materialize("||" + al, 0);
            sys.teardown();
            { std::vector<int> a = ints(al); sys.make(1, a[0]); sys.make(2, a[1]); }
            sys.before();
            g_case = "fresh vectors"; g_op = "fresh"; record(sys, mk("fresh", 1), "none", "none", "", 0);
            str hist;
            const int scale = big ? maxlen / 40 : 1;       // sizes of ranges and counts
            for (int i = 0; i < 120 && done < steps; ++i, ++done)
            {
                str n = names[r.below(nn)];
                int c = r.below(4) == 0 ? 2 : 1;
                if (big && i < 2) { n = "assign_range"; c = i + 1; }
                if (big && n == "clear" && r.below(3)) n = "shrink";
                if (vast)
                {
                    static const char* far[] = { "assign_range", "insert_range", "insert", "insert_range_in", "push_own", "insert_own", "copy", "insert_range_bi", "resize_v", "write" };
                    c = i % 10 == 6 ? 2 : 1; n = far[i % 10];
                }
                int len = int(sys.v(c).size());
                int v = 1 + r.below(9);
                if (!vast && len >= maxlen && n != "swap") { n = r.below(2) ? "clear" : "resize"; }
                Op op = mk(n, c);
                bool ok = true;
                if (n == "push_back" || n == "push_back_mv" || n == "emplace_back" || n == "t_push_back" || n == "t_push_back_mv") op = mk(n, c, iv(v));
                else if (n == "push_own" || n == "emplace_own" || n == "t_push_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len))); }
                else if (n == "insert" || n == "insert_mv") op = mk(n, c, iv(r.below(len + 1), v));
                else if (n == "insert_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len + 1), r.below(len))); }
                else if (n.compare(0, 12, "insert_range") == 0) { std::vector<int> s; for (int k = r.below(7 * scale); k > 0; --k) s.push_back(1 + r.below(9)); op = mk(n, c, iv(r.below(len + 1)), s); }
                else if (n == "resize") op = mk(n, c, iv(r.below(3) ? r.below(len + 1) : std::min(maxlen, len + r.below(6 * scale))));
                else if (n == "resize_v") op = mk(n, c, iv(std::min(maxlen, r.below(len + 6 * scale)), v));
                else if (n == "resize_own") { if (!len) ok = false; else op = mk(n, c, iv(std::min(maxlen, r.below(len + 6 * scale)), r.below(len))); }
                else if (n == "reserve") op = mk(n, c, iv(r.below(2) ? len + r.below(20 * scale) : r.below(maxlen)));
                else if (n == "assign_n") op = mk(n, c, iv(r.below(20 * scale), v));
                else if (n == "assign_n_default") op = mk(n, c, iv(r.below(20 * scale)));
                else if (n == "assign_own") { if (!len) ok = false; else op = mk(n, c, iv(r.below(20 * scale), r.below(len))); }
                else if (n.compare(0, 12, "assign_range") == 0) { std::vector<int> s; for (int k = r.below(20 * scale); k > 0; --k) s.push_back(1 + r.below(9)); op = mk(n, c, iv(), s); }
                else if (n == "eq_seq") op = mk(n, c, iv(), near(contents(sys.v(c)), r));
                else if (n == "write") { if (!len) ok = false; else op = mk(n, c, iv(r.below(len), v)); }
                if (vast)
                {
                    auto vals = [&](int k) { std::vector<int> w; while (k-- > 0) w.push_back(1 + r.below(9)); return w; };
                    const int at = std::max(0, len - r.below(40));          // beyond 65536
                    if (n == "assign_range") op = mk(n, c, iv(), vals(65600 + r.below(50)));
                    else if (n.compare(0, 12, "insert_range") == 0) op = mk(n, c, iv(at), vals(1 + r.below(4)));
                    else if (n == "insert") op = mk(n, c, iv(at, v));
                    else if (n == "push_own") op = mk(n, c, iv(std::max(0, len - 1 - r.below(40))));
                    else if (n == "insert_own") op = mk(n, c, iv(at, std::max(0, len - 1 - r.below(40))));
                    else if (n == "resize_v") op = mk(n, c, iv(len + 1 + r.below(9), v));
                    else if (n == "write") op = mk(n, c, iv(std::max(0, len - 1 - r.below(40)), v));
                }
                if (!ok || !wanted<VecSys>(op)) { --i; continue; }
                long fa = 0, fe = 0;
                int q = vast ? 7 : r.below(8);
                if (q == 0) fa = 1 + r.below(r.below(3) ? 3 : 8);
                else if (q == 1) fe = 1 + r.below(std::max(2, len + 4));
                hist += " " + op.txt + (fa ? "!alloc" + itos(fa) : "") + (fe ? "!elem" + itos(fe) : "");
                if (hist.size() > 8000) hist = "..." + hist.substr(hist.size() - 6000);
                g_op = n; g_fault = fa ? "alloc" : fe ? "elem" : "none"; g_row = done;
                set_case("trace seed=" + itos(seed) + ":" + hist);
                ++g_cases;
                F.request(fa, fe);
                sys.before();
                str err = "none", ret;
                sys.apply(op, err, ret);
                str f = F.fired();
                g_fault = f;
                err = norm_err(f, err);
                if (f != "none") { ++g_fired; ret = ""; }
                record(sys, op, f, err, ret, F.n_alloc);
                if (!sys.accounts()) break;
            }
            F.request(0, 0);
        }
        globals_clean("after the containers were destroyed");
    }
}

// ---------------------------------------------------------------- very long vectors (spec/NestlRuns.tla)
static void record_runs(VecSys& sys, const Op& op, const str& sr, const str& f, const str& err, const str& ret, long na, long made)
{
    str q[2]; int cap[2], moved[2];
    for (int c = 1; c <= 2; ++c)
    {
        if (sys.v(c).size() > 3000000) { diverge("contents", "size() is " + itos((long long)sys.v(c).size())); finish(); }
        std::vector<int> v = contents(sys.v(c));
        q[c - 1] = runs_json(v, std::vector<long>(v.size(), 0));
        cap[c - 1] = int(std::min<size_t>(sys.v(c).capacity(), 2000000000));
        moved[c - 1] = sys.cap0[c - 1] != 0 && sys.data0[c - 1] != sys.v(c).begin();
    }
    TR.line(jop(op) + ",\"sr\":" + sr + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"q1\":" + q[0] + ",\"q2\":" + q[1] +
            ",\"al\":[" + itos(sys.v(1).get_allocator().id) + "," + itos(sys.v(2).get_allocator().id) + "],\"cap\":[" + itos(cap[0]) + "," + itos(cap[1]) +
            "],\"na\":" + itos(na) + ",\"made\":" + itos(made) + ",\"moved\":[" + itos(moved[0]) + "," + itos(moved[1]) + "]}");
}
static void runs_trace(uint64_t seed, long steps, int most)
{
    Rng r(seed);
    static const char* names[] = {
        "push_back", "emplace_back", "push_back_mv", "push_own", "emplace_own", "insert", "insert", "insert_mv", "insert_own", "insert_own", "insert_range", "insert_range", "insert_range_in", "insert_range_bi",
        "resize", "resize_v", "resize_own", "reserve", "shrink", "clear", "assign_n", "assign_own", "assign_range", "assign_range_in", "assign_range_bi", "write", "copy", "copy_self", "swap", "move_assign", "mctor", "eq", "eq", "eq_self" };
    const int nn = sizeof names / sizeof *names;
    long done = 0;
    while (done < steps)
    {
        {
            VecSys sys;
            sys.make(1, 1); sys.make(2, r.below(2) ? 2 : 1);
            sys.before();
            g_case = "fresh vectors"; g_op = "fresh"; record_runs(sys, mk("fresh", 1), "[]", "none", "none", "", 0, 0);
            str hist;
            for (int i = 0; i < 40 && done < steps; ++i, ++done)
            {
                str n = names[r.below(nn)];
                int c = r.below(4) == 0 ? 2 : 1;
                if (i < 2) { n = "assign_range"; c = i + 1; }
                int len = int(sys.v(c).size()), v = 1 + r.below(50000);
                if (len >= most && n != "swap") n = r.below(2) ? "resize" : "assign_range";
                if (n == "clear" && r.below(3)) n = "shrink";
                Op op = mk(n, c); std::vector<RunOf> rs; bool ok = true;
                int pos = any_size(r, len), own = len ? std::min(any_size(r, len), len - 1) : 0, room = std::max(1, most - len);
                if (n == "push_back" || n == "push_back_mv" || n == "emplace_back") op = mk(n, c, iv(v));
                else if (n == "push_own" || n == "emplace_own") { ok = len > 0; op = mk(n, c, iv(own)); }
                else if (n == "insert" || n == "insert_mv") op = mk(n, c, iv(pos, v));
                else if (n == "insert_own") { ok = len > 0; op = mk(n, c, iv(pos, own)); }
                else if (n.compare(0, 12, "insert_range") == 0) { rs = random_runs(r, any_size(r, std::min(std::min(room, most / 4), 2000000 / (len - pos + 1)))); op = mk(n, c, iv(pos)); }
                else if (n == "resize") op = mk(n, c, iv(r.below(3) ? pos : len + any_size(r, std::min(room, most / 2))));
                else if (n == "resize_v") op = mk(n, c, iv(len + any_size(r, std::min(room, most / 2)), v));
                else if (n == "resize_own") { ok = len > 0; op = mk(n, c, iv(len + any_size(r, std::min(room, most / 2)), own)); }
                else if (n == "reserve") op = mk(n, c, iv(any_size(r, most)));
                else if (n == "assign_n") op = mk(n, c, iv(any_size(r, most), v));
                else if (n == "assign_own") { ok = len > 0; op = mk(n, c, iv(any_size(r, most), own)); }
                else if (n.compare(0, 12, "assign_range") == 0) { rs = random_runs(r, any_size(r, most)); op = mk(n, c, iv()); }
                else if (n == "write") { ok = len > 0; op = mk(n, c, iv(own, v)); }
                if (!ok || !wanted<VecSys>(op)) { --i; continue; }
                const str sr = runs_json(rs);
                const Op shown = op;
                op.s = unroll(rs);
                long fa = 0, fe = 0;
                int q = r.below(8);
                if (q == 0) fa = 1;
                else if (q == 1) fe = 1 + any_size(r, int(op.s.size()) + len);
                hist += " " + op.txt + (rs.empty() ? str("") : "runs" + sr) + (fa ? "!alloc" + itos(fa) : "") + (fe ? "!elem" + itos(fe) : "");
                g_op = n; g_fault = fa ? "alloc" : fe ? "elem" : "none"; g_row = done;
                set_case("runs seed=" + itos(seed) + ":" + hist);
                ++g_cases;
                F.request(fa, fe);
                sys.before();
                str err = "none", ret;
                long made = g_elem_copies + g_elem_moves;
                sys.apply(op, err, ret);
                made = g_elem_copies + g_elem_moves - made;
                str f = F.fired();
                g_fault = f;
                err = norm_err(f, err);
                if (f != "none") { ++g_fired; ret = ""; }
                record_runs(sys, shown, sr, f, err, ret, F.n_alloc, made);
                if (!sys.accounts()) break;
            }
            F.request(0, 0);
        }
        globals_clean("after the containers were destroyed");
    }
}

// reallocations while the size grew past 2^k, up to 2^(k+1), for k = 0, 1, ...
template <typename W> static std::vector<int> count_reallocs(W& w, long n, int how)
{
    std::vector<int> re; Err e;
    const void* at = 0; size_t cap = 0;
    for (long i = 0; i < n; ++i)
    {
        if (how == 0) { Tmp t(int(i % 9)); w.push_back_nothrow(e, static_cast<const Elem&>(t.e)); }
        else if (how == 1) { Tmp t(int(i % 9)); w.emplace_back_nothrow(e, EMPL(t, int(i % 9))); }
        else { Tmp t(int(i % 9)); w.insert_nothrow(e, w.cend(), static_cast<const Elem&>(t.e)); }
        if (e) { diverge("spurious-error", "append reported " + err_kind(e)); return re; }
        if (w.capacity() != cap || static_cast<const void*>(w.begin()) != at) { size_t k = 0; while ((2L << k) < i + 1) ++k; if (re.size() <= k) re.resize(k + 1, 0); ++re[k]; cap = w.capacity(); at = w.begin(); }
    }
    bool good = long(w.size()) == n;
    for (long i = 0; good && i < n; ++i) good = val(w[i]) == int(i % 9);
    if (!good) diverge("contents", "contents wrong after a long run of appends");
    return re;
}

static const size_t HUGE_SIZES[] = {
    size_t(1) << 50, (size_t(1) << 60) - 1, size_t(1) << 60, (size_t(1) << 61) - 1, size_t(1) << 61, (size_t(1) << 61) + 1, (size_t(1) << 61) + 3,
    (size_t(1) << 61) + 8, size_t(1) << 62, (size_t(1) << 62) + 2, size_t(1) << 63, (size_t(1) << 63) + 4, ~size_t(0) / 8, ~size_t(0) / 8 + 2, ~size_t(0) - 7, ~size_t(0) - 1, ~size_t(0) };

template <typename W> static void huge_on(VecSys& sys, W& w, bool rec, const char* who)
{
    for (size_t k = 0; k < sizeof HUGE_SIZES / sizeof *HUGE_SIZES; ++k)
        for (int how = 0; how < 4; ++how)
        {
            static const char* nm[] = { "huge_reserve", "huge_resize", "huge_resize_v", "huge_assign_n" };
            Err e; Tmp t(3);
            g_op = nm[how]; g_fault = "size"; set_case(str(who) + " " + nm[how] + " size #" + itos(k)); ++g_cases;
            sys.before();
            F.request(0, 0);
            size_t cap0 = w.capacity(); std::vector<int> q0; for (typename W::iterator i = w.begin(); i != w.end(); ++i) q0.push_back(val(*i));
            { Armed g;
              if (how == 0) w.reserve_nothrow(e, HUGE_SIZES[k]);
              else if (how == 1) w.resize_nothrow(e, HUGE_SIZES[k]);
              else if (how == 2) w.resize_nothrow(e, HUGE_SIZES[k], t.e);
              else w.assign_nothrow(e, HUGE_SIZES[k], t.e); }
            str err = err_kind(e);
            if (rec) record(sys, mk(nm[how], 1, iv(int(k))), "size", err, "", F.n_alloc);
            else
            {
                std::vector<int> q; if (w.size() < 1000) for (typename W::iterator i = w.begin(); i != w.end(); ++i) q.push_back(val(*i));
                // replayed through the second vector's slot: the same contract, recorded as vector 1
                int cap = int(std::min<size_t>(w.capacity(), 2000000000));
                if (w.size() >= 1000) q.assign(1, -1);
                TR.line(jop(mk(nm[how], 1, iv(int(k)))) + ",\"f\":\"size\",\"err\":\"" + err + "\",\"ret\":[],\"q1\":" + jarr(q) + ",\"q2\":[],\"al\":[1,1],\"cap\":[" + itos(cap) + ",0],\"na\":0,\"moved\":[0,0]}");
                (void)cap0;
            }
            if (err == "none") return;      // do not touch a vector which claims to be that large
            Err e2;
            if (how == 3) { w.assign_nothrow(e2, size_t(3), t.e);
                if (rec) record(sys, mk("assign_n", 1, iv(3, 3)), "none", err_kind(e2), "", 1);
                else TR.line(jop(mk("assign_n", 1, iv(3, 3))) + ",\"f\":\"none\",\"err\":\"" + err_kind(e2) + "\",\"ret\":[],\"q1\":[" + (w.size() == 3 ? str("3,3,3") : str("-1")) + "],\"q2\":[],\"al\":[1,1],\"cap\":[" + itos((long long)w.capacity()) + ",0],\"na\":1,\"moved\":[1,0]}"); }
        }
}

static void capacity_trace(long n)
{
    {
        VecSys sys; sys.make(1, 1); sys.make(2, 1); sys.before();
        g_op = "fresh"; set_case("fresh"); record(sys, mk("fresh", 1), "none", "none", "", 0);
        for (int how = 0; how < 3; ++how)
        {
            V w((Alloc(5)));
            g_op = "grow"; g_fault = "none"; set_case("append " + itos(n) + " elements, method " + itos(how)); ++g_cases;
            std::vector<int> re = count_reallocs(w, n, how);
            record(sys, mk("grow", 1, iv(int(n), how), re), "none", "none", "", 0);
        }
        huge_on(sys, sys.v(1), true, "tracking allocator");
        F.request(0, 0);
    }
    globals_clean("capacity trace");
    if (alignof(Elem) <= 16)
    {
        VecSys sys; sys.make(1, 1); sys.make(2, 1); sys.before();
        record(sys, mk("fresh", 1), "none", "none", "", 0);
        nestl::vector<Elem> w;
        huge_on(sys, w, false, "nestl::allocator");
        F.request(0, 0);
    }
    globals_clean("capacity trace");
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    str mode = a.get("mode", "exh");
    if (mode == "trace" || mode == "cap" || mode == "runs")
    {
        TR.open(a.get("trace", ""));
        if (mode == "trace") trace(uint64_t(a.num("seed", 1)), a.num("steps", 1500), int(a.num("maxlen", 40)), a.num("big", 0) != 0, a.num("vast", 0) != 0);
        else if (mode == "runs") runs_trace(uint64_t(a.num("seed", 1)), a.num("steps", 100), int(a.num("most", 70000)));
        else capacity_trace(a.num("n", 100000));
        TR.close();
        finish();
    }
    Table t(a.get("table", "").c_str());
    if (mode == "exh") exhaustive<VecSys>(t, int(a.num("flavors", 3)), int(a.num("part", 0)), int(a.num("parts", 1)), a.num("from", 0));
    else if (mode == "walk") walks<VecSys>(t, uint64_t(a.num("seed", 1)), a.num("steps", 20000), int(a.num("len", 60)), a.get("start", "||1,1"));
    finish();
}
