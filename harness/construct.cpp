// Conformance adapter for the construction protocol (contract: spec/NestlConstruct.tla).
// Every behaviour of the specification is replayed with a type of its profile, in
// raw storage, in container nodes and in make_shared.
#include "common.hpp"
#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/shared_ptr.hpp>

static str g_log;
static std::map<const void*, int> g_probes;   // 1: alive, 2: left behind by a relocation
static void ev(const str& s) { if (!g_log.empty()) g_log += ";"; g_log += s; }

struct Arg { int v; };
template <typename A> struct Cat { static const char c = 0; };
template <> struct Cat<const Arg&> { static const char c = 'c'; };
template <> struct Cat<Arg&> { static const char c = 'l'; };
template <> struct Cat<Arg> { static const char c = 'r'; };

// each argument as it arrives: category, and its value if it is not the expected one
inline void show(str&, int) {}
template <typename A, typename... R> void show(str& s, int pos, A&& a, R&&... r)
{
    if (pos) s += ",";
    s += str(1, Cat<A>::c);
    if (a.v != 40 + pos) s += "=" + itos(a.v);
    show(s, pos + 1, std::forward<R>(r)...);
}
template <typename... A> str shown(A&&... a) { str s = "("; show(s, 0, std::forward<A>(a)...); return s + ")"; }

static void born(const void* p) { if (!g_probes.insert(std::make_pair(p, 1)).second) diverge("lifetime", "object constructed over a live object"); }
static void alive(const void* p, const char* what) { if (!g_probes.count(p)) diverge("lifetime", str(what) + " of an object which is not alive"); }

// the log follows the object: the original's destruction is not an event
static void relocate(const void* from, const void* to) { alive(from, "relocation"); born(to); g_probes[from] = 2; }
struct Tag {};
template <int F_> struct Base;
template <> struct Base<0> { Base() = delete; explicit Base(Tag) NESTL_NOEXCEPT_SPEC {} };
template <> struct Base<1> { Base() NESTL_NOEXCEPT_SPEC { ev("default()"); born(this); } explicit Base(Tag) NESTL_NOEXCEPT_SPEC {} };
#if NESTL_HAS_EXCEPTIONS
template <> struct Base<2>
{
    Base() { if (F.hit_elem()) { ev("default!()"); throw_elem(); } ev("default()"); born(this); }
    explicit Base(Tag) NESTL_NOEXCEPT_SPEC {}
};
#endif

constexpr bool accepts(int m, char c) { return c != 0 && (m == 0 || (m == 1 ? c == 'r' : c != 'r')); }
template <int D, int M, int DF, int I> struct Probe : Base<DF>
{
    int v;
    Probe() = default;
    template <typename A, typename... R, typename = typename std::enable_if<D != 0 && accepts(M, Cat<A>::c)>::type>
    explicit Probe(A&& a, R&&... r) noexcept(D == 1) : Base<DF>(Tag()), v(0)
    {
        str s = shown(std::forward<A>(a), std::forward<R>(r)...);
#if NESTL_HAS_EXCEPTIONS
        if (D == 2 && F.hit_elem()) { ev("direct!" + s); throw_elem(); }
#endif
        ev("direct" + s); born(this); v = 1;
    }
    Probe(Probe&& o) NESTL_NOEXCEPT_SPEC : Base<DF>(Tag()), v(o.v) { relocate(&o, this); }
    Probe(const Probe& o) NESTL_NOEXCEPT_SPEC : Base<DF>(Tag()), v(o.v) { relocate(&o, this); }
    Probe& operator=(const Probe&) = delete;
    ~Probe()
    {
        if (g_probes[this] != 2) ev("dtor()");
        if (g_probes[this] == 0) diverge("lifetime", "destruction of an object which is not alive");
        g_probes.erase(this);
    }
};
namespace nestl
{
template <int D, int M, int DF> struct two_phase_initializator<Probe<D, M, DF, 1> >
{
    template <typename E, typename A, typename... R>
    static typename std::enable_if<Cat<A>::c != 0>::type init(E& err, Probe<D, M, DF, 1>& d, A&& a, R&&... r) NESTL_NOEXCEPT_SPEC
    {
        alive(&d, "two-phase init");
        str s = shown(std::forward<A>(a), std::forward<R>(r)...);
        if (F.hit_elem()) { ev("init!" + s); set_elem_error(err, F.serial); return; }
        ev("init" + s); d.v = 1;
    }
};
}

// ---------------------------------------------------------------- contexts
typedef str (*Run)();          // builds and destroys one object, returns the error kind
template <typename T> struct Raw
{
    template <typename... A> static str run(A&&... a)
    {
        typename std::aligned_storage<sizeof(T), alignof(T)>::type m;
        T* p = reinterpret_cast<T*>(&m);
        Err e;
        { Armed g; nestl::class_operations::construct(e, p, std::forward<A>(a)...); }
        if (!e) p->~T();
        return err_kind(e);
    }
};
template <typename T> struct ListCtx
{
    typedef nestl::list<T, TrackAlloc<T> > L;
};
template <typename T> struct ListBack
{
    template <typename... A> static str run(A&&... a)
    {
        typename ListCtx<T>::L l((TrackAlloc<T>(3)));
        Err e;
        { Armed g; l.emplace_back_nothrow(e, std::forward<A>(a)...); }
        if (l.size() != (e ? 0u : 1u)) diverge("contents", "the list holds " + itos(l.size()) + " elements after one emplace");
        return err_kind(e);
    }
};
template <typename T> struct ListFront
{
    template <typename... A> static str run(A&&... a)
    {
        typename ListCtx<T>::L l((TrackAlloc<T>(3)));
        Err e;
        { Armed g; l.emplace_front_nothrow(e, std::forward<A>(a)...); }
        if (l.size() != (e ? 0u : 1u)) diverge("contents", "the list holds " + itos(l.size()) + " elements after one emplace");
        return err_kind(e);
    }
};
template <typename T> struct ListPos
{
    template <typename... A> static str run(A&&... a)
    {
        typename ListCtx<T>::L l((TrackAlloc<T>(3)));
        Err e;
        { Armed g; l.emplace_nothrow(e, l.cbegin(), std::forward<A>(a)...); }
        if (l.size() != (e ? 0u : 1u)) diverge("contents", "the list holds " + itos(l.size()) + " elements after one emplace");
        return err_kind(e);
    }
};
template <typename T> struct VectorBack
{
    template <typename... A> static str run(A&&... a)
    {
        nestl::vector<T, TrackAlloc<T> > v((TrackAlloc<T>(3)));
        Err e;
        { Armed g; v.emplace_back_nothrow(e, std::forward<A>(a)...); }
        if (v.size() != (e ? 0u : 1u)) diverge("contents", "the vector holds " + itos(v.size()) + " elements after one emplace");
        return err_kind(e);
    }
};
template <typename T> struct Shared
{
    template <typename... A> static str run(A&&... a)
    {
        TrackAlloc<T> al(3);
        Err e;
        nestl::shared_ptr<T> p;
        { Armed g; p = nestl::make_shared_a_nothrow<T>(e, al, std::forward<A>(a)...); }
        if (!p != static_cast<bool>(e)) diverge("contents", "make_shared returned a pointer and an error, or neither");
        return err_kind(e);
    }
};

// ---------------------------------------------------------------- registry
static std::map<str, Run> g_run;
template <template <typename> class C, typename T> str args0() { return C<T>::run(); }
template <template <typename> class C, typename T> str args_c() { const Arg a = { 40 }; return C<T>::run(a); }
template <template <typename> class C, typename T> str args_l() { Arg a = { 40 }; return C<T>::run(a); }
template <template <typename> class C, typename T> str args_r() { Arg a = { 40 }; return C<T>::run(std::move(a)); }
template <template <typename> class C, typename T> str args_cr() { const Arg a = { 40 }; Arg b = { 41 }; return C<T>::run(a, std::move(b)); }
template <template <typename> class C, typename T> str args_rl() { Arg a = { 40 }, b = { 41 }; return C<T>::run(std::move(a), b); }
template <template <typename> class C, typename T> str args_lc() { Arg a = { 40 }; const Arg b = { 41 }; return C<T>::run(a, b); }

constexpr bool buildable(int d, int m, int f, int i, char first) { return first == 0 ? f != 0 : ((d != 0 && accepts(m, first)) || (f != 0 && i != 0)); }
template <bool B, template <typename> class C, typename T> struct Reg
{
    static void zero(const str&) {} static void c(const str&) {} static void l(const str&) {} static void r(const str&) {}
};
template <template <typename> class C, typename T> struct Reg<true, C, T>
{
    static void zero(const str& k) { g_run[k] = &args0<C, T>; }
    static void c(const str& k) { g_run[k + "c"] = &args_c<C, T>; g_run[k + "cr"] = &args_cr<C, T>; }
    static void l(const str& k) { g_run[k + "l"] = &args_l<C, T>; g_run[k + "lc"] = &args_lc<C, T>; }
    static void r(const str& k) { g_run[k + "r"] = &args_r<C, T>; g_run[k + "rl"] = &args_rl<C, T>; }
};
template <template <typename> class C, int D, int M, int DF, int I> void reg_ctx(const str& name)
{
    typedef Probe<D, M, DF, I> T;
    str k = itos(D) + itos(M) + itos(DF) + itos(I) + ":" + name + ":";
    Reg<buildable(D, M, DF, I, 0), C, T>::zero(k);
    Reg<buildable(D, M, DF, I, 'c'), C, T>::c(k);
    Reg<buildable(D, M, DF, I, 'l'), C, T>::l(k);
    Reg<buildable(D, M, DF, I, 'r'), C, T>::r(k);
}
template <int D, int M, int DF, int I> void reg4()
{
#if CTXSEL == 0
    reg_ctx<Raw, D, M, DF, I>("raw");
    reg_ctx<ListPos, D, M, DF, I>("list_pos");
#elif CTXSEL == 1
    reg_ctx<ListBack, D, M, DF, I>("list_back");
    reg_ctx<ListFront, D, M, DF, I>("list_front");
#else
    reg_ctx<VectorBack, D, M, DF, I>("vector_back");
    reg_ctx<Shared, D, M, DF, I>("shared");
#endif
}
template <int D, int M, int DF> void reg3() { reg4<D, M, DF, 0>(); reg4<D, M, DF, 1>(); }
template <int D, int M> void reg2()
{
    reg3<D, M, 0>(); reg3<D, M, 1>();
#if NESTL_HAS_EXCEPTIONS
    reg3<D, M, 2>();
#endif
}
static void reg_all()
{
    reg2<0, 0>(); reg2<1, 0>(); reg2<1, 1>(); reg2<1, 2>();
#if NESTL_HAS_EXCEPTIONS
    reg2<2, 0>(); reg2<2, 1>(); reg2<2, 2>();
#endif
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    reg_all();
    // behaviours: type \t context \t arguments \t fail_alloc \t fail_elem \t log \t error
    FILE* f = fopen(a.get("table", "").c_str(), "r");
    if (!f) { perror("table"); return 3; }
    static char line[4096];
    long row = 0, from = a.num("from", 0);
    while (fgets(line, sizeof line, f))
    {
        line[strcspn(line, "\n")] = 0;
        std::vector<str> p = split(line, '\t');
        if (row++ < from) continue;
        std::map<str, Run>::iterator it = g_run.find(p[0] + ":" + p[1] + ":" + p[2]);
        if (it == g_run.end()) continue;                     // another binary runs this context, or the build has no exceptions
        g_row = row - 1;
        long fa = atol(p[3].c_str()), fe = atol(p[4].c_str());
        g_op = p[1]; g_fault = fa ? "alloc" : fe ? "elem" : "none";
        set_case("construct type=" + p[0] + " (direct, accepted, default, init) in " + p[1] + " args=" + p[2] + " fail_alloc=" + p[3] + " fail_elem=" + p[4]);
        ++g_cases;
        F.request(fa, fe);
        g_log.clear();
        str e = it->second();
        str fired = F.fired();
        g_fault = fired;
        if (fired != "none") ++g_fired;
        str what = "observed " + g_log + " err=" + e + ", specified " + p[5] + " err=" + p[6];
        std::vector<str> want = split(p[5], '|');
        if (std::find(want.begin(), want.end(), g_log) == want.end()) diverge("protocol", what);
        else if (e != p[6]) diverge(p[6] == "none" ? "spurious-error" : e == "none" ? "lost-error" : "error-kind", what);
        if (g_samples.size() < 4 && fe) g_samples.push_back(g_case + " -> " + g_log);
        F.request(0, 0);
        g_log.clear();
        if (!g_probes.empty()) { diverge("leak", itos(g_probes.size()) + " object(s) never destroyed"); g_probes.clear(); }
        globals_clean("after the owner was destroyed");
    }
    finish();
}
