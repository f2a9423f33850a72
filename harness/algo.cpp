// Conformance harness for nestl's algorithms, driven by spec/NestlAlgorithm.tla.
#include "common.hpp"
#include <nestl/algorithm.hpp>
#include <nestl/vector.hpp>
#include <nestl/list.hpp>

#if ELEM_KIND == 1
#define AE_NOEXCEPT
#else
#define AE_NOEXCEPT noexcept
#endif
static long g_assigned = 0;
struct alignas(ELEM_ALIGN) AE
{
    int v, pad;
    AE() noexcept : v(0), pad(0) { reg_live(this, sizeof(AE)); }
    AE(int x) AE_NOEXCEPT : v(x), pad(0) { fail(); reg_live(this, sizeof(AE)); }
    AE(const AE& o) AE_NOEXCEPT : v(o.v), pad(0) { fail(); use_live(&o, "copy"); reg_live(this, sizeof(AE)); }
    AE(AE&& o) noexcept : v(o.v), pad(0) { use_live(&o, "move"); o.v = MOVED; reg_live(this, sizeof(AE)); }
    AE& operator=(const AE& o) AE_NOEXCEPT { use_live(&o, "assign from"); use_live(this, "assign to"); fail(); v = o.v; ++g_assigned; return *this; }
    AE& operator=(AE&& o) noexcept { use_live(&o, "assign from"); use_live(this, "assign to"); int t = o.v; if (&o != this) o.v = MOVED; v = t; ++g_assigned; return *this; }
    ~AE() { unreg_live(this); v = -99; }
    static void fail() AE_NOEXCEPT
    {
#if ELEM_KIND == 1
        if (F.hit_elem()) { throw_elem(); }
#endif
    }
    bool operator==(const AE& o) const { use_live(this, "comparison"); use_live(&o, "comparison"); return v == o.v; }
    bool operator<(const AE& o) const { use_live(this, "comparison"); use_live(&o, "comparison"); return v < o.v; }
};
typedef nestl::list<AE, TrackAlloc<AE> > NL;
typedef nestl::vector<AE, TrackAlloc<AE> > NV;

// exactly sized array on the heap
struct Arr
{
    AE* a; size_t n;
    explicit Arr(const std::vector<int>& v) : a(0), n(v.size()) { void* m = 0; if (posix_memalign(&m, alignof(AE) < 16 ? 16 : alignof(AE), n * sizeof(AE) + (n == 0)) != 0) abort(); a = static_cast<AE*>(m); for (size_t i = 0; i < n; ++i) { ::new(static_cast<void*>(a + i)) AE(); a[i].v = v[i]; } }
    ~Arr() { for (size_t i = 0; i < n; ++i) a[i].~AE(); free(a); }
    Arr(const Arr&) = delete;
    std::vector<int> get() const { std::vector<int> r; for (size_t i = 0; i < n; ++i) r.push_back(a[i].v); return r; }
    AE* b() { return a; }
    AE* e() { return a + n; }
};

// single pass: only the most advanced copy may be read
struct Pass { AE* at; };
struct In
{
    typedef std::input_iterator_tag iterator_category; typedef AE value_type; typedef std::ptrdiff_t difference_type; typedef const AE* pointer; typedef const AE& reference;
    Pass* c; AE* p;
    In(Pass* pass, AE* q) : c(pass), p(q) {}
    const AE& operator*() const { if (c && p != c->at) diverge("contents", "an input range was read twice"); return *p; }
    const AE* operator->() const { return &**this; }
    In& operator++() { if (p != c->at) diverge("contents", "an input range was advanced twice"); ++p; c->at = p; return *this; }
    struct Old { AE* p; const AE& operator*() const { return *p; } };
    Old operator++(int) { Old o = { p }; ++*this; return o; }
    bool operator==(const In& o) const { return p == o.p; }
    bool operator!=(const In& o) const { return p != o.p; }
};
template <typename R> struct Bi
{
    typedef std::bidirectional_iterator_tag iterator_category; typedef AE value_type; typedef std::ptrdiff_t difference_type; typedef R* pointer; typedef R& reference;
    R* p;
    explicit Bi(R* q = 0) : p(q) {}
    R& operator*() const { return *p; }
    R* operator->() const { return p; }
    Bi& operator++() { ++p; return *this; }
    Bi operator++(int) { Bi t = *this; ++p; return t; }
    Bi& operator--() { --p; return *this; }
    Bi operator--(int) { Bi t = *this; --p; return t; }
    bool operator==(const Bi& o) const { return p == o.p; }
    bool operator!=(const Bi& o) const { return p != o.p; }
};
// output iterator: remembers what it receives
struct OutSink { std::vector<int> got; long steps; OutSink() : steps(0) {} };
struct OutIt
{
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
    struct Ref { OutSink* s; Ref& operator=(const AE& o) AE_NOEXCEPT { use_live(&o, "assign from"); AE::fail(); s->got.push_back(o.v); return *this; } };
    mutable Ref r; long k;
    explicit OutIt(OutSink* s) : k(0) { r.s = s; }
    Ref& operator*() const { return r; }
    OutIt& operator++() { ++k; return *this; }
    OutIt operator++(int) { OutIt t = *this; ++k; return t; }
};

struct Mask { int m; explicit Mask(int x) : m(x) {} bool operator()(const AE& e) const { use_live(&e, "selection"); return (m >> e.v) & 1; } };
static int g_mask = 0;
static bool mask_fn(const AE& e) { return (g_mask >> e.v) & 1; }
struct Pred
{
    int k; explicit Pred(int x) : k(x) {}
    bool operator()(const AE& a, const AE& b) const { use_live(&a, "comparison"); use_live(&b, "comparison"); return k == 0 ? a.v == b.v : k == 1 ? a.v <= b.v : k == 2 ? a.v % 2 == b.v % 2 : a.v != b.v; }
};
struct Less
{
    int k; explicit Less(int x) : k(x) {}
    bool operator()(const AE& a, const AE& b) const { use_live(&a, "comparison"); use_live(&b, "comparison"); return k == 0 ? a.v < b.v : k == 1 ? a.v > b.v : k == 2 ? a.v / 2 < b.v / 2 : false; }
};

// The same call on plain data: the result must be the one observed (and checked against the specification) on instrumented elements.
// Each representation keeps == and < of the values, but not always bit by bit.
struct Padded { char tag; int v; bool operator==(const Padded& o) const { return v == o.v; } bool operator<(const Padded& o) const { return v < o.v; } };
struct Coarse { int v; bool operator==(const Coarse& o) const { return v % 2 == o.v % 2; } bool operator<(const Coarse& o) const { return v / 2 < o.v / 2; } };
struct Small { short v; unsigned short junk; bool operator==(const Small& o) const { return v == o.v; } bool operator<(const Small& o) const { return v < o.v; } };
static unsigned g_junk = 1;
static int g_cells[64];
template <typename T> struct Rep { static T to(int v) { return T(v); } static int from(const T& t) { return int(t); } };
template <> struct Rep<signed char> { static signed char to(int v) { return static_cast<signed char>((v - 4) * 20); } static int from(signed char t) { return t / 20 + 4; } };
template <> struct Rep<unsigned char> { static unsigned char to(int v) { return static_cast<unsigned char>(v * 25); } static int from(unsigned char t) { return t / 25; } };
template <> struct Rep<int> { static int to(int v) { return (v - 4) * 300000000; } static int from(int t) { return t / 300000000 + 4; } };
template <> struct Rep<long> { static long to(int v) { return (v - 4) * 300000000L; } static int from(long t) { return int(t / 300000000L) + 4; } };
template <> struct Rep<unsigned> { static unsigned to(int v) { return unsigned(v) * 400000000u; } static int from(unsigned t) { return int(t / 400000000u); } };
template <> struct Rep<double> { static double to(int v) { return v == 0 ? (++g_junk % 2 ? 0.0 : -0.0) : v * 1e300 * 1e7; } static int from(double t) { for (int v = 0; v < 12; ++v) if (to(v) == t) return v; return -1; } };
template <> struct Rep<float> { static float to(int v) { return v == 2 ? (++g_junk % 2 ? 0.0f : -0.0f) : float(v - 2) * 0.1f; } static int from(float t) { for (int v = 0; v < 12; ++v) if (to(v) == t) return v; return -1; } };
template <> struct Rep<const int*> { static const int* to(int v) { return g_cells + v * 3; } static int from(const int* t) { return int(t - g_cells) / 3; } };
template <> struct Rep<Padded> { static Padded to(int v) { Padded p; memset(&p, int(++g_junk & 0x7f), sizeof p); p.tag = char(g_junk); p.v = v; return p; } static int from(const Padded& t) { return t.v; } };
template <> struct Rep<Coarse> { static Coarse to(int v) { Coarse c = { v }; return c; } static int from(const Coarse& t) { return t.v; } };
template <> struct Rep<Small> { static Small to(int v) { Small c = { short(v * 3000 - 9000), static_cast<unsigned short>(++g_junk) }; return c; } static int from(const Small& t) { return (t.v + 9000) / 3000; } };
template <typename T> struct Plain          // exactly sized storage
{
    T* a; size_t n;
    explicit Plain(const std::vector<int>& q) : a(static_cast<T*>(malloc(q.size() * sizeof(T) + (q.empty() ? 1 : 0)))), n(q.size()) { for (size_t i = 0; i < n; ++i) ::new(static_cast<void*>(a + i)) T(Rep<T>::to(q[i])); }
    ~Plain() { free(a); }
    Plain(const Plain&) = delete;
    std::vector<int> get() const { std::vector<int> r; for (size_t i = 0; i < n; ++i) r.push_back(Rep<T>::from(a[i])); return r; }
};
template <typename T> struct RepMask { int m; bool operator()(const T& t) const { return (m >> Rep<T>::from(t)) & 1; } };
template <typename T, typename U> struct RepPred
{
    int k;
    bool operator()(const T& a, const U& b) const { int x = Rep<T>::from(a), y = Rep<U>::from(b); return k == 0 ? x == y : k == 1 ? x <= y : k == 2 ? x % 2 == y % 2 : x != y; }
};
template <typename T, typename U> struct RepLess
{
    int k;
    bool lt(int x, int y) const { return k == 0 ? x < y : k == 1 ? x > y : k == 2 ? x / 2 < y / 2 : false; }
    bool operator()(const T& a, const U& b) const { return lt(Rep<T>::from(a), Rep<U>::from(b)); }
    struct swapped { int k; };
};
template <typename T> struct RepLess<T, T>
{
    int k;
    bool operator()(const T& a, const T& b) const { int x = Rep<T>::from(a), y = Rep<T>::from(b); return k == 0 ? x < y : k == 1 ? x > y : k == 2 ? x / 2 < y / 2 : false; }
};

template <typename T, typename U> static void plain(const str& n, int x, const std::vector<int>& p, const std::vector<int>& q, long want, const std::vector<int>& q0, const std::vector<int>& q1, const char* who)
{
    Plain<T> a(p); Plain<U> b(q); Err e; long got = -1;
    const T* cb = a.a; const T* ce = a.a + a.n;
    if (n == "copy") got = nestl::copy(e, cb, ce, b.a) - b.a;
    else if (n == "copy_fn") got = nestl::copy(e, a.a, a.a + a.n, b.a) - b.a;
    else if (n == "copy_if") { RepMask<T> m = { x }; got = nestl::copy_if(e, cb, ce, b.a, m) - b.a; }
    else if (n == "copy_left") got = nestl::copy(e, cb + x, ce, a.a) - a.a;
    else if (n == "equal") got = nestl::equal(cb, ce, b.a);
    else if (n == "equal_fn") got = nestl::equal(a.a, a.a + a.n, b.a);
    else if (n == "equal_p") { RepPred<T, U> m = { x }; got = nestl::equal(cb, ce, b.a, m); }
    else if (n == "lex") got = nestl::lexicographical_compare(cb, ce, b.a, b.a + b.n);
    else if (n == "lex_fn") got = nestl::lexicographical_compare(a.a, a.a + a.n, static_cast<const U*>(b.a), static_cast<const U*>(b.a) + b.n);
    else return;
    if (err_kind(e) != "none") diverge("spurious-error", str("plain data: ") + who);
    if (got != want) diverge("ret", str("plain data (") + who + "): " + itos(got) + " instead of " + itos(want));
    if (a.get() != q0 || b.get() != q1) diverge("contents", str("plain data (") + who + "): wrong content");
}
template <typename T> static void plain_lex_p(const str& n, int x, const std::vector<int>& p, const std::vector<int>& q, long want, const char* who)
{
    if (n != "lex_p") return;
    Plain<T> a(p), b(q); RepLess<T, T> m = { x };
    long got = nestl::lexicographical_compare(a.a, a.a + a.n, b.a, b.a + b.n, m);
    if (got != want) diverge("ret", str("plain data (") + who + "): " + itos(got) + " instead of " + itos(want));
}
static void plain_all(const str& n, int x, const std::vector<int>& p, const std::vector<int>& q, long want, const std::vector<int>& q0, const std::vector<int>& q1)
{
    for (size_t i = 0; i < p.size(); ++i) if (p[i] > 8) return;
    for (size_t i = 0; i < q.size(); ++i) if (q[i] > 8) return;
    const str nn[2] = { n, n == "equal" ? "equal_fn" : n == "lex" ? "lex_fn" : "" };
    for (int i = 0; i < 2; ++i)
    {
        if (nn[i].empty()) continue;
#define PLAIN(T) plain<T, T >(nn[i], x, p, q, want, q0, q1, #T); plain_lex_p<T >(nn[i], x, p, q, want, #T)
        PLAIN(signed char); PLAIN(unsigned char); PLAIN(int); PLAIN(unsigned); PLAIN(long); PLAIN(double); PLAIN(float); PLAIN(const int*); PLAIN(Padded); PLAIN(Small);
        plain<int, long>(nn[i], x, p, q, want, q0, q1, "int, long");
        if (nn[i] != "copy" && nn[i] != "copy_fn" && nn[i] != "copy_if") plain<long, int>(nn[i], x, p, q, want, q0, q1, "long, int");
    }
    if (n == "equal_p" && x == 2) plain<Coarse, Coarse>("equal", x, p, q, want, q0, q1, "coarse");
    if (n == "lex_p" && x == 2) plain<Coarse, Coarse>("lex", x, p, q, want, q0, q1, "coarse");
    if (n == "copy" || n == "copy_if" || n == "copy_left") plain<Coarse, Coarse>(n, x, p, q, want, q0, q1, "coarse");
    if (n == "equal" && !p.empty())       // a value which does not match even itself
    {
        Plain<double> a(p); double nan = __builtin_nan(""); a.a[p.size() / 2] = nan;
        const double* c = a.a;
        if (nestl::equal(c, c + a.n, c)) diverge("ret", "plain data (nan): equal to itself");
        if (nestl::lexicographical_compare(c, c + a.n, c, c + a.n)) diverge("ret", "plain data (nan): less than itself");
    }
}

struct AlgoSys
{
    std::vector<int> q[2];
    bool bad;
    AlgoSys() : bad(false) {}
    static bool supports(const Op&) { return true; }
    static bool st_match(const str& a, const str& b) { return a == b; }
    static bool has_alloc_field() { return false; }
    void materialize(const str& st, int) { std::vector<str> p = split(st, '|'); q[0] = ints(p[0]); q[1] = ints(p[1]); }
    void before() {}
    str observe() { return join(q[0]) + "|" + join(q[1]); }
    str origins() { return ""; }
    bool iterators_ok(const str&) { return true; }
    bool accounts() { return true; }
    void teardown() {}

    template <typename C> static void fill(C& c, const std::vector<int>& v) { Err e; for (size_t i = 0; i < v.size(); ++i) c.push_back_nothrow(e, AE(v[i])); }
    template <typename C> static std::vector<int> get(const C& c) { std::vector<int> r; for (typename C::const_iterator i = c.cbegin(); i != c.cend(); ++i) r.push_back(i->v); return r; }
    void apply(const Op& op, str& err, str& ret)
    {
        const str& n = op.n; Err e;
        int x = op.x.empty() ? 0 : op.x[0];
        bool nestl_ranges = n.size() > 6 && n.compare(n.size() - 6, 6, "_nestl") == 0;
        bool writes = n.compare(0, 4, "copy") == 0;
        long counted = -1, done = 0;
        g_mask = x;
        const std::vector<int> p0 = q[0], p1 = q[1];
        if (nestl_ranges)
        {
            NL l, l2; NV v; fill(l, q[0]); fill(v, q[1]); fill(l2, q[1]);
            const NL& cl = l; const NL& cl2 = l2;
            long c0 = g_assigned;
            if (n == "copy_nestl") { NV::iterator r; { Armed g; r = nestl::copy(e, cl.begin(), cl.end(), v.begin()); } done = r - v.begin(); }
            else if (n == "copy_if_nestl") { NV::iterator r; { Armed g; r = nestl::copy_if(e, cl.begin(), cl.end(), v.begin(), Mask(x)); } done = r - v.begin(); }
            else if (n == "equal_nestl") { Armed g; done = nestl::equal(cl.begin(), cl.end(), v.begin()); }
            else if (n == "equal_p_nestl") { Armed g; done = nestl::equal(l.begin(), l.end(), v.cbegin(), Pred(x)); }
            else if (n == "lex_nestl") { Armed g; done = nestl::lexicographical_compare(cl.begin(), cl.end(), v.cbegin(), v.cend()); }
            else if (n == "lex_p_nestl") { Armed g; done = nestl::lexicographical_compare(cl.begin(), cl.end(), cl2.begin(), cl2.end(), Less(x)); }
            if (writes) counted = g_assigned - c0;
            q[0] = get(l); q[1] = get(v);
        }
        else
        {
            Arr a(q[0]), b(q[1]); OutSink sink; bool out = false;
            Pass pa = { a.b() }, pb = { b.b() };
            long c0 = g_assigned;
            AE* r = 0;
            const AE* cb = a.b(); const AE* ce = a.e();
            if (n == "copy") { Armed g; r = nestl::copy(e, cb, ce, b.b()); }
            else if (n == "copy_in") { Armed g; r = nestl::copy(e, In(&pa, a.b()), In(&pa, a.e()), b.b()); }
            else if (n == "copy_bi") { Armed g; r = nestl::copy(e, Bi<const AE>(a.b()), Bi<const AE>(a.e()), Bi<AE>(b.b())).p; }
            else if (n == "copy_conv") { std::vector<int> s = q[0]; Armed g; r = nestl::copy(e, s.begin(), s.end(), b.b()); }
            else if (n == "copy_mv") { Arr t(q[0]); Armed g; r = nestl::copy(e, std::make_move_iterator(t.b()), std::make_move_iterator(t.e()), b.b()); }
            else if (n == "copy_fn") { Armed g; r = nestl::copy(e, a.b(), a.e(), b.b()); }
            else if (n == "copy_out") { OutIt o(&sink); long k; { Armed g; k = nestl::copy(e, cb, ce, o).k; } out = true; done = k; }
            else if (n == "copy_left") { Armed g; r = nestl::copy(e, cb + x, ce, a.b()); }
            else if (n == "copy_if") { Armed g; r = nestl::copy_if(e, cb, ce, b.b(), Mask(x)); }
            else if (n == "copy_if_in") { Armed g; r = nestl::copy_if(e, In(&pa, a.b()), In(&pa, a.e()), b.b(), Mask(x)); }
            else if (n == "copy_if_bi") { Armed g; r = nestl::copy_if(e, Bi<AE>(a.b()), Bi<AE>(a.e()), Bi<AE>(b.b()), Mask(x)).p; }
            else if (n == "copy_if_fn") { Armed g; r = nestl::copy_if(e, cb, ce, b.b(), &mask_fn); }
            else if (n == "copy_if_out") { OutIt o(&sink); long k; { Armed g; k = nestl::copy_if(e, cb, ce, o, Mask(x)).k; } out = true; done = k; }
            else if (n == "equal") { Armed g; done = nestl::equal(cb, ce, b.b()); }
            else if (n == "equal_in") { Armed g; done = nestl::equal(In(&pa, a.b()), In(&pa, a.e()), In(&pb, b.b())); }
            else if (n == "equal_p") { Armed g; done = nestl::equal(cb, ce, b.b(), Pred(x)); }
            else if (n == "equal_p_in") { Armed g; done = nestl::equal(In(&pa, a.b()), In(&pa, a.e()), In(&pb, b.b()), Pred(x)); }
            else if (n == "lex") { Armed g; done = nestl::lexicographical_compare(cb, ce, b.b(), b.e()); }
            else if (n == "lex_in") { Armed g; done = nestl::lexicographical_compare(In(&pa, a.b()), In(&pa, a.e()), In(&pb, b.b()), In(&pb, b.e())); }
            else if (n == "lex_p") { Armed g; done = nestl::lexicographical_compare(cb, ce, b.b(), b.e(), Less(x)); }
            else if (n == "lex_p_in") { Armed g; done = nestl::lexicographical_compare(In(&pa, a.b()), In(&pa, a.e()), In(&pb, b.b()), In(&pb, b.e()), Less(x)); }
            else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
            if (writes && !out) { counted = g_assigned - c0; done = n == "copy_left" ? r - a.b() : r - b.b(); }
            if (out) { q[0] = a.get(); q[1] = sink.got; }
            else { q[0] = a.get(); q[1] = b.get(); }
        }
        err = err_kind(e);
        ret = itos(done);
        if (err == "none" && F.fired() == "none" && F.elem_at == 0) plain_all(n, x, p0, p1, done, q[0], q[1]);
        if (counted >= 0 && counted != done) diverge("contents", itos(counted) + " assignments for " + ret + " positions");
    }
};

static void trace(uint64_t seed, long steps, int maxlen)
{
    Rng r(seed);
    static const char* names[] = { "copy", "copy_in", "copy_bi", "copy_nestl", "copy_conv", "copy_mv", "copy_fn", "copy_out", "copy_left", "copy_left", "copy_if", "copy_if_in", "copy_if_bi",
        "copy_if_nestl", "copy_if_fn", "copy_if_out", "equal", "equal_in", "equal_nestl", "equal_p", "equal_p_in", "equal_p_nestl", "lex", "lex_in", "lex_nestl", "lex_p", "lex_p_in", "lex_p_nestl" };
    const int nn = sizeof names / sizeof *names;
    for (long i = 0; i < steps; ++i)
    {
        {
            AlgoSys sys;
            str n = names[r.below(nn)];
            // a few very long ranges (not for the orderings and selections, whose specification recurses)
            const bool vast = i == steps / 2 || i == steps / 3 || i == steps / 4;
            if (vast) n = i == steps / 2 ? "copy_if" : i == steps / 3 ? "equal" : "copy";
            const int most = r.below(60) == 0 ? 300 : maxlen;
            int la = vast ? (n == "copy_if" ? 4097 : 65537) + r.below(3000) : r.below(most), lb = n.compare(0, 3, "lex") == 0 ? r.below(most) : la + r.below(4);
            int vals = 2 + r.below(8);
            for (int k = 0; k < la; ++k) sys.q[0].push_back(r.below(vals));
            // the second range often starts like the first one
            int common = r.below(4) ? r.below(la + 2) : 0;
            for (int k = 0; k < lb; ++k) sys.q[1].push_back(k < common && k < la ? sys.q[0][size_t(k)] : r.below(vals));
            if (n.compare(0, 5, "equal") == 0 && (vast || r.below(3) == 0)) for (int k = 0; k < la; ++k) sys.q[1][size_t(k)] = sys.q[0][size_t(k)];
            if (vast && n == "equal" && r.below(2)) sys.q[1][size_t(la - 1 - r.below(500))] = 9;
            std::vector<int> x;
            if (n.compare(0, 7, "copy_if") == 0) x = iv(r.below(1 << vals));
            else if (n == "copy_left") x = iv(r.below(la + 1));
            else if (n.compare(0, 7, "equal_p") == 0 || n.compare(0, 5, "lex_p") == 0) x = iv(r.below(4));
            Op op = mk(n, 1, x);
            TR.line(jop(mk("fresh", 1)) + ",\"f\":\"none\",\"err\":\"none\",\"ret\":[],\"q1\":" + jarr(sys.q[0]) + ",\"q2\":" + jarr(sys.q[1]) + "}");
            long fe = r.below(3) == 0 ? 1 + r.below(la + 1) : 0;
            ++g_cases; g_op = n; g_fault = fe ? "elem" : "none"; g_row = i;
            set_case("algorithm seed=" + itos(seed) + " ranges " + (vast ? str("of ") + itos(la) + " elements" : sys.observe()) + " " + op.txt + (fe ? "!elem" + itos(fe) : ""));
            F.request(0, fe);
            str err, ret;
            sys.apply(op, err, ret);
            str f = F.fired(); g_fault = f; if (f != "none") ++g_fired;
            F.request(0, 0);
            TR.line(jop(op) + ",\"f\":\"" + f + "\",\"err\":\"" + err + "\",\"ret\":[" + ret + "],\"q1\":" + jarr(sys.q[0]) + ",\"q2\":" + jarr(sys.q[1]) + "}");
        }
        globals_clean("after the ranges were destroyed");
    }
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    str mode = a.get("mode", "exh");
    if (mode == "trace") { TR.open(a.get("trace", "")); trace(uint64_t(a.num("seed", 1)), a.num("steps", 1500), int(a.num("maxlen", 24))); TR.close(); finish(); }
    Table t(a.get("table", "").c_str());
    exhaustive<AlgoSys>(t, 1, int(a.num("part", 0)), int(a.num("parts", 1)), a.num("from", 0));
    finish();
}
