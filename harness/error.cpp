// Conformance harness for nestl's error objects, driven by spec/NestlError.tla.
#include "common.hpp"

static long g_exceptions = 0;           // exception objects in existence
struct Counted { Counted() { ++g_exceptions; } Counted(const Counted&) { ++g_exceptions; } ~Counted() { --g_exceptions; } };
struct XStd : std::runtime_error, Counted { XStd() : std::runtime_error("x") {} };
struct XRaw : Counted { int a[5]; };
struct XBad : std::bad_alloc, Counted { };
struct XLen : std::length_error, Counted { XLen() : std::length_error("y") {} };
static const int CODES[] = { 0, 0, 0, 7777, -5, 1, 0x7fffffff, 11, -0x7fffffff - 1 };
static const int NK = 9;                // 3..8

#if CUSTOM_ERR
#error the user-supplied error type is not nestl's
#endif
#define XERR (NESTL_HAS_EXCEPTIONS && !defined(ERRC))
#if ERRC                                // the error code type can also be used where exceptions are enabled
typedef nestl::no_exceptions::errc_based_error E;
#else
typedef nestl::default_operation_error E;
#endif

#if XERR
static std::exception_ptr make(int k)
{
    switch (k)
    {
    case 1: return std::make_exception_ptr(std::bad_alloc());
    case 2: return std::make_exception_ptr(std::length_error("length"));
    case 3: return std::make_exception_ptr(XStd());
    case 4: return std::make_exception_ptr(XRaw());
    case 5: return std::make_exception_ptr(XBad());
    case 6: return std::make_exception_ptr(XLen());
    case 7: return std::make_exception_ptr(42);
    case 8: return std::make_exception_ptr(static_cast<const char*>("text"));
    }
    return std::exception_ptr();
}
static void report(E& e, int k)
{
    switch (k)
    {
    case 3: from_exception(e, XStd()); break;
    case 4: from_exception(e, XRaw()); break;
    case 5: from_exception(e, XBad()); break;
    case 6: from_exception(e, XLen()); break;
    case 7: from_exception(e, 42); break;
    case 8: from_exception(e, static_cast<const char*>("text")); break;
    }
}
struct Ask { std::exception_ptr p; bool thrown; void operator()() const { std::rethrow_exception(p); } };
struct Thrower { const E* e; void operator()() const { throw_exception(*e); } };
template <typename F> static int caught(const F& f)
{
    try { f(); }
    catch (const XStd&) { return 3; }
    catch (const XRaw&) { return 4; }
    catch (const XBad&) { return 5; }
    catch (const XLen&) { return 6; }
    catch (int x) { return x == 42 ? 7 : -1; }
    catch (const char* s) { return str(s) == "text" ? 8 : -1; }
    catch (const std::bad_alloc& x) { return typeid(x) == typeid(std::bad_alloc) ? 1 : -1; }
    catch (const std::length_error& x) { return typeid(x) == typeid(std::length_error) ? 2 : -1; }
    catch (...) { return -1; }
    return 0;
}
#endif

struct ErrSys
{
    typename std::aligned_storage<sizeof(E), alignof(E)>::type mem[2];
#if XERR
    std::exception_ptr same[2];         // the very exception object the slot has to hold, if we know it
#endif
    E& e(int i) { return *reinterpret_cast<E*>(&mem[i - 1]); }
    const E& ce(int i) { return e(i); }
    ErrSys() { for (int i = 1; i <= 2; ++i) ::new(static_cast<void*>(&mem[i - 1])) E(); }
    ~ErrSys() { teardown(); e(1).~E(); e(2).~E(); }
    ErrSys(const ErrSys&) = delete;
    static bool st_match(const str& a, const str& b) { return a == b; }
    static bool has_alloc_field() { return false; }
    static bool supports(const Op& op)
    {
#if XERR
        (void)op; return true;
#else
        return op.n != "from_exception" && op.n != "from_exception_ptr" && op.n != "throw" && op.n != "throw_twice" && op.n != "report_value";
#endif
    }
    int kind(int i)
    {
#if XERR
        std::exception_ptr p = ce(i).value();
        int k = 0;
        if (p) { Ask a = { p, false }; k = caught(a); if (k == 0) k = -1; }
        if (same[i - 1] && p != same[i - 1]) diverge("error-kind", "the error object does not hold the exception it was given");
#else
        int v = ce(i).value(), k = v == 0 ? 0 : v == ENOMEM ? 1 : v == ERANGE ? 2 : -1;
        for (int j = 3; j < NK; ++j) if (v == CODES[j]) k = j;
#endif
        bool b = static_cast<bool>(ce(i));
        if (b != (k != 0)) diverge("error-kind", str("the error object says ") + (b ? "failure" : "success") + ", but holds failure " + itos(k));
        return k;
    }
    void put(int i, int k)
    {
        E x;
        if (k == 1) build_bad_alloc(x);
        else if (k == 2) build_length_error(x);
        else if (k)
        {
#if XERR
            report(x, k);
#else
            x = E(CODES[k]);
#endif
        }
        e(i) = x;
        forget(i);
    }
    void forget(int i)
    {
#if XERR
        same[i - 1] = std::exception_ptr();
#else
        (void)i;
#endif
    }
    void share(int to, int from)
    {
#if XERR
        same[to - 1] = ce(from).value();
#else
        (void)to; (void)from;
#endif
    }
    void materialize(const str& st, int) { std::vector<int> k = ints(st); put(1, k[0]); put(2, k[1]); }
    void before() {}
    str observe() { int a = kind(1), b = kind(2); return itos(a) + "," + itos(b); }
    str origins() { return ""; }
    bool iterators_ok(const str&) { return true; }
    bool accounts() { return true; }
    void teardown() { for (int i = 1; i <= 2; ++i) { e(i) = E(); forget(i); } if (g_exceptions != 0) { diverge("leak", itos(g_exceptions) + " exception objects left"); g_exceptions = 0; } }

    void apply(const Op& op, str& err, str& ret)
    {
        const str& n = op.n; int c = op.c, d = op.x.empty() ? 0 : op.x[0];
        err = "none"; ret = "";
        if (n == "default_ctor") { forget(c); e(c).~E(); ::new(static_cast<void*>(&mem[c - 1])) E(); }
        else if (n == "assign_default") { forget(c); e(c) = E(); }
        else if (n == "bad_alloc") { forget(c); build_bad_alloc(e(c)); }
        else if (n == "length") { forget(c); build_length_error(e(c)); }
        else if (n == "copy_ctor") { share(c, d); e(c).~E(); ::new(static_cast<void*>(&mem[c - 1])) E(ce(d)); }
        else if (n == "move_ctor") { share(c, d); forget(d); e(c).~E(); ::new(static_cast<void*>(&mem[c - 1])) E(std::move(e(d))); }
        else if (n == "assign") { share(c, d); e(c) = ce(d); }
        else if (n == "move_assign") { share(c, d); forget(d); e(c) = std::move(e(d)); }
        else if (n == "from_value") { share(c, d); E x(ce(d).value()); e(c) = x; }
        else if (n == "bool") ret = ce(c) ? "1" : "0";
        else if (n == "kind") ret = itos(kind(c));
#if XERR
        else if (n == "value_ctor") { std::exception_ptr p = make(d); forget(c); e(c).~E(); ::new(static_cast<void*>(&mem[c - 1])) E(p); same[c - 1] = p; }
        else if (n == "assign_value") { std::exception_ptr p = make(d); e(c) = E(p); same[c - 1] = p; }
        else if (n == "from_exception_ptr") { std::exception_ptr p = make(d); from_exception_ptr(e(c), p); same[c - 1] = p; }
        else if (n == "from_exception") { forget(c); report(e(c), d); }
        else if (n == "report_value") { share(c, d); from_exception_ptr(e(c), ce(d).value()); }
        else if (n == "throw") { Thrower t = { &ce(c) }; ret = itos(caught(t)); }
        else if (n == "throw_twice") { Thrower t = { &ce(c) }; int a = caught(t), b = caught(t); ret = itos(a) + "," + itos(b); }
#else
        else if (n == "value_ctor") { e(c).~E(); ::new(static_cast<void*>(&mem[c - 1])) E(CODES[d]); }
        else if (n == "assign_value") { e(c) = E(CODES[d]); }
#endif
        else { fprintf(stderr, "unknown op %s\n", n.c_str()); _exit(3); }
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    str mode = a.get("mode", "exh");
    Table t(a.get("table", "").c_str());
    if (mode == "exh") exhaustive<ErrSys>(t, 1, 0, 1, a.num("from", 0));
    else walks<ErrSys>(t, uint64_t(a.num("seed", 1)), a.num("steps", 20000), int(a.num("len", 60)), a.get("start", "0,0"));
    finish();
}
