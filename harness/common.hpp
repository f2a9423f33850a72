// Common machinery of the conformance harnesses: fault injection, tracked
// elements and allocators, outcome tables emitted by TLC, replay engines.
// Black box: only nestl's public API is used.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <memory>
#include <new>
#include <iterator>
#include <utility>
#include <functional>
#include <algorithm>
#include <type_traits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>

#include <nestl/config.hpp>
#include <stdexcept>
#include <exception>
#include <nestl/default_operation_error.hpp>
#include <nestl/class_operations.hpp>
#include <nestl/type_traits.hpp>
#include <nestl/allocator.hpp>

#ifndef ELEM_ALIGN
#define ELEM_ALIGN 8
#endif
#ifndef ELEM_KIND
#define ELEM_KIND 2            // 1: throwing copies, 2: two-phase + noexcept move, 3: two-phase, no move, 4: trivial
                               // 5..9: the element is itself a container (vector, list, throwing vector, throwing list, vector of vectors)
#endif
#define NESTED (ELEM_KIND >= 5)
#if (ELEM_KIND == 1 || ELEM_KIND == 7 || ELEM_KIND == 8) && !NESTL_HAS_EXCEPTIONS
#error throwing elements need exceptions
#endif

typedef std::string str;
inline str itos(long long v) { char b[32]; snprintf(b, sizeof b, "%lld", v); return b; }

template <typename It> str join(It b, It e)
{
    str r;
    for (It i = b; i != e; ++i) { if (i != b) r += ","; r += itos(*i); }
    return r;
}
inline str join(const std::vector<int>& v) { return join(v.begin(), v.end()); }
inline std::vector<str> split(const str& s, char c)
{
    std::vector<str> r; str cur;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == c) { r.push_back(cur); cur.clear(); } else cur += s[i]; }
    r.push_back(cur);
    return r;
}
inline std::vector<int> ints(const str& s)
{
    std::vector<int> r;
    if (s.empty()) return r;
    std::vector<str> p = split(s, ',');
    for (size_t i = 0; i < p.size(); ++i) r.push_back(atoi(p[i].c_str()));
    return r;
}

// ---------------------------------------------------------------- reporting
static char* g_ctx = 0;                 // mmap'ed: survives a crash
static const size_t CTX = 1 << 16;
static long g_divs = 0, g_cases = 0, g_fired = 0;
static long g_max_divs = 400;
static std::map<str, int> g_div_keys;   // at most three reports per (tag, op, fault)
static long g_row = 0;                  // row of the table being replayed (resume point after a crash)
static std::vector<str> g_hist;         // history of the current walk
static std::vector<str> g_samples;

static str g_op;                        // current op name
static str g_fault = "none";            // class of the fault which fired (requested class until the call returns)
inline void ctx_open(const char* path)
{
    if (!path || !*path) { g_ctx = static_cast<char*>(calloc(1, CTX)); return; }
    int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, CTX) != 0) { perror("ctx"); exit(3); }
    g_ctx = static_cast<char*>(mmap(0, CTX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (g_ctx == MAP_FAILED) { perror("mmap"); exit(3); }
}
inline void ctx_set(const str& s)
{
    char h[160];
    int k = snprintf(h, sizeof h, "%ld\t%s\t%s\t", g_row, g_op.c_str(), g_fault.c_str());
    size_t n = std::min(s.size(), CTX - 1 - size_t(k));
    memcpy(g_ctx, h, size_t(k)); memcpy(g_ctx + k, s.data(), n); g_ctx[size_t(k) + n] = 0;
}
static str g_case;
inline void watchdog()                  // a single case which burns 10 s of CPU time is a hang (SIGPROF ends the process)
{
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 10;
    setitimer(ITIMER_PROF, &t, 0);
}
inline void set_case(const str& s) { g_case = s; ctx_set(s); watchdog(); }
inline str clean(str s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\t' || s[i] == '\n') s[i] = ' '; return s; }
[[noreturn]] inline void finish();
str cur_fault();
inline void diverge(const str& tag, const str& detail)
{
    ++g_divs;
    str f = cur_fault();
    if (++g_div_keys[tag + "/" + g_op + "/" + f] > 3) { if (g_divs >= 100 * g_max_divs) finish(); return; }
    printf("DIV\t%s\t%s\t%s\t%s\t%s\n", tag.c_str(), g_op.c_str(), f.c_str(), clean(g_case).c_str(), clean(detail).c_str());
    fflush(stdout);
    if (long(g_div_keys.size()) >= g_max_divs) finish();
}

// ---------------------------------------------------------------- faults
struct Faults
{
    long alloc_at, elem_at;             // requested (1-based), 0: none
    long alloc_left, elem_left;         // counting while armed
    bool armed;
    bool alloc_fired, elem_fired, organic;
    long n_alloc, n_dealloc, n_elem;    // while armed
    int serial;                         // serial number of element failures
    const char* elem_kind;              // kind of the error the failing element raised
    Faults() { memset(this, 0, sizeof *this); elem_kind = "elem"; }
    void request(long a, long e)
    {
        alloc_at = a; elem_at = e; armed = false; alloc_fired = elem_fired = organic = false;
        n_alloc = n_dealloc = n_elem = 0; elem_kind = "elem";
    }
    void arm() { alloc_left = alloc_at; elem_left = elem_at; armed = true; }
    void disarm() { armed = false; }
    bool hit_alloc() { if (!armed) return false; ++n_alloc; if (alloc_left > 0 && --alloc_left == 0) { alloc_fired = true; return true; } return false; }
    bool hit_elem() { if (!armed) return false; ++n_elem; if (elem_left > 0 && --elem_left == 0) { elem_fired = true; ++serial; return true; } return false; }
    str fired() const { return alloc_fired ? "alloc" : elem_fired ? "elem" : organic ? "size" : "none"; }
};
static Faults F;
// an element may itself fail with a bad_alloc (nested containers): what must be reported is the error the element raised
inline str norm_err(const str& f, const str& err)
{
    if (f != "elem" || strcmp(F.elem_kind, "elem") == 0 || err == "none") return err;
    return err == F.elem_kind ? str("elem") : str("element-raised-") + F.elem_kind + "-but-reported-" + err;
}
inline str cur_fault() { return F.armed ? F.fired() : g_fault; }
struct Armed { Armed() { F.arm(); } ~Armed() { F.disarm(); } };

// derives from a standard exception: an error object which copies only the base part loses the serial number
struct ElemError : std::runtime_error { int serial; ElemError() : std::runtime_error("element failure"), serial(0) {} };
// neither has to be a standard exception at all, nor is a kind of bad_alloc or length_error raised by an element the library's own
struct ElemRaw { int serial; };
struct ElemBadAlloc : std::bad_alloc { int serial; };
struct ElemLength : std::length_error { int serial; ElemLength() : std::length_error("element failure"), serial(0) {} };
#if NESTL_HAS_EXCEPTIONS
template <typename X> X with_serial(int s) { X x; x.serial = s; return x; }
[[noreturn]] inline void throw_elem()
{
    switch (F.serial % 5)
    {
    case 1: throw with_serial<ElemRaw>(F.serial);
    case 2: throw with_serial<ElemBadAlloc>(F.serial);
    case 3: throw -F.serial;
    case 4: throw with_serial<ElemLength>(F.serial);
    default: throw with_serial<ElemError>(F.serial);
    }
}
inline int elem_serial(std::exception_ptr p)        // 0: not one of ours
{
    try { std::rethrow_exception(p); }
    catch (const ElemError& x) { return x.serial % 5 == 0 ? x.serial : -1; }
    catch (const ElemRaw& x) { return x.serial % 5 == 1 ? x.serial : -1; }
    catch (const ElemBadAlloc& x) { return x.serial % 5 == 2 ? x.serial : -1; }
    catch (int x) { return -x % 5 == 3 ? -x : -1; }
    catch (const ElemLength& x) { return x.serial % 5 == 4 ? x.serial : -1; }
    catch (...) { return 0; }
}
#endif
inline int elem_code(int s) { static const int c[] = { 7777, -5, 1, 0x7fffffff, 11 }; return c[s % 5]; }

// ---------------------------------------------------------------- errors
#if NESTL_HAS_EXCEPTIONS
inline str classify(std::exception_ptr p)
{
    if (!p) return "none";
    if (int k = elem_serial(p)) return k == F.serial ? "elem" : "elem-wrong";
    try { std::rethrow_exception(p); }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const std::length_error&) { return "length"; }
    catch (...) { return "other"; }
}
inline void set_elem_error(nestl::has_exceptions::exception_ptr_error& e, int serial) 
{
    switch (serial % 5)
    {
    case 1: from_exception(e, with_serial<ElemRaw>(serial)); break;
    case 2: from_exception(e, with_serial<ElemBadAlloc>(serial)); break;
    case 3: from_exception(e, -serial); break;
    case 4: from_exception(e, with_serial<ElemLength>(serial)); break;
    default: from_exception(e, with_serial<ElemError>(serial));
    }
}
#endif
#if CUSTOM_ERR
// a user-supplied OperationError: remembers every report made to it
namespace user
{
struct op_error
{
    int kind; int serial; int sets;
#if NESTL_HAS_EXCEPTIONS
    std::exception_ptr ep;
#endif
    op_error() : kind(0), serial(0), sets(0) {}
    explicit operator bool() const NESTL_NOEXCEPT_SPEC { return kind != 0; }
};
inline void build_bad_alloc(op_error& e) NESTL_NOEXCEPT_SPEC { e.kind = 1; ++e.sets; }
inline void build_length_error(op_error& e) NESTL_NOEXCEPT_SPEC { e.kind = 2; ++e.sets; }
#if NESTL_HAS_EXCEPTIONS
inline void from_exception_ptr(op_error& e, std::exception_ptr p) NESTL_NOEXCEPT_SPEC
{
    ++e.sets; e.ep = p;
    if (int k = ::elem_serial(p)) { e.kind = 3; e.serial = k; return; }
    try { std::rethrow_exception(p); }
    catch (const std::bad_alloc&) { e.kind = 1; }
    catch (...) { e.kind = 9; }
}
#endif
}
typedef user::op_error Err;
inline void set_elem_error(Err& e, int serial) { e.kind = 3; e.serial = serial; ++e.sets; }
inline str err_kind(const Err& e)
{
    if (e.kind == 0) return "none";
    if (e.sets > 1) return "reported-" + itos(e.sets) + "-times";
    if (e.kind == 1) return "bad_alloc";
    if (e.kind == 2) return "length";
    if (e.kind == 3) return e.serial == F.serial ? "elem" : "elem-wrong";
    return "other";
}
#elif NESTL_HAS_EXCEPTIONS
typedef nestl::default_operation_error Err;
inline str err_kind(const Err& e)
{
    bool b = static_cast<bool>(e);
    str k = classify(e.value());
    if (b != (k != "none")) return "inconsistent";
    return k;
}
#else
typedef nestl::default_operation_error Err;
inline void set_elem_error(Err& e, int serial) { e = Err(elem_code(serial)); }
inline str err_kind(const Err& e)
{
    bool b = static_cast<bool>(e);
    if (b != (e.value() != 0)) return "inconsistent";
    if (!b) return "none";
    if (F.serial && e.value() == elem_code(F.serial)) return "elem";
    if (e.value() == ENOMEM) return "bad_alloc";
    if (e.value() == ERANGE) return "length";
    
    return "other";
}
#endif

// ---------------------------------------------------------------- memory events (validated by TraceStorage.tla)
static FILE* g_mem = 0;
static bool g_want_mem = false;
inline void mem_event(const char* e, long b, long o, long m, long k)
{
    fprintf(g_mem, "{\"e\":\"%s\",\"b\":%ld,\"o\":%ld,\"m\":%ld,\"k\":%ld,\"n\":\"%s\",\"f\":\"%s\"}\n", e, b, o, m, k, g_op.c_str(), g_fault.c_str());
}

// ---------------------------------------------------------------- allocator
struct Block { int owner; size_t n; size_t bytes; long serial; };
static std::map<uintptr_t, Block> g_blocks;
static long g_block_serial = 0;
static const size_t ALLOC_LIMIT = size_t(1) << 26;   // bytes; larger requests are refused

inline const std::pair<const uintptr_t, Block>* block_of(const void* p)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    std::map<uintptr_t, Block>::iterator it = g_blocks.upper_bound(a);
    if (it == g_blocks.begin()) return 0;
    --it;
    if (a >= it->first && a < it->first + std::max<size_t>(it->second.bytes, 1)) return &*it;
    return 0;
}

static std::map<uintptr_t, int> g_live;  // live elements: address -> sizeof

static long g_allocators = 0;            // allocator objects in existence
inline void dead_allocator(int id) { if (id == -77) diverge("lifetime", "use of an allocator object after its destruction"); }

template <typename T> class TrackAlloc
{
public:
    typedef T value_type;
#ifdef MIN_ALLOC                        // nothing but what an allocator has to provide
private:
    typedef T* pointer;
    typedef std::size_t size_type;
public:
#else
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
#endif
#ifdef POCCA
    typedef std::true_type propagate_on_container_copy_assignment;
#endif
    template <typename U> struct rebind { typedef TrackAlloc<U> other; };
    int id;
    TrackAlloc() NESTL_NOEXCEPT_SPEC : id(0) { ++g_allocators; }
    explicit TrackAlloc(int i) NESTL_NOEXCEPT_SPEC : id(i) { ++g_allocators; }
    TrackAlloc(const TrackAlloc& o) NESTL_NOEXCEPT_SPEC : id(o.id) { ++g_allocators; dead_allocator(id); }
    template <typename U> TrackAlloc(const TrackAlloc<U>& o) NESTL_NOEXCEPT_SPEC : id(o.id) { ++g_allocators; dead_allocator(id); }
    TrackAlloc& operator=(const TrackAlloc& o) NESTL_NOEXCEPT_SPEC { dead_allocator(id); dead_allocator(o.id); id = o.id; return *this; }
    ~TrackAlloc() { dead_allocator(id); *const_cast<volatile int*>(&id) = -77; --g_allocators; }

    template <typename E> pointer allocate(E& err, size_type n, const void* = 0) NESTL_NOEXCEPT_SPEC
    {
        dead_allocator(id);
        if (F.hit_alloc()) { build_bad_alloc(err); return nullptr; }
        if (n > ALLOC_LIMIT / sizeof(T)) { F.organic = true; build_bad_alloc(err); return nullptr; }
        size_t bytes = n * sizeof(T);
        void* p = 0;
        size_t al = std::max<size_t>(alignof(T), sizeof(void*));
        if (posix_memalign(&p, al, bytes ? bytes : 1) != 0) { build_bad_alloc(err); return nullptr; }
        memset(p, 0xA5, bytes);
        Block b; b.owner = id; b.n = n; b.bytes = bytes; b.serial = ++g_block_serial;
        g_blocks[reinterpret_cast<uintptr_t>(p)] = b;
        if (g_mem) mem_event("alloc", b.serial, id, long(n), 0);
        return static_cast<pointer>(p);
    }
    void deallocate(pointer p, size_type n) NESTL_NOEXCEPT_SPEC
    {
        if (p == nullptr) return;
        dead_allocator(id);
        if (F.armed) ++F.n_dealloc;
        std::map<uintptr_t, Block>::iterator it = g_blocks.find(reinterpret_cast<uintptr_t>(p));
        if (it == g_blocks.end())
        {
            if (g_mem) mem_event("dealloc", 0, id, long(n), 0);
            diverge("lifetime", "deallocate of a block which is not allocated"); return;
        }
        if (g_mem) mem_event("dealloc", it->second.serial, id, long(n), 0);
        if (it->second.owner != id) diverge("allocator", "block of allocator " + itos(it->second.owner) + " returned to allocator " + itos(id));
        if (it->second.n != n) diverge("lifetime", "block of " + itos(it->second.n) + " objects deallocated with n=" + itos(n));
        std::map<uintptr_t, int>::iterator l = g_live.lower_bound(it->first);
        if (l != g_live.end() && l->first < it->first + it->second.bytes)
            diverge("lifetime", "block deallocated while it still holds a live element");
        memset(p, 0xDD, it->second.bytes);
        g_blocks.erase(it);
        free(p);
    }
};
template <typename T, typename U> bool operator==(const TrackAlloc<T>& a, const TrackAlloc<U>& b) { return a.id == b.id; }
template <typename T, typename U> bool operator!=(const TrackAlloc<T>& a, const TrackAlloc<U>& b) { return a.id != b.id; }

// ---------------------------------------------------------------- element
inline void mem_cell(const char* e, const void* p)
{
    if (!g_mem) return;
    const std::pair<const uintptr_t, Block>* b = block_of(p);
    if (b) mem_event(e, b->second.serial, 0, 0, long(reinterpret_cast<uintptr_t>(p) - b->first));       // not for objects outside of container storage
}
inline void reg_live(const void* p, int size)
{
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    mem_cell("ctor", p);
    if (g_live.count(a)) diverge("lifetime", "element constructed over a live element");
    if (a % ELEM_ALIGN != 0) diverge("lifetime", "element constructed at a misaligned address");
    g_live[a] = size;
}
inline void unreg_live(const void* p)
{
    mem_cell("dtor", p);
    if (!g_live.erase(reinterpret_cast<uintptr_t>(p))) diverge("lifetime", "destruction of an element which is not alive");
}
inline bool is_live(const void* p) { return ELEM_KIND >= 4 || g_live.count(reinterpret_cast<uintptr_t>(p)) != 0; }
inline void use_live(const void* p, const char* what)
{
    if (F.armed && ELEM_KIND < 4) mem_cell("use", p);
    if (!is_live(p)) diverge("lifetime", str(what) + " of an element which is not alive");
}

static const int MOVED = -7;
static long g_elem_copies = 0, g_elem_moves = 0;

#ifdef PLAIN                            // a fundamental type, one byte long
typedef PLAIN Elem;
#elif ELEM_KIND == 4
static int g_pad = 0;                   // equal elements do not have equal bytes
struct alignas(ELEM_ALIGN) Elem
{
    int v; int pad;
    Elem() = default;
    Elem(const Elem&) = default;
    Elem(int x) NESTL_NOEXCEPT_SPEC : v(x), pad(++g_pad) {}
    bool operator==(const Elem& o) const { return v == o.v; }
    bool operator<(const Elem& o) const { return v < o.v; }
};
#elif ELEM_KIND < 4
struct alignas(ELEM_ALIGN) Elem
{
    int v;
    int pad;
#if ELEM_KIND == 1
    Elem() : v(0), pad(0) { fail(); reg_live(this, sizeof(Elem)); }
    Elem(int x) : v(x), pad(0) { fail(); reg_live(this, sizeof(Elem)); }
    Elem(const Elem& o) : v(0), pad(0) { use_live(&o, "copy"); fail(); v = o.v; ++g_elem_copies; reg_live(this, sizeof(Elem)); }
    Elem(Elem&& o) NESTL_NOEXCEPT_SPEC : v(0), pad(0) { use_live(&o, "move"); v = o.v; o.v = MOVED; ++g_elem_moves; reg_live(this, sizeof(Elem)); }
    Elem& operator=(const Elem& o) { use_live(&o, "assign from"); use_live(this, "assign to"); fail(); v = o.v; ++g_elem_copies; return *this; }
    Elem& operator=(Elem&& o) NESTL_NOEXCEPT_SPEC { use_live(&o, "move-assign from"); use_live(this, "move-assign to"); int t = o.v; if (&o != this) o.v = MOVED; v = t; ++g_elem_moves; return *this; }
    static void fail() { if (F.hit_elem()) { throw_elem(); } }
#else
    Elem() NESTL_NOEXCEPT_SPEC : v(0), pad(0) { reg_live(this, sizeof(Elem)); }
    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;
#if ELEM_KIND == 2
    Elem(Elem&& o) NESTL_NOEXCEPT_SPEC : v(0), pad(0) { use_live(&o, "move"); v = o.v; o.v = MOVED; ++g_elem_moves; reg_live(this, sizeof(Elem)); }
    Elem& operator=(Elem&& o) NESTL_NOEXCEPT_SPEC { use_live(&o, "move-assign from"); use_live(this, "move-assign to"); int t = o.v; if (&o != this) o.v = MOVED; v = t; ++g_elem_moves; return *this; }
#endif
#endif
    ~Elem() { unreg_live(this); v = -99; }
    bool operator==(const Elem& o) const { use_live(this, "comparison"); use_live(&o, "comparison"); return v == o.v; }
    bool operator<(const Elem& o) const { use_live(this, "comparison"); use_live(&o, "comparison"); return v < o.v; }
};
#endif
#ifdef PLAIN
inline int val(const Elem& e) { return int(e); }
inline void setv(Elem& e, int n) { e = Elem(n); }
inline size_t live_count(size_t expected) { return expected; }
inline long leaves_of(int) { return 0; }
inline bool nested_accounts(long) { return true; }
inline bool nested_clean(const char*) { return true; }
#define EMPL(t, x) (x)
#elif !NESTED
static_assert(sizeof(Elem) == ELEM_ALIGN, "");
inline int val(const Elem& e) { return e.v; }
inline void setv(Elem& e, int n) { e.v = n; }
inline size_t live_count(size_t expected) { return ELEM_KIND == 4 ? expected : g_live.size(); }
inline long leaves_of(int) { return 0; }
inline bool nested_accounts(long) { return true; }
inline bool nested_clean(const char*) { return true; }
#define EMPL(t, x) (x)
#else
// elements which are containers: leaves and inner blocks are tracked separately from the outer storage
static std::set<const void*> g_leaves;
static std::map<void*, size_t> g_inner;
struct Leaf
{
    int v;
    Leaf() NESTL_NOEXCEPT_SPEC : v(0) { reg(); }
    Leaf(Leaf&& o) NESTL_NOEXCEPT_SPEC : v(o.v) { o.check("move"); o.v = MOVED; if (F.armed) ++g_elem_moves; reg(); }
    Leaf(const Leaf&) = delete;
    Leaf& operator=(const Leaf&) = delete;
    ~Leaf() { if (!g_leaves.erase(this)) diverge("lifetime", "destruction of a nested element which is not alive"); v = -99; }
    void reg() { if (!g_leaves.insert(this).second) diverge("lifetime", "nested element constructed over a live one"); }
    void check(const char* what) const { if (!g_leaves.count(this)) diverge("lifetime", str(what) + " of a nested element which is not alive"); }
    bool operator==(const Leaf& o) const { check("comparison"); o.check("comparison"); return v == o.v; }
};
namespace nestl
{
template <> struct two_phase_initializator<Leaf>
{
    template <typename E> static void init(E& err, Leaf& d, const Leaf& o) NESTL_NOEXCEPT_SPEC
    {
        d.check("two-phase init"); o.check("copy");
        if (F.hit_elem()) { d.v = 555; set_elem_error(err, F.serial); return; }
        d.v = o.v; if (F.armed) ++g_elem_copies;
    }
};
}
template <typename T> class ElemAlloc
{
public:
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <typename U> struct rebind { typedef ElemAlloc<U> other; };
    ElemAlloc() NESTL_NOEXCEPT_SPEC {}
    template <typename U> ElemAlloc(const ElemAlloc<U>&) NESTL_NOEXCEPT_SPEC {}
    template <typename E> pointer allocate(E& err, size_type n, const void* = 0) NESTL_NOEXCEPT_SPEC
    {
        if (F.hit_elem()) { F.elem_kind = "bad_alloc"; build_bad_alloc(err); return nullptr; }
        if (n > ALLOC_LIMIT / sizeof(T)) { diverge("contents", "absurd allocation request by a nested container"); build_bad_alloc(err); return nullptr; }
        void* p = malloc(n * sizeof(T) + 1);
        memset(p, 0xA5, n * sizeof(T));
        g_inner[p] = n;
        return static_cast<pointer>(p);
    }
    void deallocate(pointer p, size_type n) NESTL_NOEXCEPT_SPEC
    {
        if (p == nullptr) return;
        std::map<void*, size_t>::iterator it = g_inner.find(p);
        if (it == g_inner.end()) { diverge("lifetime", "a nested container deallocates a block which is not allocated"); return; }
        if (it->second != n) diverge("lifetime", "nested block of " + itos(it->second) + " objects deallocated with n=" + itos(n));
        g_inner.erase(it);
        free(p);
    }
};
template <typename T, typename U> bool operator==(const ElemAlloc<T>&, const ElemAlloc<U>&) { return true; }
template <typename T, typename U> bool operator!=(const ElemAlloc<T>&, const ElemAlloc<U>&) { return false; }
#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#if ELEM_KIND == 5
typedef nestl::impl::vector<Leaf, ElemAlloc<Leaf> > Elem;
#elif ELEM_KIND == 6
typedef nestl::impl::list<Leaf, ElemAlloc<Leaf> > Elem;
#elif ELEM_KIND == 7
typedef nestl::vector<Leaf, ElemAlloc<Leaf> > Elem;
#elif ELEM_KIND == 8
typedef nestl::list<Leaf, ElemAlloc<Leaf> > Elem;
#else
typedef nestl::impl::vector<Leaf, ElemAlloc<Leaf> > Inner;
typedef nestl::impl::vector<Inner, ElemAlloc<Inner> > Elem;
#endif
// the value k is a container of k leaves k, 1, 2, ..., k-1 (kind 9: of k such containers of sizes 1, 2, 1, ...)
template <typename C> void fill_leaves(C& c, int k, int n)
{
    Err e;
    c.clear();
    for (int i = 0; i < n && !e; ++i) { c.emplace_back_nothrow(e); if (!e) c.back().v = i == 0 ? k : i; }
    if (e) diverge("spurious-error", "error while building a nested container: " + err_kind(e));
}
template <typename C> bool has_leaves(const C& c, int k, int n)
{
    if (int(c.size()) != n) return false;
    int i = 0;
    for (typename C::const_iterator it = c.cbegin(); it != c.cend(); ++it, ++i) { (*it).check("access"); if ((*it).v != (i == 0 ? k : i)) return false; }
    return true;
}
#if ELEM_KIND == 9
inline int val(const Elem& e)
{
    int k = int(e.size());
    if (k > 100) return -5;
    for (int i = 0; i < k; ++i) if (!has_leaves(e[i], k, 1 + i % 2)) return -5;
    return k;
}
inline void setv(Elem& e, int k)
{
    Err err;
    e.clear();
    for (int i = 0; i < k && !err; ++i) { e.emplace_back_nothrow(err); if (!err) fill_leaves(e.back(), k, 1 + i % 2); }
    if (err) diverge("spurious-error", "error while building a nested container: " + err_kind(err));
}
inline long leaves_of(int k) { return k + k / 2; }
#else
inline int val(const Elem& e)
{
    int k = int(e.size());
    if (k > 100) return -5;
    return has_leaves(e, k, k) ? k : -5;
}
inline void setv(Elem& e, int k) { fill_leaves(e, k, k); }
inline long leaves_of(int k) { return k; }
#endif
inline bool operator<(const Elem& a, const Elem& b) { return val(a) < val(b); }
inline size_t live_count(size_t expected) { return expected; }
inline bool nested_accounts(long n)
{
    if (long(g_leaves.size()) == n) return true;
    diverge("leak", itos(g_leaves.size()) + " nested elements alive while the containers hold " + itos(n));
    return false;
}
inline bool nested_clean(const char* when)
{
    bool ok = true;
    if (!g_leaves.empty()) { diverge("leak", itos(g_leaves.size()) + " nested element(s) never destroyed (" + when + ")"); g_leaves.clear(); ok = false; }
    if (!g_inner.empty()) { diverge("leak", itos(g_inner.size()) + " nested block(s) never deallocated (" + when + ")"); g_inner.clear(); ok = false; }
    return ok;
}
#define EMPL(t, x) (static_cast<const Elem&>((t).e))
#endif

#if ELEM_KIND == 2 || ELEM_KIND == 3
namespace nestl
{
template <> struct two_phase_initializator<Elem>
{
    template <typename E> static void init(E& err, Elem& d, const Elem& o) NESTL_NOEXCEPT_SPEC
    {
        if (!is_live(&d)) diverge("lifetime", "two-phase init of an element which is not alive"); use_live(&o, "copy");
        if (d.v != 0) diverge("lifetime", "two-phase init of an object which is not default constructed");
        if (F.hit_elem()) { mem_cell("initfail", &d); d.v = 555; set_elem_error(err, F.serial); return; }
        mem_cell("init", &d); d.v = o.v; ++g_elem_copies;
    }
    template <typename E> static void init(E& err, Elem& d, int x) NESTL_NOEXCEPT_SPEC
    {
        if (!is_live(&d)) diverge("lifetime", "two-phase init of an element which is not alive");
        if (d.v != 0) diverge("lifetime", "two-phase init of an object which is not default constructed");
        if (F.hit_elem()) { mem_cell("initfail", &d); d.v = 555; set_elem_error(err, F.serial); return; }
        mem_cell("init", &d); d.v = x;
    }
};
}
#endif

// a temporary owned by the harness
struct Tmp
{
    Elem e;
    int v0;
    explicit Tmp(int v) : e(), v0(v) { setv(e, v); }
    // has the value been handed over by an operation which took it as an rvalue (1 where that cannot be seen)
    int handed() const
    {
#if ELEM_KIND == 1 || ELEM_KIND == 2
        return e.v == MOVED;
#elif NESTED
        return v0 == 0 || val(e) == 0;
#else
        return 1;
#endif
    }
};
struct Src                               // source range owned by the harness
{
    Elem* a; size_t n;
    explicit Src(const std::vector<int>& v) : a(0), n(v.size())
    {
        void* p = 0;
        if (posix_memalign(&p, std::max<size_t>(alignof(Elem), 16), (n + 1) * sizeof(Elem)) != 0) abort();
        a = static_cast<Elem*>(p);
        for (size_t i = 0; i < n; ++i) { ::new(static_cast<void*>(a + i)) Elem(); setv(a[i], v[i]); }
    }
    ~Src() { for (size_t i = 0; i < n; ++i) a[i].~Elem(); free(a); }
    Src(const Src&) = delete;
    Src& operator=(const Src&) = delete;
    Elem* b() { return a; }
    Elem* e() { return a + n; }
};
template <typename Tag> struct TagIt
{
    typedef Tag iterator_category; typedef Elem value_type; typedef std::ptrdiff_t difference_type;
    typedef Elem* pointer; typedef Elem& reference;
    Elem* p;
    explicit TagIt(Elem* q = 0) : p(q) {}
    Elem& operator*() const { return *p; }
    Elem* operator->() const { return p; }
    TagIt& operator++() { ++p; return *this; }
    TagIt operator++(int) { TagIt t = *this; ++p; return t; }
    TagIt& operator--() { --p; return *this; }
    TagIt operator--(int) { TagIt t = *this; --p; return t; }
    bool operator==(const TagIt& o) const { return p == o.p; }
    bool operator!=(const TagIt& o) const { return p != o.p; }
};
typedef TagIt<std::input_iterator_tag> InIt;
typedef TagIt<std::bidirectional_iterator_tag> BiIt;

// ---------------------------------------------------------------- tables emitted by TLC
struct Op { str n; int c; std::vector<int> x, s; str txt; };
struct Out { str f, err, st, ret, org; };
struct Row { Op op; bool pure; std::vector<Out> outs; };

inline Op parse_op(const str& n, const str& c, const str& x, const str& s)
{
    Op o; o.n = n; o.c = atoi(c.c_str()); o.x = ints(x); o.s = ints(s);
    o.txt = n + "(c" + c + (x.empty() ? "" : " x=" + x) + (s.empty() ? "" : " s=" + s) + ")";
    return o;
}
// the table file, parsed state by state on demand
class Table
{
    const char* m; size_t n;
    std::vector<std::pair<str, size_t> > order;               // state -> offset behind its line
    std::unordered_map<str, size_t> index;
    mutable std::unordered_map<size_t, std::vector<Row> > cache;
    static void fields(const char* b, const char* e, std::vector<str>& p)
    {
        p.clear();
        for (const char* q = b; ; ) { const char* t = static_cast<const char*>(memchr(q, '\t', size_t(e - q))); if (!t) { p.push_back(str(q, size_t(e - q))); return; } p.push_back(str(q, size_t(t - q))); q = t + 1; }
    }
public:
    explicit Table(const char* path)
    {
        int fd = open(path, O_RDONLY);
        off_t len = fd < 0 ? -1 : lseek(fd, 0, SEEK_END);
        if (len <= 0) { perror(path); exit(3); }
        n = size_t(len);
        m = static_cast<const char*>(mmap(0, n, PROT_READ, MAP_PRIVATE, fd, 0));
        if (m == MAP_FAILED) { perror(path); exit(3); }
        for (const char* q = m; q < m + n; )
        {
            const char* e = static_cast<const char*>(memchr(q, '\n', size_t(m + n - q)));
            if (!e) e = m + n;
            if (*q == 'S') { str k(q + 2, size_t(e - q - 2)); index[k] = order.size(); order.push_back(std::make_pair(k, size_t(e + 1 - m))); }
            q = e + 1;
        }
    }
    size_t size() const { return order.size(); }
    const str& state(size_t i) const { return order[i].first; }
    std::vector<Row> parse(size_t i) const
    {
        std::vector<Row> r; std::vector<str> p;
        for (const char* q = m + order[i].second; q < m + n && *q != 'S'; )
        {
            const char* e = static_cast<const char*>(memchr(q, '\n', size_t(m + n - q)));
            if (!e) e = m + n;
            fields(q, e, p);
            if (p[0] == "O") { r.push_back(Row()); r.back().op = parse_op(p[1], p[2], p[3], p[4]); r.back().pure = p.size() > 5 && p[5] == "1"; }
            else if (p[0] == "R") { r.back().outs.push_back(Out()); Out& o = r.back().outs.back(); o.f = p[1]; o.err = p[2]; o.st = p[3]; o.ret = p[4]; o.org = p[5]; }
            q = e + 1;
        }
        return r;
    }
    const std::vector<Row>* rows(const str& st) const
    {
        std::unordered_map<str, size_t>::const_iterator f = index.find(st);
        if (f == index.end()) return 0;
        std::unordered_map<size_t, std::vector<Row> >::iterator c = cache.find(f->second);
        if (c == cache.end()) c = cache.insert(std::make_pair(f->second, parse(f->second))).first;
        return &c->second;
    }
};

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 2862933555777941757ULL + 3037000493ULL) { for (int i = 0; i < 5; ++i) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
    int below(int n) { return n <= 0 ? 0 : int((next() >> 11) % uint64_t(n)); }
};
// a sequence equal to q, or differing from it at one place
static inline std::vector<int> near(std::vector<int> q, Rng& r)
{
    switch (r.below(5))
    {
    case 0: if (!q.empty()) q.pop_back(); break;
    case 1: q.push_back(1); break;
    case 2: case 3: if (!q.empty()) { size_t k = r.below(3) ? size_t(r.below(int(q.size()))) : q.size() - 1; q[k] = q[k] == 1 ? 2 : 1; } break;
    default: break;
    }
    return q;
}

// ---------------------------------------------------------------- engine
inline bool globals_clean(const char* when)
{
    bool ok = true;
    if (g_mem) mem_event("end", 0, 0, 0, 0);
    if (!g_live.empty()) { diverge("leak", itos(g_live.size()) + " element(s) never destroyed (" + when + ")"); g_live.clear(); ok = false; }
    if (!g_blocks.empty())
    {
        diverge("leak", itos(g_blocks.size()) + " block(s) never returned to the allocator (" + when + ")");
        g_blocks.clear(); ok = false;
    }
    if (g_allocators != 0) { diverge(g_allocators > 0 ? "leak" : "lifetime", itos(g_allocators) + " allocator object(s) never destroyed (" + when + ")"); g_allocators = 0; ok = false; }
    if (!nested_clean(when)) ok = false;
    return ok;
}

// Sys: bool supports(Op), void materialize(str, flavor), void apply(Op, str& err, str& ret), str observe(),
//      str origins() (node identity after the last apply), void before() (snapshot node identity)
inline bool org_ok(const str& want, const str& got)
{
    if (want == "*" || want == got) return true;
    std::vector<str> w = split(want, ';'), g = split(got, ';');
    if (w.size() != g.size()) return false;
    for (size_t i = 0; i < w.size(); ++i) if (w[i] != "*" && w[i] != g[i]) return false;
    return true;
}
static bool g_ambiguous = false;
static str g_only, g_skip;              // operation name prefixes: only these, none of these
static FILE* g_dump = 0;                // observed outcomes, compared between build configurations
inline int show(const Elem& e) { return val(e); }
// the iterator contract over [b, e): every way of stepping shows exactly want, in both directions
template <typename It, typename Val> inline bool walk_all(It b, It e, const std::vector<int>& want, Val val)
{
    const size_t n = want.size();
    size_t k = 0;
    It i = b;
    for (; i != e && k < n; ++k) { if (i == e || val(*i) != want[k]) return false; It j = i; It& r = ++i; if (&r != &i || j == i) return false; }
    if (k != n || i != e || !(i == e)) return false;
    i = b; k = 0;
    for (; i != e && k < n; ++k) { It j = i++; if (j == i || val(*j) != want[k]) return false; }
    if (k != n || !(i == e)) return false;
    for (; i != b && k > 0;) { It j = i; It& r = --i; --k; if (&r != &i || j == i || val(*i) != want[k]) return false; }
    if (k != 0 || !(i == b)) return false;
    i = e; k = n;
    for (; i != b && k > 0;) { It j = i--; --k; if (j == i || val(*i) != want[k]) return false; }
    return k == 0 && i == b;
}
template <typename Sys> bool wanted(const Op& op)
{
    return (g_only.empty() || op.n.compare(0, g_only.size(), g_only) == 0) && (g_skip.empty() || op.n.compare(0, g_skip.size(), g_skip) != 0) && Sys::supports(op);
}
// a Sys may name the clause a wrong state violates
template <typename Sys> auto contents_tag_of(int, const Row& row, const str& f, const str& now) -> decltype(Sys::contents_tag(now, now))
{
    for (size_t i = 0; i < row.outs.size(); ++i) if (row.outs[i].f == f) return Sys::contents_tag(row.outs[i].st, now);
    return "contents";
}
template <typename Sys> str contents_tag_of(long, const Row&, const str&, const str&) { return "contents"; }
template <typename Sys> const Out* step(Sys& sys, const str& st, const Row& row, long fa, long fe)
{
    ++g_cases;
    g_op = row.op.n;
    F.request(fa, fe);
    sys.before();
    str err = "none", ret;
    long made = g_elem_copies + g_elem_moves;
    sys.apply(row.op, err, ret);
    made = g_elem_copies + g_elem_moves - made;
    str f = F.fired();
    g_fault = f;
    err = norm_err(f, err);
    if (f != "none") ++g_fired;
    if (row.pure && (F.n_alloc || made))
        diverge("purity", "state " + st + " --" + row.op.txt + "--> performed " + itos(F.n_alloc) + " allocation(s) and " + itos(made) + " element copies or moves, the specification allows none");
    str now = sys.observe();
    if (g_dump) fprintf(g_dump, "%s %s fail_alloc=%ld fail_elem=%ld => %s err=%s state %s ret %s\n", st.c_str(), row.op.txt.c_str(), fa, fe, f.c_str(), err.c_str(), now.c_str(), f == "none" ? ret.c_str() : "");
    // pick the outcomes of the class which happened
    const Out* best = 0; bool any = false, full = false; str seen; g_ambiguous = false;
    str org = sys.origins();
    for (size_t i = 0; i < row.outs.size(); ++i)
    {
        const Out& o = row.outs[i];
        if (o.f != f) continue;
        any = true;
        if (!Sys::st_match(o.st, now)) continue;
        if (seen.empty()) seen = o.st; else if (seen != o.st) g_ambiguous = true;
        if (!best) best = &o;
        if (o.ret != "*" && o.ret != ret) continue;
        if (!org_ok(o.org, org)) continue;
        if (!full) { full = true; best = &o; }
    }
    str what = "state " + st + " --" + row.op.txt + "--> observed " + now + " err=" + err + " ret=" + ret + (org.empty() ? "" : " org=" + org);
    if (!any) { diverge("error", "a " + f + " failure is not a possible outcome: " + what); return 0; }
    str want;
    for (size_t i = 0; i < row.outs.size(); ++i) if (row.outs[i].f == f) { want = row.outs[i].err; break; }
    if (err != want) { diverge(want == "none" ? "spurious-error" : err == "none" ? "lost-error" : "error-kind", "expected error " + want + ": " + what); return 0; }
    if (!best)
    {
        str exp; int n = 0;
        for (size_t i = 0; i < row.outs.size(); ++i) if (row.outs[i].f == f && n++ < 6) exp += " {" + row.outs[i].st + "}";
        bool al = false;
        if (Sys::has_alloc_field())
            for (size_t i = 0; i < row.outs.size(); ++i)
                if (row.outs[i].f == f && Sys::st_match(row.outs[i].st, now.substr(0, now.rfind('|')) + row.outs[i].st.substr(row.outs[i].st.rfind('|')))) al = true;
        str why = contents_tag_of<Sys>(0, row, f, now);
        diverge(al ? "allocator" : f == "none" ? why : "failstate", "specification allows" + exp + ": " + what);
        return 0;
    }
    if (best->ret != "*" && best->ret != ret) { diverge("ret", "expected result " + best->ret + ": " + what); return 0; }
    if (!org_ok(best->org, org)) { diverge("address", "expected origins " + best->org + ": " + what); return 0; }
    if (!sys.iterators_ok(best->org)) return 0;
    if (!sys.accounts()) return 0;
    return best;
}

template <typename Sys> void exhaustive(const Table& t, int flavors, int part, int parts, long from)
{
    const long STRIDE = 100000;                                 // rows are numbered state * STRIDE + operation
    for (size_t si = 0; si < t.size(); ++si)
    {
        if (long(si % size_t(parts)) != part || long(si) < from / STRIDE) continue;
        const str& st = t.state(si);
        const std::vector<Row> rows = t.parse(si);
        for (size_t i = 0; i < rows.size(); ++i)
        {
            const Row& row = rows[i];
            if (!wanted<Sys>(row.op)) continue;
            g_row = long(si) * STRIDE + long(i);
            if (g_row < from) continue;
            for (int fl = 0; fl < flavors; ++fl)
                for (int cls = 0; cls < 3; ++cls)
                    for (long k = 1; k < 64; ++k)
                    {
                        if ((cls == 0 && k > 1) || (cls != 0 && row.pure)) break;      // pure operations have nothing which could fail
                        long fa = cls == 1 ? k : 0, fe = cls == 2 ? k : 0;
                        g_op = row.op.n; g_fault = cls == 1 ? "alloc" : cls == 2 ? "elem" : "none";
                        set_case("exh state=" + st + " flavor=" + itos(fl) + " op=" + row.op.txt + " fail_alloc=" + itos(fa) + " fail_elem=" + itos(fe));
                        bool fired;
                        {
                            Sys sys;
                            sys.materialize(st, fl);
                            long d0 = g_divs;
                            const Out* o = step(sys, st, row, fa, fe);
                            fired = F.fired() != "none";
                            if (!o && g_divs == d0) diverge("contents", "unexplained");
                            if (g_samples.size() < 3 && fired) g_samples.push_back(g_case + " -> " + (o ? o->st : str("?")));
                            F.request(0, 0);
                        }
                        g_op = row.op.n;
                        if (!globals_clean("after the containers were destroyed")) break;
                        if (cls != 0 && !fired) break;
                    }
        }
    }
}

template <typename Sys> void walks(const Table& t, uint64_t seed, long steps, int len, const str& start)
{
    Rng r(seed);
    long done = 0;
    while (done < steps)
    {
        str st = start;
        std::vector<str> h;
        {
            Sys sys;
            sys.materialize(st, 0);
            for (int i = 0; i < len && done < steps; ++i)
            {
                const std::vector<Row>* it = t.rows(st);
                if (!it) { fprintf(stderr, "walk left the table: %s\n", st.c_str()); exit(3); }
                std::vector<int> ok;
                for (size_t j = 0; j < it->size(); ++j) if (wanted<Sys>((*it)[j].op)) ok.push_back(int(j));
                if (ok.empty()) break;
                const Row& row = (*it)[ok[r.below(int(ok.size()))]];
                long fa = 0, fe = 0;
                int q = r.below(10);
                if (q == 0) fa = 1 + r.below(4);
                else if (q == 1) fe = 1 + r.below(6);
                h.push_back(row.op.txt + (fa ? "!alloc" + itos(fa) : "") + (fe ? "!elem" + itos(fe) : ""));
                str c = "walk seed=" + itos(seed) + " flavor=0:";
                for (size_t k = 0; k < h.size(); ++k) c += " " + h[k];
                g_op = row.op.n; g_fault = fa ? "alloc" : fe ? "elem" : "none";
                set_case(c);
                const Out* o = step(sys, st, row, fa, fe);
                ++done;
                if (!o || g_ambiguous) break;      // the state cannot be told from outside: start over
                st = o->st;
            }
            if (g_samples.size() < 5) g_samples.push_back(g_case.substr(0, 600));
            F.request(0, 0);
            sys.teardown();
        }
        globals_clean("after the containers were destroyed");
    }
}

// ---------------------------------------------------------------- traces (validated by the Trace*.tla specifications)
struct TraceOut
{
    FILE* f; long n;
    TraceOut() : f(0), n(0) {}
    void open(const str& path)
    {
        f = fopen(g_want_mem ? "/dev/null" : path.c_str(), "w"); if (!f) { perror("trace"); exit(3); } setvbuf(f, 0, _IOFBF, 1 << 20);
        if (g_want_mem) { g_mem = fopen(path.c_str(), "w"); if (!g_mem) { perror("trace"); exit(3); } setvbuf(g_mem, 0, _IOFBF, 1 << 20); }
    }
    void line(const str& s) { fputs(s.c_str(), f); fputc('\n', f); ++n; }
    void close() { if (f) { fclose(f); f = 0; } if (g_mem) { fclose(g_mem); g_mem = 0; } printf("TRACE\t%ld\n", n); }
};
static TraceOut TR;
[[noreturn]] inline void finish()
{
    if (TR.f) TR.close();
    for (size_t i = 0; i < g_samples.size(); ++i) printf("SAMPLE\t%s\n", clean(g_samples[i]).c_str());
    if (g_dump) fclose(g_dump);
    printf("STATS\tcases=%ld\tfired=%ld\tdivs=%ld\n", g_cases, g_fired, g_divs);
    fflush(stdout);
    _exit(0);
}

// no call in progress: what two containers own
template <typename C> str mem_owned(C& c, long cap)
{
    str s = "[" + itos(c.get_allocator().id) + "," + itos(cap) + ",[";
    size_t k = 0;
    for (typename C::iterator i = c.begin(); i != c.end() && k < 100000; ++i, ++k)
    {
        const std::pair<const uintptr_t, Block>* b = block_of(&*i);
        s += str(k ? "," : "") + "[" + itos(b ? b->second.serial : 0) + "," + itos(b ? (long long)(reinterpret_cast<uintptr_t>(&*i) - b->first) : -1) + "]";
    }
    return s + "]]";
}
template <typename C> void mem_quiet(C& a, long ca, C& b, long cb)
{
    if (!g_mem) return;
    fprintf(g_mem, "{\"e\":\"quiet\",\"b\":0,\"o\":0,\"m\":0,\"k\":0,\"n\":\"%s\",\"f\":\"%s\",\"tr\":%d,\"q\":[%s,%s]}\n", g_op.c_str(), g_fault.c_str(), ELEM_KIND < 4, mem_owned(a, ca).c_str(), mem_owned(b, cb).c_str());
}
inline str jarr(const std::vector<int>& v) { return "[" + join(v) + "]"; }
inline str jop(const Op& op)
{
    return "{\"n\":\"" + op.n + "\",\"c\":" + itos(op.c) + ",\"x\":" + jarr(op.x) + ",\"s\":" + jarr(op.s);
}
inline Op mk(const str& n, int c, const std::vector<int>& x = std::vector<int>(), const std::vector<int>& s = std::vector<int>())
{
    Op o; o.n = n; o.c = c; o.x = x; o.s = s;
    o.txt = n + "(c" + itos(c) + " x=" + join(x) + " s=" + join(s) + ")";
    return o;
}
inline std::vector<int> iv() { return std::vector<int>(); }
inline std::vector<int> iv(int a) { return std::vector<int>(1, a); }
inline std::vector<int> iv(int a, int b) { std::vector<int> v(1, a); v.push_back(b); return v; }
inline std::vector<int> iv(int a, int b, int c) { std::vector<int> v = iv(a, b); v.push_back(c); return v; }

// ---------------------------------------------------------------- very long sequences, written as runs <<first, count, step, identity of the first>>
struct RunOf { int a, n, d; };
inline std::vector<int> unroll(const std::vector<RunOf>& r)
{
    std::vector<int> v;
    for (size_t k = 0; k < r.size(); ++k) for (int i = 0; i < r[k].n; ++i) v.push_back(r[k].a + i * r[k].d);
    return v;
}
inline str runs_json(const std::vector<int>& v, const std::vector<long>& o)
{
    str s = "[";
    for (size_t i = 0; i < v.size();)
    {
        size_t j = i + 1; int d = 0;
        for (; j < v.size(); ++j)
        {
            if (j == i + 1) { d = v[j] - v[i]; if (d != 0 && d != 1) { d = 0; break; } }
            if (v[j] - v[j - 1] != d || (o[i] == 0 ? o[j] != 0 : o[j] != o[j - 1] + 1)) break;
        }
        if (j == i + 1) d = 0;
        s += str(i ? "," : "") + "[" + itos(v[i]) + "," + itos((long long)(j - i)) + "," + itos(d) + "," + itos(o[i]) + "]";
        i = j;
    }
    return s + "]";
}
inline str runs_json(const std::vector<RunOf>& r)
{
    str s = "[";
    for (size_t k = 0; k < r.size(); ++k) s += str(k ? "," : "") + "[" + itos(r[k].a) + "," + itos(r[k].n) + "," + itos(r[k].d) + ",0]";
    return s + "]";
}
inline std::vector<RunOf> random_runs(Rng& r, int total)
{
    std::vector<RunOf> q;
    while (total > 0 && q.size() < 3) { RunOf x; x.n = q.size() == 2 ? total : 1 + r.below(total); x.a = 1 + r.below(50) * 1000; x.d = r.below(3) ? 1 : 0; total -= x.n; q.push_back(x); }
    return q;
}
// lengths and positions of every magnitude, large ones included
inline int any_size(Rng& r, int most)
{
    switch (r.below(6))
    {
    case 0: return r.below(std::min(most, 3) + 1);
    case 1: return r.below(std::min(most, 300) + 1);
    case 2: return most - r.below(std::min(most, 300) + 1);
    case 3: { int k = (1 << (8 + r.below(9))) + r.below(3) - 1; return std::min(k, most); }
    default: return r.below(most + 1);
    }
}

struct Args
{
    std::map<str, str> m;
    Args(int argc, char** argv)
    {
        for (int i = 1; i < argc; ++i) { str a = argv[i]; size_t p = a.find('='); if (p != str::npos) m[a.substr(0, p)] = a.substr(p + 1); }
        ctx_open(get("ctx", "").c_str());
        g_only = get("only", ""); g_skip = get("skip", ""); g_want_mem = get("mem", "") == "1";
        if (!get("dump", "").empty()) { g_dump = fopen(get("dump", "").c_str(), "a"); if (!g_dump) { perror("dump"); exit(3); } setvbuf(g_dump, 0, _IOLBF, 1 << 16); }
        setvbuf(stdout, 0, _IOFBF, 1 << 16);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = rlim_t(num("cpu", 300));
        setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    }
    str get(const str& k, const str& d) const { std::map<str, str>::const_iterator i = m.find(k); return i == m.end() ? d : i->second; }
    long num(const str& k, long d) const { std::map<str, str>::const_iterator i = m.find(k); return i == m.end() ? d : atol(i->second.c_str()); }
};

#endif
