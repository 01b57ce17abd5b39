// Conformance driver: executes plans (sequences of public API calls generated from the TLA+ specification)
// against the real boost::circular_buffer / circular_buffer_space_optimized in /repo and records, as ndjson, what is
// observable: results, contents, element life-cycle events, allocator events, exceptions and assertions.
// It never judges anything: all judging is done by the TLA+ specification (spec/CBTrace.tla).
//
//   driver PLAN OUT.ndjson [LE=1] [OB=1] [HD=1] [FROM=n]
//
// Configuration macros: CFG_T element type (0 nothrow-move, 1 throwing move, 2 int, 3 move-only, 4 copy-only, 5 plain struct),
// CFG_SO space optimized buffer, CFG_DBG debug support, CFG_FANCY fancy pointers, CFG_SL stateless allocator,
// CFG_UC allocator without construct/destroy, CFG_SZ allocator with a 16 bit size_type, CFG_CMP elements that are not
// totally ordered (3 is like a NaN).
#ifndef CFG_T
#define CFG_T 0
#endif
#ifndef CFG_SO
#define CFG_SO 0
#endif
#ifndef CFG_DBG
#define CFG_DBG 0
#endif
#ifndef CFG_FANCY
#define CFG_FANCY 0
#endif
#ifndef CFG_SL
#define CFG_SL 0
#endif
#ifndef CFG_UC
#define CFG_UC 0
#endif
#ifndef CFG_SZ
#define CFG_SZ 0
#endif
#ifndef CFG_CMP
#define CFG_CMP 0
#endif
#if CFG_DBG
#define BOOST_CB_ENABLE_DEBUG 1
#define BOOST_ENABLE_ASSERT_HANDLER
#endif

#include <algorithm>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <boost/circular_buffer.hpp>

// ------------------------------------------------------------------------------------------------------------------
// recorder
struct AssertFail {};
struct ElemFault {};
namespace boost {
void assertion_failed(char const*, char const*, char const*, long) { throw AssertFail(); }
void assertion_failed_msg(char const*, char const*, char const*, char const*, long) { throw AssertFail(); }
}

typedef std::ptrdiff_t diff_t;
// the allocator's max_size(); with 16 bit sizes it exceeds the largest difference, and so does not count
static const int MAXSZ = CFG_SZ ? 60000 : 1000;
static const unsigned LIVE = 0xC0FFEE11u, DEAD = 0xDEADBEE5u;
static const unsigned char POISON = 0x5A;

static bool g_log = false;           // inside an instrumented call
static int  g_fault = 0;             // fire at the g_fault-th throwing step (0: never)
static int  g_tick = 0;
static bool g_fired = false;
static bool g_lasting = false;       // every step after the failing one fails as well, until the call ends
static bool g_stuck = false;
static int  g_nw = 0;                // global operator new calls inside instrumented calls
static int  g_cmp = 0;
static int  g_nel = 0, g_nal = 0;
struct Le { int k, a, b; };
static std::vector<Le>* g_le = 0;
static const size_t LE_MAX = 60000;
static bool g_runaway = false;
[[noreturn]] static void runaway();

static void ev(int k, int a, int b) {
    if (!g_log) return;
    if (k <= 7) ++g_nel;
    if (k == 8) ++g_nal;
    bool l = g_log; g_log = false;
    g_le->push_back(Le{k, a, b});
    if (g_le->size() > LE_MAX) runaway();
    g_log = l;
}
template <class E> static void tickx() {
    if (!g_log || g_fault == 0) return;
    if (++g_tick == g_fault || g_stuck) { g_fired = true; g_stuck = g_lasting; ev(10, 0, 0); throw E(); }
}

void* operator new(std::size_t n) {
    if (g_log) ++g_nw;
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

// ------------------------------------------------------------------------------------------------------------------
// storage registry
struct Block { int id; char* base; char* data; size_t bytes; size_t esz; int n; int arena; bool live; bool ext; };
static std::vector<Block>* g_blocks = 0;
static const size_t GUARD = 512;

static Block* find_block(const void* p) {
    const char* c = static_cast<const char*>(p);
    for (size_t i = g_blocks->size(); i-- > 0;) {
        Block& b = (*g_blocks)[i];
        if (c >= b.base && c < b.base + b.bytes + 2 * GUARD) return &b;
    }
    return 0;
}
struct Tmp { int id; };
static std::map<const void*, int>* g_tmp = 0;
static int g_tmpn = 0, g_extn = 0;

static int addr_id(const void* p, size_t esz) {
    if (p == 0) return 0;
    Block* b = find_block(p);
    if (b) {
        diff_t off = static_cast<const char*>(p) - b->data;
        int slot = int(off >= 0 ? off / diff_t(esz) : -((-off + diff_t(esz) - 1) / diff_t(esz)));
        if (b->ext) return -(300000 + b->id * 1000 + slot);
        return b->id * 4096 + 1024 + slot;
    }
    std::map<const void*, int>::iterator it = g_tmp->find(p);
    return it == g_tmp->end() ? 0 : it->second;
}
static int new_obj(const void* p, size_t esz) { // id of an object being constructed at p
    bool l = g_log; g_log = false;
    int id;
    if (find_block(p)) id = addr_id(p, esz);
    else { id = l ? -(++g_tmpn) : -(100000 + ++g_extn); (*g_tmp)[p] = id; }
    g_log = l;
    return id;
}
static void del_obj(const void* p) {
    bool l = g_log; g_log = false;
    if (!find_block(p)) g_tmp->erase(p);
    g_log = l;
}
static int obj(const void* p, size_t esz) {
    bool l = g_log; g_log = false;
    int id = addr_id(p, esz);
    g_log = l;
    return id;
}

// ------------------------------------------------------------------------------------------------------------------
// element types
#if CFG_T == 2
typedef int Elem;
static int val(int v) { return v == 0x5A5A5A5A || v == int(0xCCCCCCCC) ? -9 : v; }
static const bool CLS = false;
#elif CFG_T == 5
struct Elem {
    int v; char c; double d; int z;
    Elem() : v(0), c(0), d(0), z(0) {}
    Elem(int x) : v(x), c(char(x)), d(x), z(~x) {}
};
static int val(const Elem& e) { return e.v == 0 && e.z == 0 && e.d == 0 ? 0 : e.z == ~e.v && e.c == char(e.v) && e.d == e.v ? e.v : -9; }
inline bool operator==(const Elem& a, const Elem& b) { return a.v == b.v; }
inline bool operator<(const Elem& a, const Elem& b) { return a.v < b.v; }
static const bool CLS = false;
#else
static const bool CLS = true;
#if CFG_T == 0 || CFG_T == 3
#define MV_NOEXCEPT noexcept
#define MV_TICK() ((void)0)
#else
#define MV_NOEXCEPT
#define MV_TICK() tickx<ElemFault>()
#endif
struct Elem {
    int v; unsigned magic; const Elem* self;
    bool ok() const { return magic == LIVE && self == this; }
    static int rd(const Elem& o) { return o.ok() ? o.v : -9; }
    void birth(int x) { v = x; magic = LIVE; self = this; }
    Elem() { tickx<ElemFault>(); ev(1, new_obj(this, sizeof(Elem)), 0); birth(0); }
    Elem(int x) { tickx<ElemFault>(); ev(2, new_obj(this, sizeof(Elem)), 0); birth(x); }
#if CFG_T != 3
    Elem(const Elem& o) {
        tickx<ElemFault>();
        int s = obj(&o, sizeof(Elem)); ev(3, new_obj(this, sizeof(Elem)), s); birth(rd(o));
    }
    Elem& operator=(const Elem& o) {
        tickx<ElemFault>();
        ev(5, obj(this, sizeof(Elem)), obj(&o, sizeof(Elem)));
        v = rd(o); // magic/self deliberately untouched: assigning to a dead object does not revive it
        return *this;
    }
#else
    Elem(const Elem&) = delete;
    Elem& operator=(const Elem&) = delete;
#endif
#if CFG_T != 4
    Elem(Elem&& o) MV_NOEXCEPT {
        MV_TICK();
        int s = obj(&o, sizeof(Elem)); ev(4, new_obj(this, sizeof(Elem)), s); birth(rd(o));
        if (o.ok()) o.v = -1;
    }
    Elem& operator=(Elem&& o) MV_NOEXCEPT {
        MV_TICK();
        ev(6, obj(this, sizeof(Elem)), obj(&o, sizeof(Elem)));
        if (this != &o) { v = rd(o); if (o.ok()) o.v = -1; }
        return *this;
    }
#endif
    ~Elem() {
        ev(7, obj(this, sizeof(Elem)), ok() ? 1 : 0);
        magic = DEAD; del_obj(this);
    }
};
static int val(const Elem& e) { return Elem::rd(e); }
inline bool operator==(const Elem& a, const Elem& b) {
    if (g_log) { ++g_cmp; if (!a.ok() || !b.ok()) ev(14, obj(&a, sizeof(Elem)), obj(&b, sizeof(Elem))); }
    return a.v == b.v && !(CFG_CMP && a.v == 3);
}
inline bool operator<(const Elem& a, const Elem& b) {
    if (g_log) { ++g_cmp; if (!a.ok() || !b.ok()) ev(14, obj(&a, sizeof(Elem)), obj(&b, sizeof(Elem))); }
    return a.v < b.v && !(CFG_CMP && (a.v == 3 || b.v == 3));
}
#endif
static int aid(const Elem* p) { return p ? addr_id(p, sizeof(Elem)) : 0; }

// ------------------------------------------------------------------------------------------------------------------
// fancy pointer
#if CFG_FANCY
template <class T> struct FPtr;
template <class T> struct FBase { T* p; };
template <class T> struct FPtr {
    T* p;
    typedef T element_type;
    typedef typename std::remove_const<T>::type value_type;
    typedef std::ptrdiff_t difference_type;
    typedef T* pointer;
    typedef T& reference;
    typedef std::random_access_iterator_tag iterator_category;
    template <class U> using rebind = FPtr<U>;
    FPtr() : p(0) {}
    FPtr(T* q) : p(q) {}
    template <class U, class = typename std::enable_if<std::is_convertible<U*, T*>::value>::type>
    FPtr(const FPtr<U>& o) : p(o.p) {}
    template <class U> explicit operator U*() const { return static_cast<U*>(p); }
    T& operator*() const { return *p; }
    T* operator->() const { return p; }
    T& operator[](diff_t n) const { return p[n]; }
    explicit operator bool() const { return p != 0; }
    FPtr& operator++() { ++p; return *this; }
    FPtr operator++(int) { FPtr t = *this; ++p; return t; }
    FPtr& operator--() { --p; return *this; }
    FPtr operator--(int) { FPtr t = *this; --p; return t; }
    FPtr& operator+=(diff_t n) { p += n; return *this; }
    FPtr& operator-=(diff_t n) { p -= n; return *this; }
    FPtr operator+(diff_t n) const { return FPtr(p + n); }
    FPtr operator-(diff_t n) const { return FPtr(p - n); }
    static FPtr pointer_to(T& r) { return FPtr(&r); }
    friend diff_t operator-(const FPtr& a, const FPtr& b) { return a.p - b.p; }
    friend bool operator==(const FPtr& a, const FPtr& b) { return a.p == b.p; }
    friend bool operator!=(const FPtr& a, const FPtr& b) { return a.p != b.p; }
    friend bool operator<(const FPtr& a, const FPtr& b) { return a.p < b.p; }
    friend bool operator>(const FPtr& a, const FPtr& b) { return a.p > b.p; }
    friend bool operator<=(const FPtr& a, const FPtr& b) { return a.p <= b.p; }
    friend bool operator>=(const FPtr& a, const FPtr& b) { return a.p >= b.p; }
};
template <class T> static T* raw(const FPtr<T>& p) { return p.p; }
#endif
template <class T> static T* raw(T* p) { return p; }

// ------------------------------------------------------------------------------------------------------------------
// allocator
static int g_arena0 = 7;
// Buffers live in pages of their own and, in runs with read-only batteries, so do their blocks: during read-only
// operations these pages are protected, so that any write to them shows, even one that is undone again.
static const size_t PAGE = 4096, NSTORE = 4, ARENA = size_t(1) << 20;
static char* g_pages = 0;
static size_t g_aused = 0;
static bool g_useArena = false;
static volatile sig_atomic_t g_prot = 0, g_wrote = 0;
static void make_pages() {
    void* p = mmap(0, NSTORE * PAGE + ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { std::perror("mmap"); std::_Exit(3); }
    g_pages = static_cast<char*>(p);
}
static void protect(bool on) {
    size_t len = NSTORE * PAGE + ((g_aused + PAGE - 1) & ~(PAGE - 1));
    g_prot = on ? 1 : 0;
    mprotect(g_pages, len, on ? PROT_READ : PROT_READ | PROT_WRITE);
}
static char* get_block(size_t n) {
    n = (n + 63) & ~size_t(63);
    if (g_useArena && !g_prot && g_aused + n <= ARENA) { char* p = g_pages + NSTORE * PAGE + g_aused; g_aused += n; return p; }
    return static_cast<char*>(std::malloc(n));
}
static void free_block(char* p) { if (p < g_pages || p >= g_pages + NSTORE * PAGE + ARENA) std::free(p); }
template <class T> struct Alloc {
    typedef T value_type;
#if CFG_FANCY
    typedef FPtr<T> pointer;
    typedef FPtr<const T> const_pointer;
#else
    typedef T* pointer;
    typedef const T* const_pointer;
#endif
    typedef T& reference;
    typedef const T& const_reference;
#if CFG_SZ
    typedef unsigned short size_type;
    typedef short difference_type;
#else
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
#endif
    template <class U> struct rebind { typedef Alloc<U> other; };
#if CFG_SL
    static int get() { return g_arena0; }
    Alloc() noexcept = default;
    explicit Alloc(int) noexcept {}
    template <class U> Alloc(const Alloc<U>&) noexcept {}
    template <class U> bool operator==(const Alloc<U>&) const { return true; }
    template <class U> bool operator!=(const Alloc<U>&) const { return false; }
#else
    int arena;
    int get() const { return arena; }
    Alloc() noexcept : arena(99) {}
    explicit Alloc(int a) noexcept : arena(a) {}
    template <class U> Alloc(const Alloc<U>& o) noexcept : arena(o.arena) {}
    template <class U> bool operator==(const Alloc<U>& o) const { return arena == o.arena; }
    template <class U> bool operator!=(const Alloc<U>& o) const { return arena != o.arena; }
#endif
    size_type max_size() const noexcept { return std::is_same<T, Elem>::value ? size_type(MAXSZ) : size_type(CFG_SZ ? 60000 : diff_t(1) << 40); }
    pointer allocate(size_type n) {
        tickx<std::bad_alloc>();
        if (std::size_t(n) > std::size_t(1) << 24) throw std::bad_alloc();
        bool l = g_log; g_log = false;
        size_t bytes = n * sizeof(T);
        char* base = get_block(bytes + 2 * GUARD);
        std::memset(base, POISON, bytes + 2 * GUARD);
        int id = int(g_blocks->size()) + 1;
        g_blocks->push_back(Block{id, base, base + GUARD, bytes, sizeof(T), int(n), get(), true, get() == 90});
        g_log = l;
        ev(8, std::is_same<T, Elem>::value ? id : -id, int(n) * 100 + get());
        return pointer(reinterpret_cast<T*>(base + GUARD));
    }
    void deallocate(pointer q, size_type n) {
        bool l = g_log; g_log = false;
        char* p = reinterpret_cast<char*>(raw(q));
        Block* b = find_block(p);
        int id = 0;
        if (b && b->data == p && b->live) {
            id = b->id;
            bool bad = false;
            for (size_t i = 0; i < GUARD; ++i)
                if ((unsigned char)b->base[i] != POISON || (unsigned char)b->data[b->bytes + i] != POISON) bad = true;
            b->live = false;
            if (bad) { g_log = l; ev(15, id, 0); g_log = false; }
            std::memset(b->data, POISON, b->bytes);
        }
        g_log = l;
        if (n > 9000) n = 9000;
        ev(9, std::is_same<T, Elem>::value ? id : -id, int(n) * 100 + get());
    }
#if !CFG_UC
    template <class U, class... A> void construct(U* p, A&&... a) {
        if (std::is_same<U, Elem>::value) ev(11, obj(p, sizeof(Elem)), 0);
        ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
    }
    template <class U> void destroy(U* p) {
        if (std::is_same<U, Elem>::value) ev(12, obj(p, sizeof(Elem)), 0);
        p->~U();
    }
#endif
};

typedef Alloc<Elem> A;
typedef boost::circular_buffer<Elem, A> BaseCB;
#if CFG_SO
typedef boost::circular_buffer_space_optimized<Elem, A> CBuf;
#else
typedef BaseCB CBuf;
#endif
static const bool SO = CFG_SO;
static const bool COPYABLE = CFG_T != 3;

// ------------------------------------------------------------------------------------------------------------------
// source iterators
struct Stream { const Elem* b; int n; int pos; int err; int derefs; };
static void strm_deref(Stream* s, int pos) {
    tickx<ElemFault>();
    if (pos != s->pos) { s->err = 1; }
    if (pos >= s->n) { s->err = 2; }
    ++s->derefs;
}
struct InIt {            // a strictly single-pass input iterator
    typedef std::input_iterator_tag iterator_category;
    typedef Elem value_type; typedef std::ptrdiff_t difference_type;
    typedef const Elem* pointer; typedef const Elem& reference;
    Stream* s; int pos;
    struct Proxy { const Elem* p; const Elem& operator*() const { return *p; } };
    InIt() : s(0), pos(0) {}
    InIt(Stream* s_, int p_) : s(s_), pos(p_) {}
    const Elem& operator*() const { strm_deref(s, pos); return s->b[pos < s->n ? pos : s->n]; }
    const Elem* operator->() const { return &**this; }
    InIt& operator++() { if (pos != s->pos) s->err = 3; ++pos; if (pos > s->pos) s->pos = pos; if (pos > s->n) s->err = 4; return *this; }
    Proxy operator++(int) { strm_deref(s, pos); Proxy p = {&s->b[pos < s->n ? pos : s->n]}; ++*this; return p; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.pos == b.pos; }
    friend bool operator!=(const InIt& a, const InIt& b) { return a.pos != b.pos; }
};
template <class Cat> struct MpIt { // multi-pass iterator of the given category
    typedef Cat iterator_category;
    typedef Elem value_type; typedef std::ptrdiff_t difference_type;
    typedef const Elem* pointer; typedef const Elem& reference;
    Stream* s; int pos;
    MpIt() : s(0), pos(0) {}
    MpIt(Stream* s_, int p_) : s(s_), pos(p_) {}
    const Elem& operator*() const {
        tickx<ElemFault>();
        if (pos < 0 || pos >= s->n) s->err = 2;
        ++s->derefs;
        return s->b[pos < 0 ? 0 : pos < s->n ? pos : s->n];
    }
    const Elem* operator->() const { return &**this; }
    MpIt& operator++() { ++pos; if (pos > s->n) s->err = 4; return *this; }
    MpIt operator++(int) { MpIt t = *this; ++*this; return t; }
    MpIt& operator--() { --pos; if (pos < 0) s->err = 4; return *this; }
    MpIt operator--(int) { MpIt t = *this; --*this; return t; }
    MpIt& operator+=(diff_t n) { pos += int(n); return *this; }
    MpIt& operator-=(diff_t n) { pos -= int(n); return *this; }
    friend MpIt operator+(MpIt a, diff_t n) { return a += n; }
    friend MpIt operator-(MpIt a, diff_t n) { return a -= n; }
    friend diff_t operator-(const MpIt& a, const MpIt& b) { return a.pos - b.pos; }
    const Elem& operator[](diff_t n) const { return *(*this + n); }
    friend bool operator==(const MpIt& a, const MpIt& b) { return a.pos == b.pos; }
    friend bool operator!=(const MpIt& a, const MpIt& b) { return a.pos != b.pos; }
    friend bool operator<(const MpIt& a, const MpIt& b) { return a.pos < b.pos; }
    friend bool operator>(const MpIt& a, const MpIt& b) { return a.pos > b.pos; }
    friend bool operator<=(const MpIt& a, const MpIt& b) { return a.pos <= b.pos; }
    friend bool operator>=(const MpIt& a, const MpIt& b) { return a.pos >= b.pos; }
};

// ------------------------------------------------------------------------------------------------------------------
// plan
struct Op {
    char f;            // S setup, M main (faults), E epilogue
    std::string o;
    long x, y, k, t, p, q, n, c, m;
    std::vector<int> w;
};
struct Case { std::string id; int fl; std::vector<Op> ops; };

static bool parse_case(const std::string& line, Case& c) {
    std::istringstream is(line);
    std::string tok;
    if (!(is >> tok) || tok != "C") return false;
    is >> c.id >> c.fl;
    c.ops.clear();
    while (is >> tok) {
        Op op; op.f = tok[0];
        int nw = 0;
        is >> op.o >> op.x >> op.y >> op.k >> op.t >> op.p >> op.q >> op.n >> op.c >> op.m >> nw;
        op.w.resize(nw);
        for (int i = 0; i < nw; ++i) is >> op.w[i];
        if (!is) return false;
        c.ops.push_back(op);
    }
    return true;
}

// ------------------------------------------------------------------------------------------------------------------
// output
static int g_fd = -1;
static std::string* g_out = 0;        // the line being built
static size_t g_done = 0;             // how much of it is complete
static bool g_LE = false, g_OB = false, g_HD = false, g_HP = false;   // g_HP: handles persist from call to call
static bool g_inep = false;   // in the epilogue: outside the fault-injected region
static const Op* g_cur = 0;
static char g_curf = 'S';
static volatile int* g_shared = 0;    // [0] current case index

static void put(const std::string& s) {
    size_t o = 0;
    while (o < s.size()) {
        ssize_t r = ::write(g_fd, s.data() + o, s.size() - o);
        if (r <= 0) _exit(3);
        o += size_t(r);
    }
}
static void app_int(std::string& s, long v) { char b[32]; std::snprintf(b, sizeof b, "%ld", v); s += b; }
template <class V> static void app_seq(std::string& s, const V& v) {
    s += '[';
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; app_int(s, v[i]); }
    s += ']';
}
static void kv(std::string& s, const char* k, long v) { s += ",\""; s += k; s += "\":"; app_int(s, v); }
template <class V> static void ks(std::string& s, const char* k, const V& v) { s += ",\""; s += k; s += "\":"; app_seq(s, v); }

static void finish_crash(const char* why) {
    // called from signal handlers / terminate: everything needed is already in memory
    g_log = false;
    std::string s(*g_out, 0, g_done);
    if (s.empty() || s[s.size() - 1] == '[') s += "{\"o\":\"begin\",\"bs\":[],\"lb\":[]}";
    s += ",{\"o\":\"crash\",\"why\":\""; s += why; s += "\",\"of\":\"";
    s += g_cur ? g_cur->o : std::string("fin");
    s += "\"";
    kv(s, "k", g_cur ? g_cur->k : 0);
    kv(s, "t", g_cur ? g_cur->t : 0);
    kv(s, "ft", g_fired ? 1 : 0);
    s += "}]}\n";
    put(s);
    _exit(std::strcmp(why, "hang") ? 77 : 78);
}
[[noreturn]] static void runaway() { finish_crash("runaway"); _exit(77); }
static void on_signal(int sig) {
    if (sig == SIGSEGV && g_prot) { g_wrote = 1; protect(false); return; }   // the write is repeated
    const char* w = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" :
        sig == SIGABRT ? "SIGABRT" : sig == SIGPROF || sig == SIGALRM ? "hang" : "signal";
    finish_crash(w);
}
static void on_terminate() { finish_crash("terminate"); }

// ------------------------------------------------------------------------------------------------------------------
template <class CB, class T> struct Runner {
    typedef typename CB::iterator It;
    typedef typename CB::const_iterator CIt;
    typedef typename CB::size_type Sz;
    static const int NB = 4;
    char (*store)[PAGE] = reinterpret_cast<char (*)[PAGE]>(g_pages);
    static_assert(NB <= int(NSTORE) && sizeof(CB) + 64 <= PAGE, "store");
    CB* b[NB];

    Runner() { for (int i = 0; i < NB; ++i) b[i] = 0; }

    static typename CB::capacity_type capc(long c, long m) {
        if constexpr (SO) return typename CB::capacity_type(Sz(c), Sz(m)); else return Sz(c);
    }
    static long cap_of(const CB& x) { if constexpr (SO) return clampl(x.capacity().capacity()); else return clampl(x.capacity()); }
    static long min_of(const CB& x) { if constexpr (SO) return clampl(x.capacity().min_capacity()); else return 0; }
    static long clampl(Sz n) { return n > 100000000 ? 100000000 : long(n); }

    // ---------------------------------------------------------------- observation
    static bool sane(const CB& x) { return x.size() <= 4000; }
    static std::vector<int> vals(const CB& x) {
        std::vector<int> r;
        if (!sane(x)) return r;
        for (Sz i = 0; i < x.size(); ++i) r.push_back(val(x[i]));
        return r;
    }
    static std::vector<int> addrs(const CB& x) {
        std::vector<int> r;
        if (!sane(x)) return r;
        for (Sz i = 0; i < x.size(); ++i) r.push_back(aid(&x[i]));
        return r;
    }
    void app_states(std::string& s) {
        s += ",\"bs\":[";
        bool first = true;
        for (int i = 0; i < NB; ++i) if (b[i]) {
            if (!first) s += ',';
            first = false;
            s += "{\"i\":"; app_int(s, i);
            kv(s, "al", A(b[i]->get_allocator()).get());
            kv(s, "sz", sane(*b[i]) ? long(b[i]->size()) : -1);
            kv(s, "cap", cap_of(*b[i])); kv(s, "min", min_of(*b[i]));
            ks(s, "v", vals(*b[i]));
            ks(s, "ad", addrs(*b[i]));
            s += '}';
        }
        s += "],\"lb\":[";
        first = true;
        for (size_t i = 0; i < g_blocks->size(); ++i) {
            const Block& k = (*g_blocks)[i];
            if (!k.live || k.ext) continue;
            if (!first) s += ',';
            first = false;
            s += '['; app_int(s, k.esz == sizeof(Elem) ? k.id : -k.id); s += ','; app_int(s, k.n); s += ','; app_int(s, k.arena); s += ']';
        }
        s += ']';
        kv(s, "uf", CFG_DBG ? unmarked() : 0);
    }
    // debug support: slots of the storage that hold no element and are not filled with 0xcc
    int unmarked() {
        std::set<const void*> used;
        for (int i = 0; i < NB; ++i) if (b[i] && sane(*b[i])) for (Sz j = 0; j < b[i]->size(); ++j) used.insert(&(*b[i])[j]);
        int n = 0;
        for (size_t i = 0; i < g_blocks->size(); ++i) {
            const Block& k = (*g_blocks)[i];
            if (!k.live || k.ext || k.esz != sizeof(Elem)) continue;
            for (int j = 0; j < k.n; ++j) {
                const unsigned char* q = reinterpret_cast<const unsigned char*>(k.data) + size_t(j) * k.esz;
                if (used.count(q)) continue;
                for (size_t z = 0; z < k.esz; ++z) if (q[z] != 0xcc) { ++n; break; }
            }
        }
        return n;
    }
    void app_args(std::string& s, const Op& o) {
        kv(s, "x", o.x); kv(s, "y", o.y); kv(s, "k", o.k); kv(s, "t", o.t); kv(s, "p", o.p); kv(s, "q", o.q);
        kv(s, "n", o.n); kv(s, "c", o.c); kv(s, "m", o.m);
        ks(s, "w", o.w);
    }
    template <class F> static int guard(const F& f) {   // 0 value, 5 assertion
        try { f(); return 0; } catch (const AssertFail&) { return 5; } catch (const std::out_of_range&) { return 4; }
    }

    // all views of a buffer
    void obs(std::string& s, int i) {
        CB& x = *b[i]; const CB& cx = x;
        if (!sane(x)) return;
        std::vector<int> at, cat, ix, cix, it, cit, rit, crit, one, two, cone, ctwo, apos, eq;
        g_curf = 'O';
        s += ",{\"o\":\"obs\""; kv(s, "x", i); kv(s, "ep", g_inep ? 1 : 0);
        int as = 0;
        try {
            for (Sz j = 0; j < x.size(); ++j) {
                try { at.push_back(val(x.at(j))); cat.push_back(val(cx.at(j))); } catch (const std::out_of_range&) { at.push_back(-99); }
                ix.push_back(val(x[j])); cix.push_back(val(cx[j]));
                eq.push_back(&x.at(j) == &x[j] && &cx.at(j) == &x[j] && &cx[j] == &x[j] &&
                    &*(x.begin() + diff_t(j)) == &x[j] && &*(cx.begin() + diff_t(j)) == &x[j] && &x.begin()[diff_t(j)] == &x[j] ? 1 : 0);
            }
            size_t lim = x.size() + 3, nn = 0;
            for (It p = x.begin(); p != x.end() && nn < lim; ++p, ++nn) it.push_back(val(*p));
            nn = 0; for (CIt p = cx.begin(); p != cx.end() && nn < lim; p++, ++nn) cit.push_back(val(*p));
            nn = 0; for (typename CB::reverse_iterator p = x.rbegin(); p != x.rend() && nn < lim; ++p, ++nn) rit.push_back(val(*p));
            nn = 0; for (typename CB::const_reverse_iterator p = cx.rbegin(); p != cx.rend() && nn < lim; ++p, ++nn) crit.push_back(val(*p));
            if constexpr (!SO) {
                nn = 0;
                std::vector<int> c2;
                for (CIt p = cx.cbegin(); p != cx.cend() && nn < lim; ++p, ++nn) c2.push_back(val(*p));
                if (c2 != cit) cit.push_back(-98);
            }
            typename CB::array_range a1 = x.array_one(), a2 = x.array_two();
            typename CB::const_array_range c1 = cx.array_one(), c2 = cx.array_two();
            if (a1.second <= lim) for (Sz j = 0; j < a1.second; ++j) { one.push_back(val(a1.first[diff_t(j)])); }
            if (a2.second <= lim) for (Sz j = 0; j < a2.second; ++j) { two.push_back(val(a2.first[diff_t(j)])); }
            if (c1.second <= lim) for (Sz j = 0; j < c1.second; ++j) { cone.push_back(val(c1.first[diff_t(j)])); }
            if (c2.second <= lim) for (Sz j = 0; j < c2.second; ++j) { ctwo.push_back(val(c2.first[diff_t(j)])); }
            bool inpl = a1.second + a2.second == x.size() && c1.second == a1.second && c2.second == a2.second;
            if (inpl) for (Sz j = 0; j < x.size(); ++j) {
                if (j < a1.second ? &a1.first[diff_t(j)] != &x[j] || &c1.first[diff_t(j)] != &x[j]
                                  : &a2.first[diff_t(j - a1.second)] != &x[j] || &c2.first[diff_t(j - a1.second)] != &x[j]) inpl = false;
            }
            kv(s, "n1", clampl(a1.second)); kv(s, "n2", clampl(a2.second));
            kv(s, "ip", inpl ? 1 : 0);
            int fr = -99, bk = -99, cfr = -99, cbk = -99;
            if (!x.empty()) { fr = val(x.front()); bk = val(x.back()); cfr = val(cx.front()); cbk = val(cx.back());
                if (&x.front() != &x[0] || &cx.front() != &x[0]) fr = -97;
                if (&x.back() != &x[x.size() - 1] || &cx.back() != &x[x.size() - 1]) bk = -97; }
            kv(s, "fr", fr); kv(s, "bk", bk); kv(s, "cfr", cfr); kv(s, "cbk", cbk);
            kv(s, "li", cx.is_linearized() ? 1 : 0); kv(s, "em", cx.empty() ? 1 : 0); kv(s, "fu", cx.full() ? 1 : 0);
            kv(s, "rs", clampl(cx.reserve())); kv(s, "mx", clampl(cx.max_size()));
            kv(s, "dd", clampl(Sz(x.end() - x.begin()))); kv(s, "cd", clampl(Sz(cx.end() - cx.begin())));
            int oor = 0;
            long probes[4] = {long(x.size()), long(x.size()) + 1, cap_of(x), -1};
            for (int j = 0; j < 4; ++j) {
                if (probes[j] >= 0 && Sz(probes[j]) < x.size()) { oor += 2; continue; }
                try { (void)x.at(Sz(probes[j])); } catch (const std::out_of_range&) { ++oor; }
                try { (void)cx.at(Sz(probes[j])); } catch (const std::out_of_range&) { ++oor; }
            }
            kv(s, "oor", oor);
        } catch (const AssertFail&) { as = 1; }
        catch (const ElemFault&) { as = 2; }
        ks(s, "at", at); ks(s, "cat", cat); ks(s, "ix", ix); ks(s, "cix", cix); ks(s, "it", it); ks(s, "cit", cit);
        ks(s, "rit", rit); ks(s, "crit", crit); ks(s, "one", one); ks(s, "two", two); ks(s, "cone", cone); ks(s, "ctwo", ctwo);
        ks(s, "eq", eq);
        kv(s, "as", as);
        s += '}';
    }

    // iterator relation matrices: for all positions i, j
    template <class I1, class I2> static void itm_pair(const std::vector<I1>& a, const std::vector<I2>& c, std::vector<int>& d) {
        for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < c.size(); ++j) {
            d.push_back(int(a[i] - c[j]));
            d.push_back((a[i] == c[j] ? 1 : 0) + (a[i] != c[j] ? 2 : 0) + (a[i] < c[j] ? 4 : 0) +
                        (a[i] > c[j] ? 8 : 0) + (a[i] <= c[j] ? 16 : 0) + (a[i] >= c[j] ? 32 : 0));
        }
    }
    void itm(std::string& s, int i) {
        CB& x = *b[i]; const CB& cx = x;
        std::vector<It> a; std::vector<CIt> c;
        std::vector<int> m1, m2, m3, m4, mv, sub, ps;    // ps: the positions considered
        int as = 0;
        try {
            diff_t n = diff_t(x.size());
            { It p = x.begin(); for (diff_t j = 0; j <= n; ++j) { a.push_back(p); if (j < n) ++p; } }
            { CIt p = cx.end(); for (diff_t j = 0; j <= n; ++j) { c.push_back(p); if (j < n) --p; } std::reverse(c.begin(), c.end()); }
            for (diff_t j = 0; j <= n; ++j) {
                bool wrap = false;
                for (diff_t z = j - 1; z <= j + 1; ++z) if (z > 0 && z < n && &x[Sz(z)] < &x[Sz(z - 1)]) wrap = true;
                if (n <= 14 || j < 2 || j > n - 2 || j == n / 2 || wrap) ps.push_back(int(j));
            }
            {
                std::vector<It> sa; std::vector<CIt> sc;
                for (size_t z = 0; z < ps.size(); ++z) { sa.push_back(a[size_t(ps[z])]); sc.push_back(c[size_t(ps[z])]); }
                itm_pair(sa, sa, m1); itm_pair(sa, sc, m2); itm_pair(sc, sa, m3); itm_pair(sc, sc, m4);
            }
            for (size_t pj = 0; pj < ps.size(); ++pj) for (size_t pk = 0; pk < ps.size(); ++pk) {
                const diff_t j = ps[pj], k = ps[pk];
                // seven ways from position j to position k: all must land at k
                It q1 = a[j]; q1 += k - j;
                It q2 = a[j]; q2 -= j - k;
                It q3 = a[j] + (k - j);
                It q4 = (k - j) + a[j];
                It q5 = a[j] - (j - k);
                It q6 = a[j]; for (diff_t z = j; z < k; ++z) q6++; for (diff_t z = j; z > k; --z) q6--;
                It q7; q7 = a[j]; for (diff_t z = j; z < k; ++z) ++q7; for (diff_t z = j; z > k; --z) --q7;
                CIt r1 = c[j]; r1 += k - j; CIt r2 = c[j] + (k - j); CIt r3 = c[j] - (j - k); CIt r4 = (k - j) + c[j];
                CIt r5(q1); CIt r6; r6 = q3; CIt r7 = c[j]; r7 -= j - k;
                int okk = (q1 == a[k]) && (q2 == a[k]) && (q3 == a[k]) && (q4 == a[k]) && (q5 == a[k]) && (q6 == a[k]) && (q7 == a[k]) &&
                    (r1 == c[k]) && (r2 == c[k]) && (r3 == c[k]) && (r4 == c[k]) && (r5 == a[k]) && (r6 == c[k]) && (r7 == c[k]) ? 1 : 0;
                mv.push_back(okk);
                // subscripts and dereference
                if (k < n) {
                    sub.push_back(val(a[j][k - j])); sub.push_back(val(c[j][k - j])); sub.push_back(val(*q1));
                    sub.push_back(val(*r1));
                    if constexpr (CLS) sub.push_back(a[k]->v == val(*c[k]) && c[k]->v == val(*a[k]) ? val(*q3) : -98);
                    else sub.push_back(*(a[k].operator->()) == *c[k] ? val(*q3) : -98);
                }
            }
            for (diff_t j = 0; j <= n; ++j) {   // reverse iterators
                typename CB::reverse_iterator r = x.rbegin() + j; typename CB::const_reverse_iterator cr = cx.rbegin() + j;
                if (r.base() != a[n - j] || cr.base() != c[n - j] || (x.rend() - r) != n - j || std::distance(a[0], a[j]) != j) mv.push_back(0);
                else mv.push_back(1);
            }
        } catch (const AssertFail&) { as = 1; }
        ks(s, "m1", m1); ks(s, "m2", m2); ks(s, "m3", m3); ks(s, "m4", m4); ks(s, "mv", mv); ks(s, "sub", sub); ks(s, "ps", ps); kv(s, "as", as);
    }

    // read-only operations must not change a byte
    static size_t snap(const CB& x, std::string& img) {
        img.assign(reinterpret_cast<const char*>(&x), sizeof(CB));
        for (size_t i = 0; i < g_blocks->size(); ++i) { const Block& k = (*g_blocks)[i]; if (k.live) img.append(k.data, k.bytes); }
        return img.size();
    }
    void ro(std::string& s, const Op& op) {
        CB& x = *b[op.x]; const CB& cx = x; const CB* oth = b[op.y] ? b[op.y] : b[op.x];
        std::vector<int> ch;
        std::string i0, i1, j0, j1;
        volatile long sink = 0;
        auto step = [&](auto f) {
            snap(cx, i0); snap(*oth, j0);
            int e = 0;
            g_wrote = 0;
            if (!CFG_DBG) protect(true);
            try { f(); } catch (...) { e = 2; }
            if (!CFG_DBG) protect(false);
            snap(cx, i1); snap(*oth, j1);
            ch.push_back((i0 != i1 || j0 != j1) ? 1 : g_wrote ? 2 : 0);
            (void)e;
        };
        step([&] { sink += long(cx.size()); });
        step([&] { sink += long(cx.max_size()); });
        step([&] { sink += cx.empty(); });
        step([&] { sink += cx.full(); });
        step([&] { sink += long(cx.reserve()); });
        step([&] { sink += cap_of(cx); });
        step([&] { sink += A(cx.get_allocator()).get(); });
        step([&] { sink += cx.is_linearized(); });
        step([&] { sink += long(cx.array_one().second); });
        step([&] { sink += long(cx.array_two().second); });
        step([&] { for (Sz i = 0; i < cx.size(); ++i) sink += val(cx[i]); });
        step([&] { for (Sz i = 0; i < cx.size(); ++i) sink += val(cx.at(i)); });
        step([&] { (void)cx.at(cx.size()); });
        step([&] { if (!cx.empty()) sink += val(cx.front()); });
        step([&] { if (!cx.empty()) sink += val(cx.back()); });
        step([&] { for (CIt p = cx.begin(); p != cx.end(); ++p) sink += val(*p); });
        step([&] { for (CIt p = cx.end(); p != cx.begin();) { --p; sink += val(*p); } });
        step([&] { for (typename CB::const_reverse_iterator p = cx.rbegin(); p != cx.rend(); ++p) sink += val(*p); });
        step([&] { for (Sz i = 0; i < cx.size(); ++i) { sink += val(cx.begin()[diff_t(i)]); sink += (cx.begin() + diff_t(i)) < cx.end(); } });
        // non-const access functions that only read
        step([&] { sink += long(x.array_one().second + x.array_two().second); });
        step([&] { for (It p = x.begin(); p != x.end(); ++p) sink += val(*p); });
        step([&] { for (Sz i = 0; i < x.size(); ++i) sink += val(x[i]) + val(x.at(i)); });
        step([&] { if (!x.empty()) sink += val(x.front()) + val(x.back()); });
        step([&] { sink += x.begin() - x.end(); });
        // comparisons
        step([&] { sink += (cx == *oth); sink += (*oth == cx); });
        step([&] { sink += (cx != *oth); });
        step([&] { sink += (cx < *oth); sink += (*oth < cx); });
        step([&] { sink += (cx > *oth); sink += (cx <= *oth); sink += (cx >= *oth); });
        if constexpr (COPYABLE) {
            // copy sources: storage of the copy itself is gone again when the image is taken
            step([&] { CB y(cx); sink += long(y.size()); });
            step([&] { CB y(A(55)); y = cx; sink += long(y.size()); });
            step([&] { CB y(cx.begin(), cx.end(), A(55)); sink += long(y.size()); });
            step([&] { CB y(A(55)); y.assign(cx.begin(), cx.end()); sink += long(y.size()); });
            step([&] { CB y(capc(7, 0), A(55)); y.insert(y.begin(), cx.begin(), cx.end()); sink += long(y.size()); });
            step([&] { CB y(capc(7, 0), A(55)); y.rinsert(y.begin(), cx.begin(), cx.end()); sink += long(y.size()); });
            step([&] { CB y(capc(2, 0), A(55)); for (Sz i = 0; i < cx.size(); ++i) { y.push_back(cx[i]); y.push_front(cx[i]); } });
        }
        if constexpr (!SO) step([&] { for (CIt p = cx.cbegin(); p != cx.cend(); ++p) sink += val(*p); });
        ks(s, "ch", ch);
    }

    // ---------------------------------------------------------------- handles
    struct Handle { std::vector<It> its; std::vector<CIt> cits; int pos; int buf; bool isend; int id; int st, ad, idx; };
    std::vector<Handle> hs;
    void take_handles(const Op& op) {
        if (!g_HP) hs.clear();
        for (int i = 0; i < NB; ++i) if (b[i] && (g_HP || i == op.x || i == op.y)) {
            CB& x = *b[i];
            if (!sane(x)) continue;
            diff_t n = diff_t(x.size());
            for (diff_t j = 0; j <= n; ++j) {
                if (g_HP) {
                    bool have = hs.size() >= 40;
                    for (size_t k = 0; k < hs.size() && !have; ++k) have = hs[k].buf == i && (j == n ? hs[k].isend && hs[k].pos != -2 : !hs[k].isend && hs[k].pos == int(j));
                    if (have) continue;
                }
                Handle h; h.pos = int(j); h.buf = i; h.isend = (j == n); h.id = h.isend ? 0 : aid(&x[Sz(j)]);
#if CFG_DBG
                // several ways of obtaining an iterator, with temporaries dying in various orders
                h.its.reserve(8); h.cits.reserve(8);
                h.its.push_back(x.begin() + j);
                { It t1 = x.begin(); It t2 = x.end(); t1 += j; h.its.push_back(t1); (void)t2; }
                { It t; t = h.its[0]; h.its.push_back(t); }
                { It t = x.end(); t -= (n - j); It u = t; h.its.push_back(u); }
                h.cits.push_back(h.its[0]);
                { CIt t; t = h.its[1]; CIt u(t); h.cits.push_back(u); }
                { const CB& cx = x; CIt u = cx.begin(); u = u + j; h.cits.push_back(u); }
                { CIt e = h.cits[0]; It z = x.end(); e = z; e = h.cits[1]; h.cits.push_back(e); }
                { It t = h.its[0]; t = x.end(); t = h.its[1]; h.its.push_back(t); }
#else
                h.its.push_back(x.begin() + j);
                h.cits.push_back(h.its[0]);
#endif
                hs.push_back(h);
            }
        }
    }
    void app_handles(std::string& s) {
        // [buffer, pos, state(1 valid, 0 asserted, 2 copies disagree), address of *h, h-begin()]
        s += ",\"hv\":[";
        bool first = true;
        for (size_t i = 0; i < hs.size(); ++i) {
            Handle& h = hs[i];
            int nok = 0, nbad = 0, ad = 0, idx = -1; bool mixed = false;
            int home = b[h.buf] ? h.buf : -1;
            auto probe = [&](auto& it) {
                try {
                    int a2 = 0, ix = -1;
                    if (h.isend) {
                        if (home >= 0) { ix = (it == b[home]->end()) ? 0 : 1; if (ix == 1) ix = -3; else ix = int(b[home]->end() - it); }
                        else { (void)*it; }
                    } else {
                        a2 = aid(&*it);
                        if (home >= 0) ix = int(it - b[home]->begin());
                    }
                    if (nok && (a2 != ad || ix != idx)) mixed = true;
                    ++nok; ad = a2; idx = ix;
                } catch (const AssertFail&) { ++nbad; }
            };
#if CFG_DBG
            for (auto& it : h.its) probe(it);
            for (auto& it : h.cits) probe(it);
#else
            if (home >= 0) {
                auto rp = [&](auto& it) {
                    int a2 = h.isend ? 0 : aid(&*it);
                    long ixl = long(it - b[home]->begin());
                    int ix = ixl > 100000 || ixl < -100000 ? -7 : int(ixl);
                    if (h.isend) ix = (it == b[home]->end()) ? 0 : -3;
                    if (nok && (a2 != ad || ix != idx)) mixed = true;
                    ++nok; ad = a2; idx = ix;
                };
                for (auto& it : h.its) rp(it);
                for (auto& it : h.cits) rp(it);
            } else ++nbad;
#endif
            int st = mixed || (nok && nbad) ? 2 : nok ? 1 : 0;
            h.st = st; h.ad = ad; h.idx = idx;
            if (!first) s += ',';
            first = false;
            s += '['; app_int(s, h.buf); s += ','; app_int(s, h.pos == -2 ? -2 : h.isend ? -1 : h.pos); s += ','; app_int(s, st); s += ',';
            app_int(s, ad); s += ','; app_int(s, idx); s += ','; app_int(s, h.id); s += ']';
        }
        s += ']';
        if (!g_HP) { hs.clear(); return; }
        // what stays in hand: the iterators that designate an element (under its present position) or the end, and a few dead ones
        size_t out = 0; int dead = 0;
        for (size_t i = 0; i < hs.size(); ++i) {
            Handle& h = hs[i];
            bool home = b[h.buf] && sane(*b[h.buf]), keep = false;
            if (h.st == 0) { h.pos = -2; keep = CFG_DBG && dead++ < 6; }
            else if (h.st == 1 && home && h.pos != -2) {
                if (h.isend) { keep = h.idx == 0; h.pos = int(b[h.buf]->size()); }
                else if (h.idx >= 0 && Sz(h.idx) < b[h.buf]->size() && aid(&(*b[h.buf])[Sz(h.idx)]) == h.ad) { keep = true; h.pos = h.idx; h.id = h.ad; }
            }
            if (keep) { if (out != i) hs[out] = hs[i]; ++out; }
        }
        hs.resize(out);
    }

    // ---------------------------------------------------------------- execution of one call
    struct Src {   // external argument objects
        std::vector<T> pool; Stream st;
        Src(const std::vector<int>& w) {
            pool.reserve(w.size() + 1);
            for (size_t i = 0; i < w.size(); ++i) pool.emplace_back(w[i]);
            pool.emplace_back(-77);       // a sentinel behind the range: reading it is an error
            st.b = pool.data(); st.n = int(w.size()); st.pos = 0; st.err = 0; st.derefs = 0;
        }
    };
    // calls f(first, last) with iterators of category t over the source
    template <class F> void with_range(Src& s, long t, const std::vector<int>& w, const F& f) {
        int n = s.st.n;
        if constexpr (!COPYABLE) {
            f(std::make_move_iterator(s.pool.data()), std::make_move_iterator(s.pool.data() + n));
        } else
        switch (t) {
            case 0: f(InIt(&s.st, 0), InIt(&s.st, n)); break;
            case 1: f(MpIt<std::forward_iterator_tag>(&s.st, 0), MpIt<std::forward_iterator_tag>(&s.st, n)); break;
            case 2: f(static_cast<const T*>(s.pool.data()), static_cast<const T*>(s.pool.data()) + n); break;
            case 3: f(MpIt<std::bidirectional_iterator_tag>(&s.st, 0), MpIt<std::bidirectional_iterator_tag>(&s.st, n)); break;
            case 4: f(std::make_move_iterator(s.pool.data()), std::make_move_iterator(s.pool.data() + n)); break;
            case 5: {  // iterators of another (wrapped) circular buffer
                bool l = g_log; g_log = false;
                { BaseCB o(Sz(n ? n : 1), A(90));
                  int rot = n / 2;
                  for (int i = 0; i < rot; ++i) o.push_back(T(0));
                  for (int i = 0; i < rot; ++i) o.pop_front();
                  for (int i = 0; i < n; ++i) o.push_back(s.pool[size_t(i)]);
                  const BaseCB& co = o;
                  g_log = l;
                  struct Off { bool l; ~Off() { l = g_log; g_log = false; } } off = {false};
                  f(co.begin(), co.end());
                }
                g_log = l;
                break; }
            case 7: { f(MpIt<std::random_access_iterator_tag>(&s.st, 0), MpIt<std::random_access_iterator_tag>(&s.st, n)); break; }
            case 8: { // list iterators
                bool l = g_log; g_log = false;
                { std::list<T> o(s.pool.begin(), s.pool.begin() + n);
                  g_log = l;
                  struct Off { bool l; ~Off() { l = g_log; g_log = false; } } off = {false};
                  f(o.begin(), o.end()); }
                g_log = l; break; }
            default: f(static_cast<const T*>(s.pool.data()), static_cast<const T*>(s.pool.data()) + n);
        }
        (void)w;
    }

    // t == 6: a pair of integers (count and value)
    struct R { int ex; int ret; int sv; std::vector<int> cmp; int as; int addr; };

    static long mod(long p, long n) { return n <= 0 ? 0 : (p < n ? p : p % n); }

    // brings the arguments into the legal range for the present state; false: skip the call
    bool legal(Op& o) {
        if (o.x < 0 || o.x >= NB) return false;
        const std::string& n = o.o;
        if (n == "new" || n == "lay") {
            if (b[o.x]) return false;
            if (n == "new" && (o.k == 6 || o.k == 7) && (!b[o.y] || o.y == o.x)) return false;
            return true;
        }
        if (!b[o.x]) return false;
        if (n == "mis") return true;
        CB& x = *b[o.x];
        long sz = long(x.size());
        if (n == "rot" && CFG_FANCY) return false; // rotate() is not available for fancy pointers
        if (n == "qb" || n == "qf") return sz > 0;
        if (n == "ins" || n == "rin" || n == "insn" || n == "rinn" || n == "insr" || n == "rinr") { o.p = mod(o.p, sz + 1); return true; }
        if (n == "era" || n == "rer" || n == "rot") { if (!sz) return false; o.p = mod(o.p, sz); return true; }
        if (n == "erar" || n == "rerr") { o.p = mod(o.p, sz + 1); o.q = mod(o.q, sz + 1); if (o.p > o.q) std::swap(o.p, o.q); return true; }
        if (n == "erb" || n == "ere") { o.n = mod(o.n, sz + 1); return true; }
        if ((n == "pb" || n == "pf") && o.k == 3) { if (!sz) return false; o.p = mod(o.p, sz); return true; }
        if (n == "wr") { if (!sz) return false; o.p = mod(o.p, sz); return true; }
        if (n == "swp" || n == "cmp" || (n == "asg" && o.k <= 1)) return b[o.y] != 0;
        return true;
    }

    template <class I> int idx_of(CB& x, const I& it) { return int(it - x.begin()); }

    static void set_item(std::vector<T>& tmp, const Op& o) { tmp.reserve(1); tmp.emplace_back(o.w.empty() ? 0 : o.w[0]); }

    // performs the call; logging is on only inside the call proper
    void call(Op& o, R& r) {
        r.ex = 0; r.ret = -1; r.sv = -99; r.as = 0; r.addr = -1;
        const std::string& n = o.o;
        std::vector<T> item;
        bool ranged = n == "insr" || n == "rinr" || (n == "new" && (o.k == 4 || o.k == 5)) || (n == "asg" && (o.k == 4 || o.k == 5));
        std::vector<int> noint;
        std::unique_ptr<Src> src(new Src(ranged && o.t != 6 ? o.w : noint));
        set_item(item, o);
        const T& it = item[0];
        CB* x = b[o.x];
        const Sz top = Sz(~Sz(0));
        Sz cnt = o.n >= 0 ? Sz(o.n) : o.n == -1 ? top : o.n == -2 ? Sz(top / 2 + 2) : Sz(top / 2 + 1);
        struct Log { ~Log() { g_log = false; } };
        try {
            if (n == "new") {
                void* mem = store[o.x];
                A al(int(o.m / 1000)); long mn = o.m % 1000;
                CB* y = nullptr;
                Log off; g_log = true;
                switch (o.k) {
                    case 0: y = new (mem) CB(al); break;
                    case 1: y = new (mem) CB(capc(o.c, mn), al); break;
                    case 2: if constexpr (COPYABLE) { if constexpr (SO) y = new (mem) CB(typename CB::capacity_type(cnt), it, al); else y = new (mem) CB(cnt, it, al); } break;
                    case 3: if constexpr (COPYABLE) y = new (mem) CB(capc(o.c, mn), cnt, it, al); break;
                    case 4: if (o.t == 6) { if constexpr (CFG_T == 2) y = new (mem) CB(int(o.n), int(o.w[0]), al); }
                            else with_range(*src, o.t, o.w, [&](auto f, auto l) { y = new (mem) CB(f, l, al); }); break;
                    case 5: if (o.t == 6) { if constexpr (CFG_T == 2) y = new (mem) CB(capc(o.c, mn), int(o.n), int(o.w[0]), al); }
                            else with_range(*src, o.t, o.w, [&](auto f, auto l) { y = new (mem) CB(capc(o.c, mn), f, l, al); }); break;
                    case 6: if constexpr (COPYABLE) y = new (mem) CB(static_cast<const CB&>(*b[o.y])); break;
                    case 7: y = new (mem) CB(std::move(*b[o.y])); break;
                    case 8: if constexpr (SO && COPYABLE) y = new (mem) CB(capc(o.c, mn), it, al); break;
                }
                g_log = false;
                b[o.x] = y;
            } else if (n == "del") {
                Log off; g_log = true; x->~CB(); b[o.x] = 0; g_log = false;
                std::memset(store[o.x], POISON, sizeof(CB));
            } else if (n == "asg") {
                long mn = o.m % 1000;
                Log off; g_log = true;
                switch (o.k) {
                    case 0: if constexpr (COPYABLE) { CB& rr = (*x = static_cast<const CB&>(*b[o.y])); r.ret = (&rr == x) ? 1 : 0; } break;
                    case 1: { CB& rr = (*x = std::move(*b[o.y])); r.ret = (&rr == x) ? 1 : 0; break; }
                    case 2: if constexpr (COPYABLE) x->assign(cnt, it); break;
                    case 3: if constexpr (COPYABLE) x->assign(capc(o.c, mn), cnt, it); break;
                    case 4: if (o.t == 6) { if constexpr (CFG_T == 2) x->assign(int(o.n), int(o.w[0])); }
                            else with_range(*src, o.t, o.w, [&](auto f, auto l) { x->assign(f, l); }); break;
                    case 5: if (o.t == 6) { if constexpr (CFG_T == 2) x->assign(capc(o.c, mn), int(o.n), int(o.w[0])); }
                            else with_range(*src, o.t, o.w, [&](auto f, auto l) { x->assign(capc(o.c, mn), f, l); }); break;
                }
            } else if (n == "swp") { Log off; g_log = true; if (o.k) { using boost::swap; swap(*x, *b[o.y]); } else x->swap(*b[o.y]); }
            else if (n == "pb" || n == "pf") {
                bool back = n == "pb";
                if (o.k == 0) { if constexpr (COPYABLE) { Log off; g_log = true; if (back) x->push_back(it); else x->push_front(it); } }
                else if (o.k == 1) { { Log off; g_log = true; if (back) x->push_back(std::move(item[0])); else x->push_front(std::move(item[0])); } r.sv = val(item[0]); }
                else if (o.k == 2) { Log off; g_log = true; if (back) x->push_back(); else x->push_front(); }
                else { if constexpr (COPYABLE) { const T& al = (*x)[Sz(o.p)]; Log off; g_log = true; if (back) x->push_back(al); else x->push_front(al); } }
            } else if (n == "qb") { Log off; g_log = true; x->pop_back(); }
            else if (n == "qf") { Log off; g_log = true; x->pop_front(); }
            else if (n == "ins" || n == "rin") {
                bool in = n == "ins";
                It pos = x->begin() + diff_t(o.p);
                It ret = pos;
                if (o.k == 0) { if constexpr (COPYABLE) { Log off; g_log = true; ret = in ? x->insert(pos, it) : x->rinsert(pos, it); } }
                else if (o.k == 1) { { Log off; g_log = true; ret = in ? x->insert(pos, std::move(item[0])) : x->rinsert(pos, std::move(item[0])); } r.sv = val(item[0]); }
                else { Log off; g_log = true; ret = in ? x->insert(pos) : x->rinsert(pos); }
                r.ret = idx_of(*x, ret);
                if (!(ret == x->end())) r.addr = aid(&*ret); else r.addr = 0;
            } else if (n == "insn" || n == "rinn") {
                It pos = x->begin() + diff_t(o.p);
                if constexpr (COPYABLE) { Log off; g_log = true; if (n == "insn") x->insert(pos, cnt, it); else x->rinsert(pos, cnt, it); }
            } else if (n == "insr" || n == "rinr") {
                It pos = x->begin() + diff_t(o.p); bool in = n == "insr";
                if constexpr (COPYABLE) {
                Log off; g_log = true;
                if (o.t == 6) { if (in) x->insert(pos, int(o.n), int(o.w[0])); else x->rinsert(pos, int(o.n), int(o.w[0])); }
                else with_range(*src, o.t, o.w, [&](auto f, auto l) { if (in) x->insert(pos, f, l); else x->rinsert(pos, f, l); });
                }
            } else if (n == "era" || n == "rer") {
                It pos = x->begin() + diff_t(o.p), ret = pos;
                { Log off; g_log = true; ret = n == "era" ? x->erase(pos) : x->rerase(pos); }
                r.ret = idx_of(*x, ret);
                r.addr = (ret == x->end()) ? 0 : aid(&*ret);
            } else if (n == "erar" || n == "rerr") {
                It f = x->begin() + diff_t(o.p), l = x->begin() + diff_t(o.q), ret = f;
                { Log off; g_log = true; ret = n == "erar" ? x->erase(f, l) : x->rerase(f, l); }
                r.ret = idx_of(*x, ret);
                r.addr = (ret == x->end()) ? 0 : aid(&*ret);
            } else if (n == "erb" || n == "ere") {
                Log off; g_log = true;
                if constexpr (!SO) { if (n == "erb") x->erase_begin(Sz(o.n)); else x->erase_end(Sz(o.n)); }
            } else if (n == "clr") { Log off; g_log = true; x->clear(); }
            else if (n == "lin") {
                T* p; { Log off; g_log = true; p = raw(x->linearize()); }
                r.ret = p == 0 ? 0 : (!x->empty() && p == &(*x)[0] ? 1 : 2); r.addr = p ? aid(p) : 0;
            }
            else if (n == "rot") { CIt nb = static_cast<const CB&>(*x).begin() + diff_t(o.p); Log off; g_log = true; if constexpr (!CFG_FANCY) x->rotate(nb); }
            else if (n == "cap" || n == "rcap") {
                typename CB::capacity_type cc = capc(o.c, o.m % 1000);
                Log off; g_log = true; if (n == "cap") x->set_capacity(cc); else x->rset_capacity(cc); }
            else if (n == "rsz" || n == "rrsz") {
                if constexpr (COPYABLE) { Log off; g_log = true;
                if (o.k == 2) { if (n == "rsz") x->resize(cnt); else x->rresize(cnt); }
                else { if (n == "rsz") x->resize(cnt, it); else x->rresize(cnt, it); } }
            } else if (n == "wr") { // write through an access function: later reads must see it
                if constexpr (COPYABLE) {
                    Sz p = Sz(o.p);
                    switch (o.k) {
                        case 0: (*x)[p] = it; break;
                        case 1: x->at(p) = it; break;
                        case 2: *(x->begin() + diff_t(p)) = it; break;
                        case 3: *(x->end() - diff_t(x->size() - p)) = it; break;
                        case 4: *(x->rbegin() + diff_t(x->size() - 1 - p)) = it; break;
                        case 5: x->begin()[diff_t(p)] = it; break;
                        case 6: { typename CB::array_range a = x->array_one(), c = x->array_two();
                                if (p < a.second) a.first[diff_t(p)] = it; else c.first[diff_t(p - a.second)] = it; break; }
                        case 7: if (p == 0) x->front() = it; else if (p + 1 == x->size()) x->back() = it; else (*x)[p] = it; break;
                    }
                }
            } else if (n == "cmp") {
                const CB& l = *x; const CB& q = *b[o.y];
                Log off; g_log = true;
                int c6[6] = {l == q, l != q, l < q, l <= q, l > q, l >= q};
                g_log = false;   // the result vector below is the harness's own
                r.cmp.assign(c6, c6 + 6);
            } else if (n == "at") {
                Log off; g_log = true;
                if (o.k) r.ret = val(static_cast<const CB&>(*x).at(Sz(o.p < 0 ? long(~Sz(0)) : o.p))); else r.ret = val(x->at(Sz(o.p < 0 ? long(~Sz(0)) : o.p)));
            } else if (n == "que") {
                // every query and iterator creation
                const CB& c = *x; long a = 0;
                Log off; g_log = true;
                a += long(c.size()) + c.empty() + c.full() + long(c.reserve()) + long(c.max_size()) + c.is_linearized();
                a += (c.begin() == c.end()) + (x->begin() == x->end()) + (c.rbegin() == c.rend()) + (x->rbegin() == x->rend());
                a += long(c.array_one().second + x->array_one().second + c.array_two().second + x->array_two().second);
                a += long(cap_of(c));
                a += x->get_allocator().get() + c.get_allocator().get();
                if (!c.empty()) { a += reinterpret_cast<diff_t>(&x->front() + (&c.back() - &c.back())) & 1; (void)&x->back(); (void)&c.front(); (void)&(*x)[0]; (void)&c[0]; (void)&x->at(0); (void)&c.at(0); }
                r.ret = int(a & 1);
                r.ret = 0;
            }
            else if (n == "mis") misuse(o, r);
        }
        catch (const AssertFail&) { r.ex = 5; }
        catch (const ElemFault&) { r.ex = 1; }
        catch (const std::bad_alloc&) { r.ex = 2; }
        catch (const std::length_error&) { r.ex = 3; }
        catch (const std::out_of_range&) { r.ex = 4; }
        catch (...) { r.ex = 9; }
        g_log = false;
        int err = src->st.err, der = src->st.derefs;
        r.cmp.push_back(err); r.cmp.push_back(der); // carried separately below
    }

    // deliberate misuse (debug configurations): r.as = 1 when an assertion was raised
    void misuse(Op& o, R& r) {
#if CFG_DBG
        CB& x = *b[o.x]; const CB& cx = x;
        Sz p = Sz(o.p); diff_t dp = diff_t(o.p), dq = diff_t(o.q); Sz nn = Sz(o.n);
        diff_t sz = diff_t(x.size());
        std::vector<int> w = {501, 502, 503};
        std::unique_ptr<Src> sp(new Src(w)); Src& s = *sp;
        const T* a = s.pool.data();
        try {
            Log0 off; g_log = true;
            switch (o.k) {
                case 0: (void)x[p]; break;
                case 1: (void)cx[p]; break;
                case 2: (void)x.front(); break;
                case 3: (void)x.back(); break;
                case 4: (void)cx.front(); break;
                case 5: (void)cx.back(); break;
                case 6: x.pop_front(); break;
                case 7: x.pop_back(); break;
                case 8: if constexpr (!SO) x.erase_begin(nn); break;
                case 9: if constexpr (!SO) x.erase_end(nn); break;
                case 10: { It f = x.begin() + dp, l = x.begin() + dq; x.erase(f, l); break; }
                case 11: { It f = x.begin() + dp, l = x.begin() + dq; x.rerase(f, l); break; }
                case 12: { It f = x.begin() + dp; (void)*f; break; }
                case 13: { CIt f = cx.begin() + dp; (void)*f; break; }
                case 14: { It f = x.begin(); f += dp; break; }
                case 15: { It f = x.end(); f -= dp; break; }
                case 16: { It f = x.begin() + dp; ++f; break; }
                case 17: { It f = x.begin() + dp; --f; break; }
                case 18: { CIt f = cx.begin() + dp; f++; break; }
                case 19: { CIt f = cx.begin() + dp; f--; break; }
                case 20: { x.rotate(x.begin() + dp); break; }
                case 21: { It f = x.begin() + dp; x.erase(f); break; }
                case 22: { It f = x.begin() + dp; x.rerase(f); break; }
                case 23: { if constexpr (COPYABLE) { CB y(capc(o.c, 0), nn, T(5), A(55)); } break; }
                case 24: { if constexpr (COPYABLE) { T t(5); x.assign(capc(o.c, 0), nn, t); } break; }
                case 25: { if constexpr (SO) { typename CB::capacity_type cc(Sz(o.c), Sz(o.m)); (void)cc; } break; }
                case 26: { It f; (void)*f; break; }
                case 27: { It f; ++f; break; }
                case 28: { It f; --f; break; }
                case 29: { It f, g; r.ret = f == g; break; }
                case 30: { CIt f; It g = x.begin(); r.ret = g == f; break; }
                case 31: { It f; (void)(f < x.begin()); break; }
                case 32: { It f; (void)(f - x.begin()); break; }
                case 33: { It f; f += 1; break; }
                case 34: { It f; T t(5); x.insert(f, std::move(t)); break; }
                case 35: { It f; T t(5); x.rinsert(f, std::move(t)); break; }
                case 36: { It f; x.erase(f); break; }
                case 37: { It f; x.rerase(f); break; }
                case 38: { It f; x.erase(f, x.end()); break; }
                case 39: { It f; x.rerase(f, x.end()); break; }
                case 40: { CIt f; x.rotate(f); break; }
                case 41: { if constexpr (COPYABLE) { It f; T t(5); x.insert(f, Sz(1), t); } break; }
                case 42: { if constexpr (COPYABLE) { It f; T t(5); x.rinsert(f, Sz(1), t); } break; }
                case 43: { if constexpr (COPYABLE) { It f; x.insert(f, a, a + 1); } break; }
                case 44: { if constexpr (COPYABLE) { It f; x.rinsert(f, a, a + 1); } break; }
                // iterators of another buffer (b[y])
                case 45: { It f, g; r.ret = f < g; break; }
                case 46: { It f; CIt g; r.ret = int(f - g); break; }
                case 50: { CB& y = *b[o.y]; r.ret = x.begin() == y.begin(); break; }
                case 51: { CB& y = *b[o.y]; r.ret = x.begin() < y.begin(); break; }
                case 52: { CB& y = *b[o.y]; r.ret = int(x.begin() - y.begin()); break; }
                case 53: { CB& y = *b[o.y]; T t(5); x.insert(y.begin(), std::move(t)); break; }
                case 54: { CB& y = *b[o.y]; T t(5); x.rinsert(y.begin(), std::move(t)); break; }
                case 55: { CB& y = *b[o.y]; x.erase(y.begin(), y.end()); break; }
                case 56: { CB& y = *b[o.y]; x.rerase(y.begin(), y.end()); break; }
                case 57: { CB& y = *b[o.y]; x.rotate(y.begin()); break; }
                case 58: { CB& y = *b[o.y]; x.erase(x.begin(), y.end()); break; }
                case 59: { CB& y = *b[o.y]; r.ret = x.end() != y.end(); break; }
                case 60: { CB& y = *b[o.y]; x.erase(y.begin()); break; }
                case 61: { CB& y = *b[o.y]; x.rerase(y.begin()); break; }
                case 62: { if constexpr (COPYABLE) { CB& y = *b[o.y]; T t(5); x.insert(y.begin(), Sz(1), t); } break; }
                case 63: { if constexpr (COPYABLE) { CB& y = *b[o.y]; x.insert(y.begin(), a, a + 1); } break; }
                case 64: { if constexpr (COPYABLE) { CB& y = *b[o.y]; T t(5); x.rinsert(y.begin(), Sz(1), t); } break; }
                case 65: { if constexpr (COPYABLE) { CB& y = *b[o.y]; x.rinsert(y.begin(), a, a + 1); } break; }
                // reversed source ranges
                case 70: { if constexpr (COPYABLE) { CB y(a + dp, a + dq, A(55)); } break; }
                case 71: { if constexpr (COPYABLE) { CB y(capc(5, 0), a + dp, a + dq, A(55)); } break; }
                case 72: { if constexpr (COPYABLE) x.assign(a + dp, a + dq); break; }
                case 73: { if constexpr (COPYABLE) x.assign(capc(5, 0), a + dp, a + dq); break; }
                case 74: { if constexpr (COPYABLE && !SO) x.insert(x.begin(), a + dp, a + dq); break; }
                case 75: { if constexpr (COPYABLE && !SO) x.rinsert(x.begin(), a + dp, a + dq); break; }
                // legal uses around the boundary
                case 80: { r.ret = x.end() == x.end(); break; }
                case 81: { r.ret = int((x.begin() + sz) == x.end()); break; }
                case 82: { It f = x.end(); CIt g = f; r.ret = g == cx.end(); break; }
                case 83: { It f = x.begin(); It g = f; f = x.end(); r.ret = int(f - g); break; }
                case 84: { It f = x.begin(); f = f; It g; g = f; r.ret = g == x.begin(); break; }
                case 85: { It f; It g(f); It h; h = g; It k = x.begin(); k = h; r.ret = 1; break; }
            }
        } catch (const AssertFail&) { r.as = 1; }
        g_log = false;
#else
        (void)o; (void)r;
#endif
    }
    struct Log0 { ~Log0() { g_log = false; } };

    // ---------------------------------------------------------------- running a case
    void app_le(std::string& s) {
        kv(s, "nc", g_nel); kv(s, "na", g_nal); kv(s, "cm", g_cmp); kv(s, "nw", g_nw);
        s += ",\"le\":[";
        if (g_LE) for (size_t i = 0; i < g_le->size(); ++i) {
            const Le& e = (*g_le)[i];
            if (i) s += ',';
            s += '['; app_int(s, e.k); s += ','; app_int(s, e.a); s += ','; app_int(s, e.b); s += ']';
        }
        s += ']';
    }
    void reset_log() { g_le->clear(); g_nw = g_cmp = g_nel = g_nal = 0; }

    void layout(const Op& o) { // capacity o.c (min o.m%1000), first element offset o.p, size o.n, peak o.q, values from o.k
        void* mem = store[o.x];
        int arena = int(o.m / 1000);
        CB* y = new (mem) CB(capc(o.c, o.m % 1000), A(arena));
        b[o.x] = y;
        // space optimized buffers: the storage follows the size, so the offset is produced by rotating the contents
        long rot = SO && !CFG_FANCY && o.n > 0 ? o.p % o.n : 0;
        if (!SO) {
            for (long i = 0; i < o.p; ++i) y->push_back(T(0));
            for (long i = 0; i < o.p; ++i) y->pop_front();
        }
        for (long i = 0; i < o.n; ++i) {
            long j = (i + o.n - rot) % o.n;
            int v = j < long(o.w.size()) ? o.w[size_t(j)] : int(o.k + j); y->push_back(T(v));
        }
        for (long i = o.n; i < o.q; ++i) y->push_back(T(0));
        for (long i = o.n; i < o.q; ++i) y->pop_back();
        if constexpr (!CFG_FANCY) if (rot) y->rotate(static_cast<const CB*>(y)->begin() + diff_t(rot));
    }

    bool one_op(const Op& o0, std::string& s, bool fault) {
        Op o = o0;
        if (!legal(o)) { s += ",{\"o\":\"skip\"}"; return true; }
        if (o.o == "obs") { obs(s, int(o.x)); return true; }
        if (o.o == "itm") { s += ",{\"o\":\"itm\""; app_args(s, o); itm(s, int(o.x)); s += '}'; return true; }
        if (o.o == "ro") { s += ",{\"o\":\"ro\""; app_args(s, o); ro(s, o); s += '}'; return true; }
        if (o.o == "trt") { s += ",{\"o\":\"trt\""; traits(s); s += '}'; return true; }
        Op rec = o;
        if (g_HD) take_handles(o);
        reset_log();
        bool before = g_fired;
        int save = g_fault;
        if (!fault) g_fault = 0;
        R r;
        call(o, r);
        g_stuck = false;
        if (!fault) g_fault = save;
        int der = r.cmp.back(); r.cmp.pop_back(); int err = r.cmp.back(); r.cmp.pop_back();
        s += ",{\"o\":\""; s += o.o; s += '"';
        app_args(s, rec);
        kv(s, "ex", r.ex); kv(s, "r", r.ret); kv(s, "ra", r.addr); kv(s, "sv", r.sv); kv(s, "as", r.as); kv(s, "ie", err); kv(s, "dr", der);
        kv(s, "ft", fault && g_fired && !before ? 1 : 0);
        kv(s, "ep", g_inep ? 1 : 0);
        ks(s, "cp", r.cmp);
        app_le(s);
        app_states(s);
        if (g_HD) app_handles(s); else s += ",\"hv\":[]";
        s += '}';
        return true;
    }
    void traits(std::string& s) {
        std::vector<int> nx;
        typedef CB X;
        nx.push_back(noexcept(std::declval<const X&>().get_allocator()));
        nx.push_back(noexcept(std::declval<X&>().begin()) && noexcept(std::declval<const X&>().begin()));
        nx.push_back(noexcept(std::declval<X&>().end()) && noexcept(std::declval<const X&>().end()));
        nx.push_back(noexcept(std::declval<X&>().rbegin()) && noexcept(std::declval<const X&>().rend()));
        nx.push_back(noexcept(std::declval<const X&>().size()));
        nx.push_back(noexcept(std::declval<const X&>().max_size()));
        nx.push_back(noexcept(std::declval<const X&>().empty()));
        nx.push_back(noexcept(std::declval<const X&>().full()));
        nx.push_back(noexcept(std::declval<const X&>().reserve()));
        nx.push_back(noexcept(std::declval<const X&>().capacity()));
        nx.push_back(noexcept(std::declval<const X&>().is_linearized()));
        nx.push_back(noexcept(std::declval<X&>().swap(std::declval<X&>())));
        nx.push_back(std::is_nothrow_move_constructible<X>::value);
        nx.push_back(std::is_nothrow_move_assignable<X>::value);
        nx.push_back(std::is_nothrow_destructible<X>::value);
        nx.push_back(noexcept(swap(std::declval<X&>(), std::declval<X&>())));
        if constexpr (!SO) { nx.push_back(noexcept(std::declval<X&>().clear())); nx.push_back(noexcept(std::declval<const X&>().cbegin()) && noexcept(std::declval<const X&>().cend())); }
        ks(s, "nx", nx);
    }

    // returns true when the injected fault fired
    bool run_case(const Case& c, int fault) {
        g_aused = 0; g_useArena = false;
        for (size_t i = 0; i < c.ops.size(); ++i) if (c.ops[i].o == "ro") g_useArena = true;
        g_blocks->clear(); g_tmp->clear(); g_tmpn = 0; g_extn = 0; hs.clear();
        g_fault = fault; g_tick = 0; g_fired = false; g_inep = false; g_stuck = false; g_lasting = (c.fl & 2) != 0;
        std::string& s = *g_out;
        s = "{\"id\":\""; s += c.id; s += "\"";
        kv(s, "f", fault);
        kv(s, "so", CFG_SO); kv(s, "ty", CFG_T); kv(s, "dbg", CFG_DBG); kv(s, "uc", CFG_UC); kv(s, "po", CFG_CMP); kv(s, "sz", CFG_SZ); kv(s, "sl", CFG_SL);
        s += ",\"ev\":[";
        g_done = s.size();
        bool begun = false;
        g_cur = 0;
        for (size_t i = 0; i < c.ops.size(); ++i) {
            const Op& o = c.ops[i];
            g_cur = &o; g_curf = o.f;
            if (o.f == 'S') {
                if (o.o == "lay") { if (!b[o.x]) layout(o); }
                else { Op q = o; int sf = g_fault; g_fault = 0; if (legal(q)) { R r; call(q, r); } g_fault = sf; }
                continue;
            }
            if (!begun) {
                begun = true; reset_log();
                s += "{\"o\":\"begin\""; app_states(s); s += '}';
                g_done = s.size();
                if (g_OB) for (int z = 0; z < NB; ++z) if (b[z]) { obs(s, z); g_done = s.size(); }
            }
            g_inep = o.f != 'M';
            one_op(o, s, o.f == 'M');
            g_done = s.size();
            if (g_OB && o.f == 'M') for (int z = 0; z < NB; ++z) if (b[z]) { obs(s, z); g_done = s.size(); }
            if (s.size() > 60000000) break;
        }
        if (!begun) { s += "{\"o\":\"begin\""; app_states(s); s += '}'; g_done = s.size(); }
        g_cur = 0;
        reset_log();
        int sf = g_fault; g_fault = 0;
        for (int z = 0; z < NB; ++z) if (b[z]) { g_log = true; b[z]->~CB(); g_log = false; b[z] = 0; }
        g_fault = sf;
        s += ",{\"o\":\"fin\""; app_le(s); app_states(s); s += "}]}\n";
        put(s);
        for (size_t i = 0; i < g_blocks->size(); ++i) free_block((*g_blocks)[i].base);
        g_blocks->clear();
        return g_fired;
    }
};

typedef Runner<CBuf, Elem> Run;
static Run* g_run = 0;

static void set_timer(int sec) {
    struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = sec;
    setitimer(ITIMER_PROF, &tv, 0);
}

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    int maxf = 400;
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "LE=1") g_LE = true;
        if (a == "OB=1") g_OB = true;
        if (a == "HD=1") g_HD = true;
        if (a == "HP=1") g_HD = g_HP = true;
        if (a.compare(0, 5, "MAXF=") == 0) maxf = std::atoi(a.c_str() + 5);
    }
    std::vector<std::string> lines;
    {
        FILE* f = std::fopen(argv[1], "r");
        if (!f) return 2;
        std::string cur; int ch;
        while ((ch = std::fgetc(f)) != EOF) { if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += char(ch); }
        if (!cur.empty()) lines.push_back(cur);
        std::fclose(f);
    }
    g_fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (g_fd < 0) return 2;
    make_pages();
    g_shared = static_cast<volatile int*>(mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_shared[0] = 0; g_shared[1] = 0;
    int crashes = 0;
    size_t start = 0; int fstart = 0;
    while (start < lines.size()) {
        g_shared[0] = int(start); g_shared[1] = fstart;
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0) {
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 4ull << 30; setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            static char altstack[1 << 16];
            stack_t ss; std::memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
            struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
            int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGPROF, SIGILL};
            for (int s : sigs) sigaction(s, &sa, 0);
            std::set_terminate(on_terminate);
            g_le = new std::vector<Le>(); g_blocks = new std::vector<Block>(); g_tmp = new std::map<const void*, int>(); g_out = new std::string();
            g_le->reserve(4096);
            g_blocks->reserve(4096);
            for (size_t i = start; i < lines.size(); ++i) {
                Case c;
                if (!parse_case(lines[i], c)) continue;
                int k = (i == start) ? fstart : 0;
                for (;;) {
                    g_shared[0] = int(i); g_shared[1] = k;
                    set_timer(4);
                    g_run = new Run();
                    bool fired = g_run->run_case(c, k);
                    delete g_run;
                    if (!(c.fl & 1)) break;
                    if (k > 0 && !fired) break;
                    if (++k > maxf) break;
                }
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 78))) {
            // died without reporting: write a crash record for it
            Case l; parse_case(lines[size_t(g_shared[0])], l);
            std::string s = "{\"id\":\"" + l.id + "\",\"f\":" + std::to_string(g_shared[1]) +
                ",\"so\":" + std::to_string(CFG_SO) + ",\"ty\":" + std::to_string(CFG_T) + ",\"dbg\":" + std::to_string(CFG_DBG) +
                ",\"po\":" + std::to_string(CFG_CMP) + ",\"sz\":" + std::to_string(CFG_SZ) + ",\"uc\":" + std::to_string(CFG_UC) + ",\"sl\":" + std::to_string(CFG_SL) + ",\"ev\":[{\"o\":\"begin\",\"bs\":[],\"lb\":[]},{\"o\":\"crash\",\"why\":\"died\",\"of\":\"?\",\"k\":0,\"t\":0,\"ft\":0}]}\n";
            put(s);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 78) crashes += 5;      // hangs take long
        if (++crashes > 20) break;
        // go on behind the crashing run: next fault number of the same case when sweeping
        Case c;
        if (parse_case(lines[size_t(g_shared[0])], c) && (c.fl & 1) && g_shared[1] > 0 && g_shared[1] < maxf && crashes < 8) {
            start = size_t(g_shared[0]); fstart = g_shared[1] + 1;
        } else { start = size_t(g_shared[0]) + 1; fstart = 0; }
    }
    ::close(g_fd);
    return 0;
}
