// Runtime of the instrumented extension modules: shadow memory, expression nodes, trace of decisions,
// wrappers of the Python C API that carry shadows (ints/floats of type lltypes.SInt / SFloat), and a simulated MPI.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <mpi.h>
#include <malloc.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <map>
#include <string>
#include <vector>

typedef uint32_t u32;
typedef uint64_t u64;

struct Node { u32 op, w, w0, a, b, c; u64 av, bv, cv, res; };
struct Event { u32 kind, node; u64 val, aux; };
struct Shadow { u32 w, node; u64 val; };

static std::vector<Node> nodes;      // node i is nodes[i-1]
static std::vector<Event> events;
static std::map<uintptr_t, Shadow> mem;
static const void* pend_fn; static std::vector<std::pair<u32,u32>> pend;
static std::vector<std::pair<u32,u32>> curargs;
static const void* ret_fn; static u32 ret_sh[8];
static PyObject *SIntT, *SFloatT;
static u64 stat_ops;
u32 OP_EQ = 0;

extern "C" {

void rt_reset_arena();
void rt_reset() { rt_reset_arena(); nodes.clear(); events.clear(); mem.clear(); pend_fn = nullptr; pend.clear(); curargs.clear(); ret_fn = nullptr; }
void rt_config(u32 eq, PyObject* si, PyObject* sf) { OP_EQ = eq; SIntT = si; SFloatT = sf; }
u64 rt_nnodes() { return nodes.size(); }
u64 rt_nevents() { return events.size(); }
const void* rt_nodes() { return nodes.data(); }
const void* rt_events() { return events.data(); }
u64 rt_stat() { return stat_ops; }

u32 rt_op(u32 op, u32 w, u32 w0, u32 a, u64 av, u32 b, u64 bv, u32 c, u64 cv, u64 res) {
    if (!(a | b | c)) return 0;
    ++stat_ops;
    nodes.push_back({op, w, w0, a, b, c, av, bv, cv, res});
    return nodes.size();
}
u32 rt_input(u32 op, u32 w, u64 idx, u64 scale, u64 val) {
    nodes.push_back({op, w, w, 0, 0, 0, idx, scale, 0, val});
    return nodes.size();
}
void rt_event(u32 kind, u32 node, u64 val, u64 aux) { events.push_back({kind, node, val, aux}); }
void rt_branch(u32 node, u64 taken) { if (node) events.push_back({1, node, taken & 1, 0}); }
void rt_concretize(u32 node, u64 val) {
    if (!node) return;
    u32 w = nodes[node - 1].w;
    if (w == 1) { rt_branch(node, val); return; }
    u32 e = rt_op(OP_EQ, 1, w, node, val, 0, val, 0, 0, 1);
    events.push_back({2, e, 1, 0});
}

static void partly_cleared(uintptr_t a, Shadow x, uintptr_t p);
static void clear_range(uintptr_t p, u64 n) {
    if (mem.empty() || !n) return;
    auto it = mem.lower_bound(p < 8 ? 0 : p - 7);
    while (it != mem.end() && it->first < p + n) {
        if (it->first + it->second.w > p) {
            Shadow x = it->second; uintptr_t a = it->first;
            it = mem.erase(it);
            if (a < p || a + x.w > p + n) partly_cleared(a, x, p);
        } else ++it;
    }
}
static void touched(const void* p, u32 w);
static void ar_reset();
void rt_clear(void* p, u64 n) { if (n <= 8) touched(p, n); clear_range((uintptr_t)p, n); }
void rt_free(void* p) { if (p && !mem.empty()) clear_range((uintptr_t)p, malloc_usable_size(p)); }
void rt_store(void* p, u32 w, u32 node, u64 val) {
    touched(p, w);
    clear_range((uintptr_t)p, w);
    if (node) mem[(uintptr_t)p] = {w, node, val};
}
// ---- objects that are released during a run keep their memory until its end: every later access is an error
static const u64 ARENA = 1ull << 34;
static char* ar_base; static unsigned char* ar_mark; static u64 ar_next, ar_live, ar_top;
static u64 uaf_count; static u64 uaf_size; static const char* uaf_what = "";
static u64 ar_native; static bool ar_on; static size_t ar_sizes[8]; static int ar_nsizes;
static PyMemAllocatorEx ar_old;
static bool probing; static std::vector<std::pair<void*, size_t>> probes;

static bool in_arena(const void* p) { return ar_base && (char*)p >= ar_base && (char*)p < ar_base + ARENA; }
static void* ar_alloc(u64 n) {
    if (!ar_base) {
        ar_base = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        ar_mark = (unsigned char*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (ar_base == MAP_FAILED || ar_mark == MAP_FAILED) { fprintf(stderr, "no memory for the arena\n"); abort(); }
    }
    u64 need = (n + 15) / 16 * 16 + 32;      // header, block, gap
    if (ar_next + need > ARENA) { fprintf(stderr, "arena exhausted\n"); abort(); }
    char* b = ar_base + ar_next;
    *(u64*)b = n; *(u64*)(b + 8) = 1;
    memset(b + 16, 0xcd, need - 16);
    ar_next += need; if (ar_next > ar_top) ar_top = ar_next;
    ++ar_live;
    return b + 16;
}
static void ar_release(void* p) {
    char* b = (char*)p - 16;
    u64 n = *(u64*)b;
    if (!*(u64*)(b + 8)) { ++uaf_count; uaf_what = "released twice"; uaf_size = n; return; }
    *(u64*)(b + 8) = 0;
    memset(ar_mark + ((char*)p - ar_base) / 16, 1, (n + 15) / 16);
    clear_range((uintptr_t)p, n);
    --ar_live;
}
// space of the earlier runs is used again, up to the last object that still exists
static void ar_reset() {
    if (!ar_base) return;
    u64 at = 0, keep = 0;
    if (ar_live) while (at < ar_next) {
        char* b = ar_base + at;
        u64 need = (*(u64*)b + 15) / 16 * 16 + 32;
        if (*(u64*)(b + 8)) keep = at + need;
        at += need;
    }
    memset(ar_mark + keep / 16, 0, (ar_next - keep) / 16 + 1);
    ar_next = keep;
}
static void touched(const void* p, u32 w) {
    if (!in_arena(p)) return;
    u64 o = (char*)p - ar_base;
    if (ar_mark[o / 16]) { ++uaf_count; if (!*uaf_what) uaf_what = "used after its release"; }
}
static bool ar_takes(size_t n) { for (int i = 0; i < ar_nsizes; ++i) if (ar_sizes[i] == n) return true; return false; }
static void* al_malloc(void*, size_t n) {
    void* p = ar_on && ar_takes(n) ? ar_alloc(n) : ar_old.malloc(ar_old.ctx, n);
    if (probing) probes.push_back({p, n});
    return p;
}
static void* al_calloc(void*, size_t a, size_t b) {
    void* p;
    if (ar_on && ar_takes(a * b)) { p = ar_alloc(a * b); memset(p, 0, a * b); }
    else p = ar_old.calloc(ar_old.ctx, a, b);
    if (probing) probes.push_back({p, a * b});
    return p;
}
static void al_free(void*, void* p) { if (in_arena(p)) ar_release(p); else ar_old.free(ar_old.ctx, p); }
static void* al_realloc(void*, void* p, size_t n) {
    if (!in_arena(p)) return ar_old.realloc(ar_old.ctx, p, n);
    u64 o = *(u64*)((char*)p - 16);
    void* q = ar_old.malloc(ar_old.ctx, n);
    if (q) { memcpy(q, p, o < n ? o : n); ar_release(p); }
    return q;
}
void rt_track(u32 on) { ar_on = on; }
void rt_track_init() {
    PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &ar_old);
    PyMemAllocatorEx a = {nullptr, al_malloc, al_calloc, al_realloc, al_free};
    PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &a);
}
void rt_probe(u32 on) { probing = on; if (on) probes.clear(); }
// the allocation that contains the object becomes a tracked size
void rt_track_size(PyObject* o) {
    for (auto it = probes.rbegin(); it != probes.rend(); ++it)
        if ((char*)it->first <= (char*)o && (char*)o < (char*)it->first + it->second) {
            if (!ar_takes(it->second) && ar_nsizes < 8) ar_sizes[ar_nsizes++] = it->second;
            return;
        }
}
u64 rt_released() { return uaf_count; }
const char* rt_released_what() { return uaf_what; }
u64 rt_live() { return ar_live; }
void rt_reset_arena() { ar_reset(); uaf_count = 0; uaf_what = ""; }
u64 rt_native_live() { return ar_native; }
void* rt_new(u64 n) { if (!ar_on) return ::operator new(n); ++ar_native; return ar_alloc(n); }
void rt_del(void* p) { if (!p) return; if (in_arena(p)) { --ar_native; ar_release(p); } else { rt_free(p); ::operator delete(p); } }
void rt_chk(void* p) { touched(p, 8); }

static u64 lowmask(u32 w) { return w >= 8 ? ~0ull : ((1ull << (8 * w)) - 1); }
static u32 low_part(const Shadow& s, u32 w);
u32 rt_load(void* p, u32 w, u64 val) {
    touched(p, w);
    if (mem.empty()) return 0;
    auto it = mem.lower_bound((uintptr_t)p < 8 ? 0 : (uintptr_t)p - 7);
    for (; it != mem.end() && it->first < (uintptr_t)p + w; ++it) {
        if (it->first + it->second.w <= (uintptr_t)p) continue;
        Shadow& s = it->second;
        u64 cur = 0; memcpy(&cur, (void*)it->first, s.w);
        if ((cur ^ s.val) & lowmask(s.w)) { mem.erase(it); return 0; }    // overwritten by code that is not instrumented
        if (it->first == (uintptr_t)p && s.w == w) return s.node;
        if (it->first == (uintptr_t)p && s.w > w) { u32 nd = low_part(s, w); if (nd) return nd; }
        rt_concretize(s.node, s.val);                                     // partial access
        return 0;
    }
    return 0;
}
void rt_memcpy(void* d, void* s, u64 n) {
    if (mem.empty() || !n) return;
    std::vector<std::pair<uintptr_t, Shadow>> cp;
    uintptr_t a = (uintptr_t)s;
    for (auto it = mem.lower_bound(a); it != mem.end() && it->first + it->second.w <= a + n; ++it) cp.push_back(*it);
    clear_range((uintptr_t)d, n);
    for (auto& x : cp) mem[x.first - a + (uintptr_t)d] = x.second;
}
void rt_call(const void* f) { pend_fn = f; pend.clear(); ret_fn = nullptr; memset(ret_sh, 0, sizeof ret_sh); }
void rt_setarg(u32 i, u32 sh) { pend.push_back({i, sh}); }
void rt_enter(const void* f) {
    if (pend_fn == f) curargs.swap(pend); else curargs.clear();
    pend.clear(); pend_fn = nullptr;
}
u32 rt_getarg(u32 i, u64 val) { for (auto& x : curargs) if (x.first == i) return x.second; return 0; }
void rt_setret(const void* f, u32 i, u32 sh) { if (ret_fn != f) { ret_fn = f; memset(ret_sh, 0, sizeof ret_sh); } if (i < 8) ret_sh[i] = sh; }
u32 rt_getret(const void* f, u32 i) { return ret_fn == f && i < 8 ? ret_sh[i] : 0; }
u32 rt_peek(void* p, u32 w) { u64 v = 0; memcpy(&v, p, w); return rt_load(p, w, v); }

// ---- Python C API
static u32 node_of(PyObject* o) {
    if (!o || (Py_TYPE(o) != (PyTypeObject*)SIntT && Py_TYPE(o) != (PyTypeObject*)SFloatT)) return 0;
    PyObject* n = PyObject_GetAttrString(o, "n");
    if (!n) { PyErr_Clear(); return 0; }
    u32 r = (u32)PyLong_AsUnsignedLong(n);
    Py_DECREF(n);
    return r;
}
static PyObject* mk(PyObject* type, PyObject* val, u32 node) {
    if (!node || !val) return val;
    PyObject* r = PyObject_CallFunction(type, "OI", val, node);
    Py_DECREF(val);
    return r;
}
static u32 pend_arg(u32 i, const void* f) {
    if (pend_fn != f) return 0;
    for (auto& x : pend) if (x.first == i) return x.second;
    return 0;
}
extern u32 OP_SITOFP;
static u32 op_sitofp_;
u32 op_trunc_ = 0, op_sext_ = 0, op_zext_ = 0, op_input_ = 0;
void rt_ops(u32 sitofp, u32 tr, u32 se, u32 ze, u32 in) { op_sitofp_ = sitofp; op_trunc_ = tr; op_sext_ = se; op_zext_ = ze; op_input_ = in; }
// the low bytes of a stored integer (a long that is written where an int is read)
static u32 low_part(const Shadow& s, u32 w) {
    if (w != 1 && w != 2 && w != 4) return 0;
    const Node& d = nodes[s.node - 1];
    if (d.w != 8 * s.w || (d.op != op_input_ && d.op != op_sext_ && d.op != op_zext_ && d.op != op_trunc_)) return 0;
    return rt_op(op_trunc_, 8 * w, 8 * s.w, s.node, s.val, 0, 0, 0, 0, s.val & lowmask(w));
}
static void partly_cleared(uintptr_t a, Shadow x, uintptr_t p) {
    u32 nd = a < p ? low_part(x, p - a) : 0;
    if (nd) mem[a] = {(u32)(p - a), nd, x.val & lowmask(p - a)};
}

static u32 as_double_node(PyObject* o) {     // node of the double that the object converts to
    u32 n = node_of(o);
    if (n && Py_TYPE(o) == (PyTypeObject*)SIntT) {
        double d = (double)PyLong_AsLong(o);
        u64 bits; memcpy(&bits, &d, 8);
        n = rt_op(op_sitofp_, 64 | 256, 64, n, (u64)PyLong_AsLong(o), 0, 0, 0, 0, bits);
    }
    return n;
}

long rt_PyLong_AsLong(PyObject* o) { u32 n = node_of(o); long v = PyLong_AsLong(o); rt_setret((void*)rt_PyLong_AsLong, 0, n); return v; }
long long rt_PyLong_AsLongLong(PyObject* o) { u32 n = node_of(o); long long v = PyLong_AsLongLong(o); rt_setret((void*)rt_PyLong_AsLongLong, 0, n); return v; }
Py_ssize_t rt_PyLong_AsSsize_t(PyObject* o) { u32 n = node_of(o); Py_ssize_t v = PyLong_AsSsize_t(o); rt_setret((void*)rt_PyLong_AsSsize_t, 0, n); return v; }
double rt_PyFloat_AsDouble(PyObject* o) { u32 n = as_double_node(o); double v = PyFloat_AsDouble(o); rt_setret((void*)rt_PyFloat_AsDouble, 0, n); return v; }
PyObject* rt_PyLong_FromLong(long v) { u32 n = pend_arg(0, (void*)rt_PyLong_FromLong); return mk(SIntT, PyLong_FromLong(v), n); }
PyObject* rt_PyLong_FromLongLong(long long v) { u32 n = pend_arg(0, (void*)rt_PyLong_FromLongLong); return mk(SIntT, PyLong_FromLongLong(v), n); }
PyObject* rt_PyLong_FromSsize_t(Py_ssize_t v) { u32 n = pend_arg(0, (void*)rt_PyLong_FromSsize_t); return mk(SIntT, PyLong_FromSsize_t(v), n); }
PyObject* rt_PyFloat_FromDouble(double v) { u32 n = pend_arg(0, (void*)rt_PyFloat_FromDouble); return mk(SFloatT, PyFloat_FromDouble(v), n); }

// walks a PyArg format and attaches shadows to the destinations of numbers
static void walk_items(PyObject* const* items, Py_ssize_t n, const char** f, va_list* va, bool nested) {
    Py_ssize_t i = 0;
    while (**f) {
        char c = *(*f)++;
        if (c == ')' && nested) return;
        if (c == ':' || c == ';') { while (**f) ++*f; return; }
        if (c == '|' || c == '$') continue;
        PyObject* o = i < n ? items[i] : nullptr;
        if (c == '(') {
            if (o && PySequence_Check(o) && !PyTuple_Check(o)) {
                PyObject* t = PySequence_Tuple(o);
                walk_items(((PyTupleObject*)t)->ob_item, PyTuple_GET_SIZE(t), f, va, true);
                Py_XDECREF(t);
            } else if (o && PyTuple_Check(o)) walk_items(((PyTupleObject*)o)->ob_item, PyTuple_GET_SIZE(o), f, va, true);
            else walk_items(nullptr, 0, f, va, true);
            ++i;
            continue;
        }
        ++i;
        void* d;
        switch (c) {
        case 'O':
            if (**f == '!') { ++*f; va_arg(*va, void*); }
            else if (**f == '&') { ++*f; va_arg(*va, void*); }
            va_arg(*va, void*);
            break;
        case 's': case 'z': case 'y':
            if (**f == '#') { ++*f; va_arg(*va, void*); va_arg(*va, void*); }
            else { if (**f == '*') ++*f; va_arg(*va, void*); }
            break;
        case 'b': case 'B': case 'p':
            d = va_arg(*va, void*); if (o) { rt_clear(d, c == 'p' ? 4 : 1); rt_concretize(node_of(o), PyLong_Check(o) ? (u64)PyLong_AsLong(o) : 0); }
            break;
        case 'i': case 'I':
            d = va_arg(*va, void*);
            if (o) {
                rt_clear(d, 4);
                u32 nd = node_of(o);
                if (nd && PyLong_Check(o)) {
                    // a value outside int raises: the path with a value inside stays inside (the harness inputs are bounded)
                    u64 v = (u64)PyLong_AsLong(o), t = v & 0xffffffffull;
                    rt_store(d, 4, rt_op(op_trunc_, 32, 64, nd, v, 0, 0, 0, 0, t), t);
                }
            }
            break;
        case 'l': case 'L': case 'n': case 'k': case 'K':
            d = va_arg(*va, void*);
            if (o) { u64 v; memcpy(&v, d, 8); rt_store(d, 8, node_of(o), v); }
            break;
        case 'd':
            d = va_arg(*va, void*);
            if (o) { u64 v; memcpy(&v, d, 8); rt_store(d, 8, as_double_node(o), v); }
            break;
        default:
            va_arg(*va, void*);
        }
    }
}
static void walk(PyObject* args, const char* fmt, va_list* va) {
    walk_items(((PyTupleObject*)args)->ob_item, PyTuple_GET_SIZE(args), &fmt, va, false);
}
static void walk_kw(PyObject* args, PyObject* kw, const char* fmt, char** names, va_list* va) {
    std::vector<PyObject*> items;
    Py_ssize_t na = PyTuple_GET_SIZE(args);
    for (Py_ssize_t i = 0; names[i]; ++i)
        items.push_back(i < na ? PyTuple_GET_ITEM(args, i) : kw ? PyDict_GetItemString(kw, names[i]) : nullptr);
    walk_items(items.data(), items.size(), &fmt, va, false);
}
int rt__PyArg_ParseTuple_SizeT(PyObject* args, const char* fmt, ...) {
    va_list va; va_start(va, fmt); int r = PyArg_VaParse(args, fmt, va); va_end(va);
    if (r) { va_list v2; va_start(v2, fmt); walk(args, fmt, &v2); va_end(v2); }
    return r;
}
int rt_PyArg_ParseTuple(PyObject* args, const char* fmt, ...) {
    va_list va; va_start(va, fmt); int r = PyArg_VaParse(args, fmt, va); va_end(va);
    if (r) { va_list v2; va_start(v2, fmt); walk(args, fmt, &v2); va_end(v2); }
    return r;
}
int rt__PyArg_ParseTupleAndKeywords_SizeT(PyObject* args, PyObject* kw, const char* fmt, char** names, ...) {
    va_list va; va_start(va, names); int r = PyArg_VaParseTupleAndKeywords(args, kw, fmt, names, va); va_end(va);
    if (r) { va_list v2; va_start(v2, names); walk_kw(args, kw, fmt, names, &v2); va_end(v2); }
    return r;
}
int rt_PyArg_ParseTupleAndKeywords(PyObject* args, PyObject* kw, const char* fmt, char** names, ...) {
    va_list va; va_start(va, names); int r = PyArg_VaParseTupleAndKeywords(args, kw, fmt, names, va); va_end(va);
    if (r) { va_list v2; va_start(v2, names); walk_kw(args, kw, fmt, names, &v2); va_end(v2); }
    return r;
}
// attaches shadows to the numbers of a freshly built value
static PyObject* fix_built(PyObject* o, const char** f, u32* argi, const std::vector<std::pair<u32,u32>>& sh) {
    while (**f == ' ' || **f == ',' || **f == ':') ++*f;
    char c = *(*f)++;
    if (c == '(') {
        Py_ssize_t i = 0;
        while (true) {
            while (**f == ' ' || **f == ',' || **f == ':') ++*f;
            if (!**f || **f == ')') { if (**f) ++*f; break; }
            PyObject* it = PyTuple_GET_ITEM(o, i);
            PyObject* r = fix_built(it, f, argi, sh);
            if (r != it) PyTuple_SET_ITEM(o, i, r);
            ++i;
        }
        return o;
    }
    u32 k = (*argi)++;
    if (c == 'O' || c == 'N' || c == 'S') { if (**f == '&') { ++*f; ++*argi; } return o; }
    if (c == 's' || c == 'z' || c == 'y' || c == 'u' || c == 'U') { if (**f == '#') { ++*f; ++*argi; } return o; }
    for (auto& x : sh) if (x.first == k && x.second) {
        if (PyFloat_Check(o)) return mk(SFloatT, o, x.second);
        if (PyLong_Check(o)) {
            u32 n = x.second;
            if (c == 'i' || c == 'I') { u64 v = (u64)PyLong_AsLong(o); n = rt_op(c == 'i' ? op_sext_ : op_zext_, 64, 32, n, v & 0xffffffffull, 0, 0, 0, 0, v); }
            return mk(SIntT, o, n);
        }
    }
    return o;
}
static PyObject* built(PyObject* r, const char* fmt, const std::vector<std::pair<u32,u32>>& sh) {
    if (!r || sh.empty()) return r;
    const char* f = fmt; u32 k = 1;
    while (*f == ' ') ++f;
    // a format of several items makes a tuple
    int depth = 0, items = 0;
    for (const char* p = f; *p; ++p) {
        if (*p == '(') { if (!depth) ++items; ++depth; }
        else if (*p == ')') --depth;
        else if (!depth && *p != ' ' && *p != ',' && *p != '#' && *p != '&') ++items;
    }
    if (items == 1) return fix_built(r, &f, &k, sh);
    for (Py_ssize_t i = 0; i < items; ++i) {
        PyObject* it = PyTuple_GET_ITEM(r, i);
        PyObject* n = fix_built(it, &f, &k, sh);
        if (n != it) PyTuple_SET_ITEM(r, i, n);
    }
    return r;
}
PyObject* rt__Py_BuildValue_SizeT(const char* fmt, ...) {
    std::vector<std::pair<u32,u32>> sh; if (pend_fn == (void*)rt__Py_BuildValue_SizeT) sh = pend;
    va_list va; va_start(va, fmt); PyObject* r = Py_VaBuildValue(fmt, va); va_end(va);
    return built(r, fmt, sh);
}
PyObject* rt_Py_BuildValue(const char* fmt, ...) {
    std::vector<std::pair<u32,u32>> sh; if (pend_fn == (void*)rt_Py_BuildValue) sh = pend;
    va_list va; va_start(va, fmt); PyObject* r = Py_VaBuildValue(fmt, va); va_end(va);
    return built(r, fmt, sh);
}

// ---- simulated MPI: one process plays any rank
struct FakeComm { u64 magic; int ndims, dims[3], periods[3], size, rank; };
static const u64 MAGIC = 0x6c6c73796d636f6dull;
static int mpi_size = 1, mpi_rank = 0;
static std::map<std::pair<int,int>, std::pair<std::vector<char>, std::vector<std::pair<uintptr_t, Shadow>>>> gathers;
static int gather_no;
static std::vector<FakeComm*> comms;

void rt_mpi(int size, int rank) { mpi_size = size; mpi_rank = rank; gather_no = 0; }
void rt_mpi_reset() { gathers.clear(); gather_no = 0; for (auto c : comms) free(c); comms.clear(); }
static FakeComm* fake(MPI_Comm c) { for (auto x : comms) if ((void*)x == (void*)c) return x; return nullptr; }
int rt_MPI_Comm_size(MPI_Comm c, int* n) { auto f = fake(c); *n = f ? f->size : mpi_size; rt_clear(n, 4); return 0; }
int rt_MPI_Comm_rank(MPI_Comm c, int* n) { auto f = fake(c); *n = f ? f->rank : mpi_rank; rt_clear(n, 4); return 0; }
int rt_MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return 0; }
int rt_MPI_Dims_create(int n, int nd, int* dims) { int r = MPI_Dims_create(n, nd, dims); rt_clear(dims, 4 * nd); return r; }
int rt_MPI_Cart_create(MPI_Comm c, int nd, const int* dims, const int* periods, int, MPI_Comm* out) {
    FakeComm* f = (FakeComm*)calloc(1, 4096);
    f->magic = MAGIC; f->ndims = nd; f->size = 1; f->rank = mpi_rank;
    for (int i = 0; i < nd; ++i) { f->dims[i] = dims[i]; f->periods[i] = periods[i]; f->size *= dims[i]; }
    if (f->size > mpi_size) { fprintf(stderr, "MPI_Cart_create: too many processes requested\n"); abort(); }
    comms.push_back(f);
    *out = mpi_rank < f->size ? (MPI_Comm)f : MPI_COMM_NULL;
    rt_clear(out, 8);
    return 0;
}
int rt_MPI_Cart_coords(MPI_Comm c, int rank, int maxd, int* coords) {
    FakeComm* f = fake(c);
    if (!f || rank < 0 || rank >= f->size || maxd < f->ndims) { fprintf(stderr, "MPI_Cart_coords: invalid argument\n"); abort(); }
    int n = f->size;
    for (int i = 0; i < f->ndims; ++i) { n /= f->dims[i]; coords[i] = rank / n; rank %= n; }
    rt_clear(coords, 4 * f->ndims);
    return 0;
}
int rt_MPI_Cart_rank(MPI_Comm c, const int* coords, int* rank) {
    FakeComm* f = fake(c);
    if (!f) { fprintf(stderr, "MPI_Cart_rank: invalid communicator\n"); abort(); }
    int r = 0;
    for (int i = 0; i < f->ndims; ++i) {
        int k = coords[i];
        if (k < 0 || k >= f->dims[i]) {
            if (!f->periods[i]) { fprintf(stderr, "MPI_Cart_rank: coordinate out of range\n"); abort(); }
            k %= f->dims[i]; if (k < 0) k += f->dims[i];
        }
        r = r * f->dims[i] + k;
    }
    *rank = r; rt_clear(rank, 4);
    return 0;
}
int rt_MPI_Allgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c) {
    int sz; MPI_Type_size(st, &sz);
    u64 n = (u64)sc * sz;
    int k = gather_no++;
    auto& slot = gathers[{k, mpi_rank}];
    slot.first.assign((const char*)sb, (const char*)sb + n);
    slot.second.clear();
    for (auto it = mem.lower_bound((uintptr_t)sb); it != mem.end() && it->first + it->second.w <= (uintptr_t)sb + n; ++it)
        slot.second.push_back({it->first - (uintptr_t)sb, it->second});
    for (int r = 0; r < mpi_size; ++r) {
        auto it = gathers.find({k, r});
        auto& s = it == gathers.end() ? slot : it->second;
        char* d = (char*)rb + r * n;
        clear_range((uintptr_t)d, n);
        memcpy(d, s.first.data(), n);
        for (auto& x : s.second) mem[(uintptr_t)d + x.first] = x.second;
    }
    return 0;
}
}
