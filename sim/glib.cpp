// The part of GLib/GIO the threaded TCP backend uses, on top of the simulator:
// threads are fibers, mutexes and conditions are scheduling points, time is the
// simulated clock, files are simulated, and memory belongs to the process.
#include "sim.h"
#include <cstring>
#include <cstdlib>
#include <cmath>
#include <algorithm>
#include <unordered_map>

extern "C" {
void* __wrap_malloc(size_t);
void __wrap_free(void*);
void* __wrap_realloc(void*, size_t);
void __wrap_abort(void);
}

typedef int gboolean;
typedef unsigned guint;
typedef uint32_t GQuark;

struct GBytes { void* data; size_t size; int ref; };
struct GArray { char* data; guint len; size_t elem, cap; int ref; bool clear, zt; };
struct GPtrArray { void** pdata; guint len; size_t cap; int ref; void (*fr)(void*); };
struct GString { char* str; size_t len, alloc; };
struct GError { GQuark domain; int code; char* message; };
struct GMutex { guint i[2]; };
struct GCond { void* p; guint i[2]; };
struct GList { void* data; GList *next, *prev; };
struct GQueue { std::deque<void*>* q; };

static int condRate;
static std::map<std::pair<int, std::string>, int> quarkIds;
static std::vector<std::string> quarkNames;

static Node* me() { return cur->node; }

extern "C" {

// ---- memory
void* g_malloc(size_t n)
{
    if (!n) return nullptr;
    void* p = __wrap_malloc(n);
    if (!p) __wrap_abort(); // GLib ends the process
    return p;
}
void* g_malloc0(size_t n)
{
    void* p = g_malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
void* g_malloc_n(size_t a, size_t b) { return g_malloc(a * b); }
void* g_malloc0_n(size_t a, size_t b) { return g_malloc0(a * b); }
void* g_realloc(void* p, size_t n)
{
    if (!n) { if (p) __wrap_free(p); return nullptr; }
    p = __wrap_realloc(p, n);
    if (!p) __wrap_abort();
    return p;
}
void g_free(void* p) { if (p) __wrap_free(p); }
char* g_strdup(const char* s)
{
    if (!s) return nullptr;
    size_t l = strlen(s) + 1;
    return (char*)memcpy(g_malloc(l), s, l);
}
void* g_memdup2(const void* s, size_t n) { return s && n ? memcpy(g_malloc(n), s, n) : nullptr; }
void* g_memdup(const void* s, guint n) { return g_memdup2(s, n); }
char* g_strdup_vprintf(const char* f, va_list ap)
{
    va_list c;
    va_copy(c, ap);
    int n = vsnprintf(nullptr, 0, f, c);
    va_end(c);
    char* p = (char*)g_malloc(n + 1);
    vsnprintf(p, n + 1, f, ap);
    return p;
}
char* g_strdup_printf(const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    char* p = g_strdup_vprintf(f, ap);
    va_end(ap);
    return p;
}
void g_strfreev(char** s)
{
    if (!s) return;
    for (char** p = s; *p; p++) g_free(*p);
    g_free(s);
}
guint g_str_hash(const void* v)
{
    guint h = 5381;
    for (const char* p = (const char*)v; *p; p++) h = h * 33 + *p;
    return h;
}
int g_strcmp0(const char* a, const char* b) { return !a ? -(a != b) : !b ? 1 : strcmp(a, b); }
gboolean g_str_has_prefix(const char* s, const char* p) { return !strncmp(s, p, strlen(p)); }
gboolean g_str_has_suffix(const char* s, const char* p) { return strlen(s) >= strlen(p) && !strcmp(s + strlen(s) - strlen(p), p); }
char* g_strndup(const char* s, size_t n)
{
    if (!s) return nullptr;
    size_t l = strnlen(s, n);
    char* p = (char*)g_malloc(l + 1);
    memcpy(p, s, l);
    p[l] = 0;
    return p;
}
guint g_direct_hash(const void* v) { return (guint)(size_t)v; }
gboolean g_direct_equal(const void* a, const void* b) { return a == b; }
guint g_int64_hash(const void* v) { return (guint)*(const int64_t*)v; }
gboolean g_int64_equal(const void* a, const void* b) { return *(const int64_t*)a == *(const int64_t*)b; }
guint g_int_hash(const void* v) { return (guint)*(const int*)v; }
gboolean g_int_equal(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
void* g_malloc(size_t);
void* g_try_malloc(size_t n) { return n ? __wrap_malloc(n) : nullptr; }
gboolean g_str_equal(const void* a, const void* b) { return !strcmp((const char*)a, (const char*)b); }

// ---- bytes
GBytes* g_bytes_new_take(void* d, size_t n)
{
    GBytes* b = (GBytes*)g_malloc(sizeof *b);
    b->data = d; b->size = n; b->ref = 1;
    return b;
}
GBytes* g_bytes_new(const void* d, size_t n) { return g_bytes_new_take(g_memdup2(d, n), n); }
static GBytes* okb(GBytes* b)
{
    if (!b || b->ref <= 0 || b->ref > 1000000) violation("heap", "byte block used after it was released");
    return b;
}
GBytes* g_bytes_ref(GBytes* b) { okb(b)->ref++; return b; }
void g_bytes_unref(GBytes* b)
{
    if (!b) return;
    if (--okb(b)->ref) return;
    g_free(b->data);
    g_free(b);
}
const void* g_bytes_get_data(GBytes* b, size_t* n)
{
    okb(b);
    if (n) *n = b->size;
    return b->data;
}
size_t g_bytes_get_size(GBytes* b) { return okb(b)->size; }
guint g_bytes_hash(const void* v)
{
    GBytes* b = okb((GBytes*)v);
    guint h = 5381;
    for (size_t i = 0; i < b->size; i++) h = h * 33 + ((signed char*)b->data)[i];
    return h;
}
gboolean g_bytes_equal(const void* x, const void* y)
{
    GBytes *a = okb((GBytes*)x), *b = okb((GBytes*)y);
    return a->size == b->size && (!a->size || !memcmp(a->data, b->data, a->size));
}

// ---- arrays
GArray* g_array_sized_new(gboolean zt, gboolean clear, guint es, guint res)
{
    GArray* a = (GArray*)g_malloc0(sizeof *a);
    a->elem = es; a->ref = 1; a->clear = clear; a->zt = zt;
    if (res) { a->cap = res; a->data = (char*)g_malloc(res * es); }
    return a;
}
GArray* g_array_new(gboolean zt, gboolean clear, guint es) { return g_array_sized_new(zt, clear, es, 0); }
GArray* g_array_ref(GArray* a) { a->ref++; return a; }
void g_array_unref(GArray* a)
{
    if (a->ref <= 0) violation("heap", "array released twice");
    if (--a->ref) return;
    g_free(a->data);
    g_free(a);
}
GArray* g_array_append_vals(GArray* a, const void* d, guint n)
{
    if (a->len + n > a->cap) {
        a->cap = (a->len + n) * 2;
        a->data = (char*)g_realloc(a->data, a->cap * a->elem);
    }
    memcpy(a->data + a->len * a->elem, d, n * a->elem);
    a->len += n;
    return a;
}
GArray* g_array_remove_index(GArray* a, guint i)
{
    if (i >= a->len) violation("heap", "removing element %u of an array of %u", i, a->len);
    memmove(a->data + i * a->elem, a->data + (i + 1) * a->elem, (a->len - i - 1) * a->elem);
    a->len--;
    return a;
}
GArray* g_array_remove_index_fast(GArray* a, guint i)
{
    if (i >= a->len) violation("heap", "removing element %u of an array of %u", i, a->len);
    if (i != a->len - 1) memcpy(a->data + i * a->elem, a->data + (a->len - 1) * a->elem, a->elem);
    a->len--;
    return a;
}
GArray* g_array_remove_range(GArray* a, guint i, guint n)
{
    while (n--) g_array_remove_index(a, i);
    return a;
}
GArray* g_array_set_size(GArray* a, guint n)
{
    if (n > a->cap) {
        a->cap = n;
        a->data = (char*)g_realloc(a->data, a->cap * a->elem);
    }
    if (n > a->len && a->clear) memset(a->data + a->len * a->elem, 0, (n - a->len) * a->elem);
    a->len = n;
    return a;
}
GArray* g_array_insert_vals(GArray* a, guint i, const void* d, guint n)
{
    if (i > a->len) violation("heap", "inserting at %u into an array of %u", i, a->len);
    std::string tail(a->data + i * a->elem, (a->len - i) * a->elem);
    guint t = a->len - i;
    a->len = i;
    g_array_append_vals(a, d, n);
    if (t) g_array_append_vals(a, tail.data(), t);
    return a;
}
GArray* g_array_prepend_vals(GArray* a, const void* d, guint n) { return g_array_insert_vals(a, 0, d, n); }
char* g_array_free(GArray* a, gboolean seg)
{
    char* d = a->data;
    if (seg) { g_free(d); d = nullptr; }
    g_free(a);
    return d;
}
void g_array_sort(GArray* a, int (*cmp)(const void*, const void*))
{
    // merge sort as in GLib: stable
    std::vector<std::string> v;
    for (guint i = 0; i < a->len; i++) v.emplace_back(a->data + i * a->elem, a->elem);
    for (size_t i = 1; i < v.size(); i++)
        for (size_t j = i; j > 0 && cmp(v[j - 1].data(), v[j].data()) > 0; j--) std::swap(v[j - 1], v[j]);
    for (guint i = 0; i < a->len; i++) memcpy(a->data + i * a->elem, v[i].data(), a->elem);
}

GPtrArray* g_ptr_array_new_with_free_func(void (*fr)(void*))
{
    GPtrArray* a = (GPtrArray*)g_malloc0(sizeof *a);
    a->ref = 1; a->fr = fr;
    return a;
}
GPtrArray* g_ptr_array_new(void) { return g_ptr_array_new_with_free_func(nullptr); }
GPtrArray* g_ptr_array_ref(GPtrArray* a) { a->ref++; return a; }
void g_ptr_array_unref(GPtrArray* a)
{
    if (a->ref <= 0) violation("heap", "array released twice");
    if (--a->ref) return;
    for (guint i = 0; i < a->len; i++) if (a->fr && a->pdata[i]) a->fr(a->pdata[i]);
    g_free(a->pdata);
    g_free(a);
}
void g_ptr_array_add(GPtrArray* a, void* d)
{
    if (a->len + 1 > a->cap) {
        a->cap = (a->len + 1) * 2;
        a->pdata = (void**)g_realloc(a->pdata, a->cap * sizeof(void*));
    }
    a->pdata[a->len++] = d;
}
void* g_ptr_array_remove_index(GPtrArray* a, guint i)
{
    if (i >= a->len) violation("heap", "removing element %u of an array of %u", i, a->len);
    void* r = a->pdata[i];
    if (a->fr && r) a->fr(r);
    memmove(a->pdata + i, a->pdata + i + 1, (a->len - i - 1) * sizeof(void*));
    a->len--;
    return r;
}
void* g_ptr_array_remove_index_fast(GPtrArray* a, guint i)
{
    if (i >= a->len) violation("heap", "removing element %u of an array of %u", i, a->len);
    void* r = a->pdata[i];
    if (a->fr && r) a->fr(r);
    a->pdata[i] = a->pdata[a->len - 1];
    a->len--;
    return r;
}
void* g_ptr_array_steal_index(GPtrArray* a, guint i)
{
    if (i >= a->len) violation("heap", "removing element %u of an array of %u", i, a->len);
    void* r = a->pdata[i];
    memmove(a->pdata + i, a->pdata + i + 1, (a->len - i - 1) * sizeof(void*));
    a->len--;
    return r;
}
void* g_ptr_array_steal_index_fast(GPtrArray* a, guint i)
{
    if (i >= a->len) violation("heap", "removing element %u of an array of %u", i, a->len);
    void* r = a->pdata[i];
    a->pdata[i] = a->pdata[--a->len];
    return r;
}
gboolean g_ptr_array_remove(GPtrArray* a, void* d)
{
    for (guint i = 0; i < a->len; i++) if (a->pdata[i] == d) { g_ptr_array_remove_index(a, i); return 1; }
    return 0;
}
gboolean g_ptr_array_remove_fast(GPtrArray* a, void* d)
{
    for (guint i = 0; i < a->len; i++) if (a->pdata[i] == d) { g_ptr_array_remove_index_fast(a, i); return 1; }
    return 0;
}
gboolean g_ptr_array_find(GPtrArray* a, const void* d, guint* at)
{
    for (guint i = 0; i < a->len; i++) if (a->pdata[i] == d) { if (at) *at = i; return 1; }
    return 0;
}
void g_ptr_array_set_size(GPtrArray* a, int n)
{
    while ((int)a->len > n) g_ptr_array_remove_index(a, a->len - 1);
    while ((int)a->len < n) g_ptr_array_add(a, nullptr);
}
void g_ptr_array_foreach(GPtrArray* a, void (*f)(void*, void*), void* u) { for (guint i = 0; i < a->len; i++) f(a->pdata[i], u); }
void g_ptr_array_insert(GPtrArray* a, int i, void* d)
{
    g_ptr_array_add(a, d);
    if (i < 0) return;
    for (guint k = a->len - 1; k > (guint)i; k--) a->pdata[k] = a->pdata[k - 1];
    a->pdata[i] = d;
}
GPtrArray* g_ptr_array_sized_new(guint) { return g_ptr_array_new(); }
void** g_ptr_array_free(GPtrArray* a, gboolean seg)
{
    void** d = a->pdata;
    if (seg) {
        for (guint i = 0; i < a->len; i++) if (a->fr && a->pdata[i]) a->fr(a->pdata[i]);
        g_free(d);
        d = nullptr;
    }
    g_free(a);
    return d;
}

// ---- hash tables: contents in creation order
struct GHashTable {
    std::vector<std::pair<void*, void*>> e;
    std::unordered_multimap<guint, size_t> idx;
    guint (*hash)(const void*);
    gboolean (*eq)(const void*, const void*);
    void (*kf)(void*);
    void (*vf)(void*);
    int ref = 1;
    size_t find(const void* k)
    {
        auto r = idx.equal_range(hash(k));
        for (auto i = r.first; i != r.second; ++i) if (eq(e[i->second].first, k)) return i->second;
        return (size_t)-1;
    }
};
GHashTable* g_hash_table_new_full(guint (*h)(const void*), gboolean (*eq)(const void*, const void*), void (*kf)(void*), void (*vf)(void*))
{
    GHashTable* t = new GHashTable();
    t->hash = h; t->eq = eq; t->kf = kf; t->vf = vf;
    return t;
}
GHashTable* g_hash_table_new(guint (*h)(const void*), gboolean (*eq)(const void*, const void*)) { return g_hash_table_new_full(h, eq, nullptr, nullptr); }
void* g_hash_table_lookup(GHashTable* t, const void* k)
{
    size_t i = t->find(k);
    return i == (size_t)-1 ? nullptr : t->e[i].second;
}
gboolean g_hash_table_contains(GHashTable* t, const void* k) { return t->find(k) != (size_t)-1; }
gboolean g_hash_table_lookup_extended(GHashTable* t, const void* k, void** ok, void** v)
{
    size_t i = t->find(k);
    if (i == (size_t)-1) return 0;
    if (ok) *ok = t->e[i].first;
    if (v) *v = t->e[i].second;
    return 1;
}
gboolean g_hash_table_insert(GHashTable* t, void* k, void* v)
{
    size_t i = t->find(k);
    if (i != (size_t)-1) {
        if (t->kf) t->kf(k); // the table keeps its key
        void* old = t->e[i].second;
        t->e[i].second = v;
        if (t->vf && old) t->vf(old);
        return 0;
    }
    t->idx.emplace(t->hash(k), t->e.size());
    t->e.push_back({ k, v });
    return 1;
}
gboolean g_hash_table_remove(GHashTable* t, const void* k)
{
    size_t i = t->find(k);
    if (i == (size_t)-1) return 0;
    auto x = t->e[i];
    t->e.erase(t->e.begin() + i);
    t->idx.clear();
    for (size_t j = 0; j < t->e.size(); j++) t->idx.emplace(t->hash(t->e[j].first), j);
    if (t->kf && x.first) t->kf(x.first);
    if (t->vf && x.second) t->vf(x.second);
    return 1;
}
static void rehash(GHashTable* t)
{
    t->idx.clear();
    for (size_t j = 0; j < t->e.size(); j++) t->idx.emplace(t->hash(t->e[j].first), j);
}
gboolean g_hash_table_replace(GHashTable* t, void* k, void* v)
{
    size_t i = t->find(k);
    if (i == (size_t)-1) return g_hash_table_insert(t, k, v);
    auto old = t->e[i];
    t->e[i] = { k, v };
    if (t->kf && old.first) t->kf(old.first);
    if (t->vf && old.second) t->vf(old.second);
    return 0;
}
gboolean g_hash_table_add(GHashTable* t, void* k) { return g_hash_table_replace(t, k, k); }
gboolean g_hash_table_steal(GHashTable* t, const void* k)
{
    size_t i = t->find(k);
    if (i == (size_t)-1) return 0;
    t->e.erase(t->e.begin() + i);
    rehash(t);
    return 1;
}
gboolean g_hash_table_steal_extended(GHashTable* t, const void* k, void** ok, void** ov)
{
    size_t i = t->find(k);
    if (i == (size_t)-1) { if (ok) *ok = nullptr; if (ov) *ov = nullptr; return 0; }
    if (ok) *ok = t->e[i].first;
    if (ov) *ov = t->e[i].second;
    t->e.erase(t->e.begin() + i);
    rehash(t);
    return 1;
}
void g_hash_table_foreach(GHashTable* t, void (*f)(void*, void*, void*), void* u)
{
    auto e = t->e;
    for (auto& x : e) f(x.first, x.second, u);
}
void g_hash_table_remove_all(GHashTable* t)
{
    auto e = t->e;
    t->e.clear();
    t->idx.clear();
    for (auto& x : e) {
        if (t->kf && x.first) t->kf(x.first);
        if (t->vf && x.second) t->vf(x.second);
    }
}
void g_hash_table_destroy(GHashTable* t);
struct HIter { void* p[2]; void* t; int i; int pad; void* q; };
void g_hash_table_iter_init(HIter* it, GHashTable* t) { it->t = t; it->i = 0; }
gboolean g_hash_table_iter_next(HIter* it, void** k, void** v)
{
    GHashTable* t = (GHashTable*)it->t;
    if (it->i >= (int)t->e.size()) return 0;
    if (k) *k = t->e[it->i].first;
    if (v) *v = t->e[it->i].second;
    it->i++;
    return 1;
}
guint g_hash_table_size(GHashTable* t) { return (guint)t->e.size(); }
GHashTable* g_hash_table_ref(GHashTable* t) { t->ref++; return t; }
void g_hash_table_unref(GHashTable* t)
{
    if (--t->ref) return;
    for (auto& x : t->e) {
        if (t->kf && x.first) t->kf(x.first);
        if (t->vf && x.second) t->vf(x.second);
    }
    delete t;
}
void g_hash_table_destroy(GHashTable* t)
{
    g_hash_table_remove_all(t);
    g_hash_table_unref(t);
}
GList* g_list_prepend(GList* l, void* d)
{
    GList* x = (GList*)g_malloc(sizeof *x);
    x->data = d; x->next = l; x->prev = nullptr;
    if (l) l->prev = x;
    return x;
}
GList* g_list_append(GList* l, void* d)
{
    GList* x = g_list_prepend(nullptr, d);
    if (!l) return x;
    GList* e = l;
    while (e->next) e = e->next;
    e->next = x;
    x->prev = e;
    return l;
}
guint g_list_length(GList* l)
{
    guint n = 0;
    for (; l; l = l->next) n++;
    return n;
}
GList* g_hash_table_get_keys(GHashTable* t)
{
    GList* l = nullptr;
    for (auto& x : t->e) l = g_list_prepend(l, x.first);
    return l;
}
GList* g_hash_table_get_values(GHashTable* t)
{
    GList* l = nullptr;
    for (auto& x : t->e) l = g_list_prepend(l, x.second);
    return l;
}
GList* g_list_sort(GList* l, int (*cmp)(const void*, const void*))
{
    std::vector<void*> v;
    for (GList* x = l; x; x = x->next) v.push_back(x->data);
    std::stable_sort(v.begin(), v.end(), [&](void* a, void* b) { return cmp(a, b) < 0; });
    size_t i = 0;
    for (GList* x = l; x; x = x->next) x->data = v[i++];
    return l;
}
void g_list_free(GList* l)
{
    while (l) {
        GList* n = l->next;
        g_free(l);
        l = n;
    }
}
void g_list_free_full(GList* l, void (*f)(void*))
{
    for (GList* x = l; x; x = x->next) f(x->data);
    g_list_free(l);
}

// ---- queues, strings
GQueue* g_queue_new(void)
{
    GQueue* q = (GQueue*)g_malloc(sizeof *q);
    q->q = new std::deque<void*>();
    return q;
}
void g_queue_free(GQueue* q) { delete q->q; g_free(q); }
void g_queue_foreach(GQueue* q, void (*f)(void*, void*), void* u) { for (void* d : *q->q) f(d, u); }
guint g_queue_get_length(GQueue* q) { return (guint)q->q->size(); }
gboolean g_queue_is_empty(GQueue* q) { return q->q->empty(); }
void* g_queue_peek_head(GQueue* q) { return q->q->empty() ? nullptr : q->q->front(); }
void* g_queue_peek_tail(GQueue* q) { return q->q->empty() ? nullptr : q->q->back(); }
void* g_queue_peek_nth(GQueue* q, guint n) { return n < q->q->size() ? (*q->q)[n] : nullptr; }
void* g_queue_pop_head(GQueue* q)
{
    if (q->q->empty()) return nullptr;
    void* d = q->q->front();
    q->q->pop_front();
    return d;
}
void* g_queue_pop_tail(GQueue* q)
{
    if (q->q->empty()) return nullptr;
    void* d = q->q->back();
    q->q->pop_back();
    return d;
}
void g_queue_push_head(GQueue* q, void* d) { q->q->push_front(d); }
void g_queue_push_tail(GQueue* q, void* d) { q->q->push_back(d); }

GString* g_string_append_len(GString* s, const char* t, ssize_t n)
{
    size_t l = n < 0 ? strlen(t) : (size_t)n;
    if (s->len + l + 1 > s->alloc) {
        s->alloc = (s->len + l + 1) * 2;
        s->str = (char*)g_realloc(s->str, s->alloc);
    }
    memcpy(s->str + s->len, t, l);
    s->len += l;
    s->str[s->len] = 0;
    return s;
}
GString* g_string_append(GString* s, const char* t) { return g_string_append_len(s, t, -1); }
GString* g_string_new(const char* t)
{
    GString* s = (GString*)g_malloc0(sizeof *s);
    return g_string_append(s, t ? t : "");
}
void g_string_append_printf(GString* s, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    char* t = g_strdup_vprintf(f, ap);
    va_end(ap);
    g_string_append(s, t);
    g_free(t);
}
char* g_string_free_and_steal(GString* s)
{
    char* r = s->str;
    g_free(s);
    return r;
}
char* g_string_free(GString* s, gboolean seg)
{
    char* r = g_string_free_and_steal(s);
    if (!seg) return r;
    g_free(r);
    return nullptr;
}

// ---- quarks, errors
GQuark g_quark_from_string(const char* s)
{
    if (!s) return 0;
    auto r = quarkIds.insert({ { me()->id, s }, (int)quarkNames.size() + 1 });
    if (r.second) quarkNames.push_back(s);
    return (GQuark)r.first->second;
}
GQuark g_quark_from_static_string(const char* s) { return g_quark_from_string(s); }
const char* g_quark_to_string(GQuark q) { return q >= 1 && q <= quarkNames.size() ? quarkNames[q - 1].c_str() : nullptr; }
GError* g_error_new_valist(GQuark d, int c, const char* f, va_list ap)
{
    GError* e = (GError*)g_malloc(sizeof *e);
    e->domain = d; e->code = c;
    e->message = g_strdup_vprintf(f, ap);
    return e;
}
GError* g_error_copy(const GError* o)
{
    GError* e = (GError*)g_malloc(sizeof *e);
    *e = *o;
    e->message = g_strdup(o->message);
    return e;
}
void g_error_free(GError* e)
{
    g_free(e->message);
    g_free(e);
}
void g_clear_error(GError** e)
{
    if (e && *e) { g_error_free(*e); *e = nullptr; }
}
gboolean g_error_matches(const GError* e, GQuark d, int c) { return e && e->domain == d && e->code == c; }
static void setError(GError** out, const char* dom, int code, const char* m)
{
    if (!out) return;
    GError* e = (GError*)g_malloc(sizeof *e);
    e->domain = g_quark_from_string(dom);
    e->code = code;
    e->message = g_strdup(m);
    *out = e;
}

// ---- time
int64_t g_get_monotonic_time(void) { return (int64_t)now + 5000000; }
int64_t g_get_real_time(void) { return (int64_t)now + 1600000000000000ll; }
void g_usleep(unsigned long us) { block(nullptr, "g_usleep", now + us); }

// ---- mutexes and conditions
void g_mutex_init(GMutex* m) { m->i[0] = m->i[1] = 0; }
void g_mutex_clear(GMutex* m)
{
    if (m->i[0]) violation("lock", "mutex released while it is locked");
}
gboolean g_mutex_trylock(GMutex* m)
{
    yieldPoint("mutex");
    if (m->i[0]) return 0;
    m->i[0] = (guint)cur->id + 1;
    return 1;
}
static void lockNow(GMutex* m)
{
    if (m->i[0] == (guint)cur->id + 1) violation("deadlock", "a thread locks a mutex it holds already");
    if (m->i[0]) block([m] { return m->i[0] == 0; }, "mutex");
    m->i[0] = (guint)cur->id + 1;
}
void g_mutex_lock(GMutex* m)
{
    yieldPoint("mutex");
    lockNow(m);
}
void g_mutex_unlock(GMutex* m)
{
    if (m->i[0] != (guint)cur->id + 1) violation("lock", "a thread unlocks a mutex it does not hold");
    m->i[0] = 0;
    yieldPoint("unlock");
}
struct CWait { bool woken = false; };
static std::map<GCond*, std::vector<CWait*>> condWaiters;
void g_cond_init(GCond* c) { c->p = nullptr; c->i[0] = c->i[1] = 0; }
void g_cond_clear(GCond* c)
{
    auto i = condWaiters.find(c);
    if (i != condWaiters.end() && !i->second.empty()) violation("lock", "condition released while a thread waits for it");
}
void g_cond_broadcast(GCond* c)
{
    for (CWait* w : condWaiters[c]) w->woken = true;
    condWaiters[c].clear();
}
void g_cond_signal(GCond* c) // one of the waiters
{
    auto& v = condWaiters[c];
    if (v.empty()) return;
    uint32_t k = v.size() > 1 ? choose(DK_COND, (uint32_t)v.size()) : 0;
    v[k]->woken = true;
    v.erase(v.begin() + k);
}
static bool condWait(GCond* c, GMutex* m, uint64_t dl)
{
    if (m->i[0] != (guint)cur->id + 1) violation("lock", "waiting for a condition without holding the mutex");
    bool sp = fault(DK_COND, condRate), to = false;
    CWait w;
    condWaiters[c].push_back(&w);
    m->i[0] = 0;
    if (sp) { stat(ST_SPURIOUS); yieldPoint("cond (spurious)"); }
    else {
        block([&w] { return w.woken; }, dl == UINT64_MAX ? "cond" : "cond (timed)", dl);
        to = cur->timedout;
    }
    auto& v = condWaiters[c];
    for (size_t i = 0; i < v.size(); i++) if (v[i] == &w) { v.erase(v.begin() + i); break; }
    if (m->i[0]) block([m] { return m->i[0] == 0; }, "mutex");
    m->i[0] = (guint)cur->id + 1;
    return !to;
}
void g_cond_wait(GCond* c, GMutex* m) { condWait(c, m, UINT64_MAX); }
gboolean g_cond_wait_until(GCond* c, GMutex* m, int64_t end)
{
    int64_t e = end - 5000000;
    if (e < (int64_t)now) return 0;
    return condWait(c, m, (uint64_t)e);
}

// ---- threads: workers of a process are reused
struct Worker {
    std::function<void()> job;
    bool busy = false;
    bool waits = false;
    std::string name;
};
struct GThread { bool done = false; void* result = nullptr; std::string name; };
static std::vector<std::pair<Node*, Worker*>> workers;

static void startJob(const std::string& name, std::function<void()> job)
{
    Node* n = me();
    stat(ST_THREADS);
    for (auto& w : workers)
        if (w.first == n && !w.second->busy) {
            w.second->busy = true;
            w.second->job = std::move(job);
            w.second->name = name;
            return;
        }
    Worker* w = new Worker();
    workers.push_back({ n, w });
    w->busy = true;
    w->job = std::move(job);
    w->name = name;
    spawn(n, "n" + std::to_string(n->id) + " " + name, [w] {
        while (true) {
            block([w] { return w->busy; }, "idle thread");
            auto j = std::move(w->job);
            w->job = nullptr;
            j();
            w->busy = false;
        }
    }, true);
}
GThread* g_thread_new(const char* name, void* (*fn)(void*), void* data)
{
    GThread* t = new GThread();
    t->name = name ? name : "thread";
    startJob(t->name, [=] {
        t->result = fn(data);
        t->done = true;
    });
    yieldPoint("thread");
    return t;
}
void* g_thread_join(GThread* t)
{
    block([t] { return t->done; }, "join");
    return t->result;
}
void g_thread_unref(GThread*) {}

struct GThreadPool {
    void (*fn)(void*, void*);
    void* user;
    int maxThreads, running = 0;
    std::deque<void*> q;
    bool freed = false;
};
GThreadPool* g_thread_pool_new(void (*fn)(void*, void*), void* user, int max, gboolean, GError**)
{
    GThreadPool* p = new GThreadPool();
    p->fn = fn; p->user = user; p->maxThreads = max;
    return p;
}
gboolean g_thread_pool_push(GThreadPool* p, void* data, GError**)
{
    if (p->freed) violation("lock", "work given to a thread pool that is gone");
    p->q.push_back(data);
    if (p->maxThreads < 0 || p->running < p->maxThreads) {
        p->running++;
        startJob("pool", [p] {
            yieldPoint("pool");
            while (!p->q.empty()) {
                void* d = p->q.front();
                p->q.pop_front();
                p->fn(d, p->user);
                yieldPoint("pool");
            }
            p->running--;
        });
    }
    yieldPoint("push");
    return 1;
}
void g_thread_pool_free(GThreadPool* p, gboolean immediate, gboolean wait)
{
    if (p->freed) violation("lock", "thread pool released twice");
    p->freed = true;
    if (immediate) p->q.clear();
    if (wait) block([p] { return p->running == 0; }, "pool free");
}

struct GAsyncQueue { std::deque<void*> q; void (*fr)(void*); int ref = 1; };
GAsyncQueue* g_async_queue_new_full(void (*fr)(void*))
{
    GAsyncQueue* q = new GAsyncQueue();
    q->fr = fr;
    return q;
}
GAsyncQueue* g_async_queue_new(void) { return g_async_queue_new_full(nullptr); }
void g_async_queue_push(GAsyncQueue* q, void* d)
{
    yieldPoint("queue");
    q->q.push_back(d);
}
void* g_async_queue_try_pop(GAsyncQueue* q)
{
    yieldPoint("queue");
    if (q->q.empty()) return nullptr;
    void* d = q->q.front();
    q->q.pop_front();
    return d;
}
int g_async_queue_length(GAsyncQueue* q) { return (int)q->q.size(); }
GAsyncQueue* g_async_queue_ref(GAsyncQueue* q) { q->ref++; return q; }
void* g_async_queue_timeout_pop(GAsyncQueue* q, uint64_t us)
{
    yieldPoint("queue");
    if (q->q.empty()) block([q] { return !q->q.empty(); }, "queue (timed)", now + us);
    if (q->q.empty()) return nullptr;
    void* d = q->q.front();
    q->q.pop_front();
    return d;
}
void* g_async_queue_pop(GAsyncQueue* q)
{
    yieldPoint("queue");
    while (q->q.empty()) block([q] { return !q->q.empty(); }, "queue");
    void* d = q->q.front();
    q->q.pop_front();
    return d;
}
void g_async_queue_unref(GAsyncQueue* q)
{
    if (--q->ref) return;
    for (void* d : q->q) if (q->fr) q->fr(d);
    delete q;
}

// ---- configuration files: one simulated file, whose settings may change while running
struct GFile { std::string path; int ref = 1; };
GFile* g_file_new_for_commandline_arg(const char* s)
{
    GFile* f = new GFile();
    f->path = s;
    return f;
}
void g_object_unref(void* f) { delete (GFile*)f; }

static std::string tcpConfig(uint64_t variant)
{
    const Config& c = spec->cfg;
    Rng r(mix(c.get("tcpcfg") * 1000003 + variant, 77));
    std::string s = "# simulated\n[general]\n";
    auto b = [&](const char* k) { if (r.chance(400)) s += std::string(k) + (r.chance(500) ? " = true\n" : "=false\n"); };
    auto z = [&](const char* k, std::vector<int> v) { if (r.chance(500)) s += std::string(k) + " = " + std::to_string(v[r.below((uint32_t)v.size())]) + "\n"; };
    auto t = [&](const char* k, std::vector<const char*> v) { if (r.chance(400)) s += std::string(k) + " = " + v[r.below((uint32_t)v.size())] + "\n"; };
    b("backend_async_send");
    b("backend_native_reduce");
    b("backend_peer_reduce");
    b("minimpi_async_split");
    z("client_connections", { 0, 1, 2, 3, 16 });
    z("server_connections", { 1, 2, 3, 5, 16 });
    z("client_threads", { 1, 1, 2, 3, 8 });
    z("server_threads", { 1, 1, 2, 3, 8 });
    z("socket_backlog", { 1, 2, 5, 64 });
    z("inbox_size", { 0, 1, 16, 100, 1000, 16777216, -1 });
    z("outbox_size", { 0, 1, 16, 100, 1000, 16777216, -1 });
    t("receive_timeout", { "0.0", "0.0001", "0.01", "0.5" });
    t("receive_delay", { "0.05", "0.1", "0.5" }); // each expiry queues another request
    t("send_delay", { "0.001", "0.01", "0.1", "0.5" });
    // patience far beyond any delay injected here
    s += "receive_attempts = 100000\nsend_attempts = 100000\nsocket_timeout = 1000\n";
    if (c.get("tcpaddr")) {
        s += "[addresses]\n";
        for (int i = 0; i < (int)c.get("n"); i++) {
            int h = (int)c.get(("host" + std::to_string(i)).c_str());
            s += std::to_string(i) + " = " + (c.get("tcpaddr") == 1 ? "host" + std::to_string(h) + " " + std::to_string(4444 + i) : "task-" + std::to_string(i)) + "\n";
        }
    }
    return s;
}
gboolean g_file_load_contents(GFile* f, void*, char** data, size_t* size, char**, GError** err)
{
    yieldPoint("config");
    // at most six failures in a row: initialisation gives up after ten
    static int inRow;
    bool fail = f->path != "/etc/laik-tcp.conf" || (inRow < 6 && fault(DK_MISC, (int)spec->cfg.get("cfgfail")));
    inRow = fail ? inRow + 1 : 0;
    if (fail) {
        stat(ST_DISKERR);
        setError(err, "g-io-error-quark", 1, "Error opening file: No such file or directory");
        return 0;
    }
    uint64_t v = spec->cfg.get("cfgchange") ? now / 3000000 : 0;
    std::string s = tcpConfig(v);
    *size = s.size();
    *data = g_strdup(s.c_str());
    return 1;
}
gboolean g_file_set_contents(const char*, const char*, ssize_t, GError**) { return 1; }

struct GKeyFile { std::map<std::string, std::vector<std::pair<std::string, std::string>>> g; };
GKeyFile* g_key_file_new(void) { return new GKeyFile(); }
void g_key_file_unref(GKeyFile* k) { delete k; }
void g_key_file_free(GKeyFile* k) { delete k; }
gboolean g_key_file_load_from_data(GKeyFile* k, const char* d, size_t n, int, GError** err)
{
    std::string all(d, n), grp;
    size_t p = 0;
    while (p < all.size()) {
        size_t e = all.find('\n', p);
        if (e == std::string::npos) e = all.size();
        std::string l = all.substr(p, e - p);
        p = e + 1;
        while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
        size_t b = 0;
        while (b < l.size() && isspace((unsigned char)l[b])) b++;
        l = l.substr(b);
        if (l.empty() || l[0] == '#') continue;
        if (l[0] == '[') { grp = l.substr(1, l.find(']') - 1); k->g[grp]; continue; }
        size_t q = l.find('=');
        if (q == std::string::npos || grp.empty()) { setError(err, "g-key-file-error-quark", 1, "not a key-value pair, group, or comment"); return 0; }
        std::string key = l.substr(0, q), val = l.substr(q + 1);
        while (!key.empty() && isspace((unsigned char)key.back())) key.pop_back();
        size_t v = 0;
        while (v < val.size() && isspace((unsigned char)val[v])) v++;
        k->g[grp].push_back({ key, val.substr(v) });
    }
    return 1;
}
static const std::string* kf(GKeyFile* k, const char* g, const char* key)
{
    auto i = k->g.find(g);
    if (i == k->g.end()) return nullptr;
    for (auto& x : i->second) if (x.first == key) return &x.second;
    return nullptr;
}
gboolean g_key_file_has_key(GKeyFile* k, const char* g, const char* key, GError**) { return kf(k, g, key) != nullptr; }
char** g_key_file_get_keys(GKeyFile* k, const char* g, size_t* n, GError** err)
{
    auto i = k->g.find(g);
    if (i == k->g.end()) { setError(err, "g-key-file-error-quark", 4, "no such group"); return nullptr; }
    char** r = (char**)g_malloc0((i->second.size() + 1) * sizeof(char*));
    for (size_t j = 0; j < i->second.size(); j++) r[j] = g_strdup(i->second[j].first.c_str());
    if (n) *n = i->second.size();
    return r;
}
char* g_key_file_get_string(GKeyFile* k, const char* g, const char* key, GError** err)
{
    const std::string* v = kf(k, g, key);
    if (!v) { setError(err, "g-key-file-error-quark", 3, "no such key"); return nullptr; }
    return g_strdup(v->c_str());
}
gboolean g_key_file_get_boolean(GKeyFile* k, const char* g, const char* key, GError** err)
{
    const std::string* v = kf(k, g, key);
    if (v && (*v == "true" || *v == "1")) return 1;
    if (v && (*v == "false" || *v == "0")) return 0;
    setError(err, "g-key-file-error-quark", 5, "invalid value");
    return 0;
}
int64_t g_key_file_get_int64(GKeyFile* k, const char* g, const char* key, GError** err)
{
    const std::string* v = kf(k, g, key);
    char* e = nullptr;
    if (v) {
        int64_t r = strtoll(v->c_str(), &e, 10);
        if (*v != "" && !*e) return r;
    }
    setError(err, "g-key-file-error-quark", 5, "invalid value");
    return 0;
}
double g_key_file_get_double(GKeyFile* k, const char* g, const char* key, GError** err)
{
    const std::string* v = kf(k, g, key);
    char* e = nullptr;
    if (v) {
        double r = strtod(v->c_str(), &e);
        if (*v != "" && !*e) return r;
    }
    setError(err, "g-key-file-error-quark", 5, "invalid value");
    return 0;
}

} // extern C

// threads of a process which still run (an update of the configuration may)
std::string glibRunning(Node* n)
{
    for (auto& w : workers)
        if (w.first == n && w.second->busy && w.second->name != "Update Thread") return w.second->name;
    return "";
}
void glibStartRun()
{
    condRate = (int)spec->cfg.get("spurious", 0);
}
