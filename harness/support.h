// Definitions of library functions that have no IR (they live in libstdc++.so or libc),
// for the symbolic build only: the native build uses the real ones.
#pragma once
#include <pthread.h>
#include <cmath>
#include <cctype>
#include <cstdlib>
extern "C" {
#define SUP __attribute__((weak, used))
// red-black trees: a plain search tree has the same observable behaviour
struct symx_rb { int color; symx_rb *parent, *left, *right; };
static inline void symx_rb_replace(symx_rb *u, symx_rb *v, symx_rb &h) {
    if (h.parent == u) h.parent = v;
    else if (u->parent->left == u) u->parent->left = v;
    else u->parent->right = v;
    if (v) v->parent = u->parent;
}
SUP void symx_rb_insert(bool left, symx_rb *x, symx_rb *p, symx_rb &h) asm("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
void symx_rb_insert(bool left, symx_rb *x, symx_rb *p, symx_rb &h) {
    x->parent = p; x->left = x->right = nullptr; x->color = 1;
    if (left) {
        p->left = x;
        if (p == &h) { h.parent = x; h.right = x; }
        else if (p == h.left) h.left = x;
    } else {
        p->right = x;
        if (p == h.right) h.right = x;
    }
}
SUP symx_rb *symx_rb_erase(symx_rb *z, symx_rb &h) asm("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
symx_rb *symx_rb_erase(symx_rb *z, symx_rb &h) {
    if (!z->left) symx_rb_replace(z, z->right, h);
    else if (!z->right) symx_rb_replace(z, z->left, h);
    else {
        symx_rb *y = z->right;
        while (y->left) y = y->left;
        if (y->parent != z) { symx_rb_replace(y, y->right, h); y->right = z->right; y->right->parent = y; }
        symx_rb_replace(z, y, h);
        y->left = z->left;
        y->left->parent = y;
    }
    if (!h.parent) h.left = h.right = &h;
    else {
        symx_rb *n = h.parent;
        while (n->left) n = n->left;
        h.left = n;
        n = h.parent;
        while (n->right) n = n->right;
        h.right = n;
    }
    return z;
}
static inline symx_rb *symx_rb_next(symx_rb *x) {
    if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
    symx_rb *y = x->parent;
    while (x == y->right) { x = y; y = y->parent; }
    return x->right != y ? y : x;
}
static inline symx_rb *symx_rb_prev(symx_rb *x) {
    if (x->color == 0 && x->parent && x->parent->parent == x) return x->right; // the header (nodes are never red here)
    if (x->left) { x = x->left; while (x->right) x = x->right; return x; }
    symx_rb *y = x->parent;
    while (x == y->left) { x = y; y = y->parent; }
    return y;
}
SUP symx_rb *symx_rb_next1(symx_rb *x) asm("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base");
symx_rb *symx_rb_next1(symx_rb *x) { return symx_rb_next(x); }
SUP symx_rb *symx_rb_next2(symx_rb *x) asm("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base");
symx_rb *symx_rb_next2(symx_rb *x) { return symx_rb_next(x); }
SUP symx_rb *symx_rb_prev1(symx_rb *x) asm("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base");
symx_rb *symx_rb_prev1(symx_rb *x) { return symx_rb_prev(x); }
SUP symx_rb *symx_rb_prev2(symx_rb *x) asm("_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base");
symx_rb *symx_rb_prev2(symx_rb *x) { return symx_rb_prev(x); }
// lists
struct symx_ln { symx_ln *next, *prev; };
SUP void symx_hook(symx_ln *t, symx_ln *p) asm("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void symx_hook(symx_ln *t, symx_ln *p) { t->next = p; t->prev = p->prev; p->prev->next = t; p->prev = t; }
SUP void symx_unhook(symx_ln *t) asm("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void symx_unhook(symx_ln *t) { t->prev->next = t->next; t->next->prev = t->prev; }
SUP void symx_transfer(symx_ln *t, symx_ln *f, symx_ln *l) asm("_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_");
void symx_transfer(symx_ln *t, symx_ln *f, symx_ln *l) {
    if (t == l) return;
    l->prev->next = t; f->prev->next = l; t->prev->next = f;
    symx_ln *x = t->prev; t->prev = l->prev; l->prev = f->prev; f->prev = x;
}
SUP void symx_lrev(symx_ln *t) asm("_ZNSt8__detail15_List_node_base10_M_reverseEv");
void symx_lrev(symx_ln *t) { symx_ln *x = t; do { symx_ln *n = x->next; x->next = x->prev; x->prev = n; x = n; } while (x != t); }
SUP void symx_lswap(symx_ln *x, symx_ln *y) asm("_ZNSt8__detail15_List_node_base4swapERS0_S1_");
void symx_lswap(symx_ln *x, symx_ln *y) {
    symx_ln a = *x, b = *y;
    bool ea = a.next == x, eb = b.next == y;
    if (eb) x->next = x->prev = x; else { *x = b; x->next->prev = x->prev->next = x; }
    if (ea) y->next = y->prev = y; else { *y = a; y->next->prev = y->prev->next = y; }
}
// hash tables
struct symx_policy { float load; unsigned long next; };
struct symx_need { bool first; unsigned long second; };
SUP unsigned long symx_bkt(symx_policy *p, unsigned long n) asm("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
unsigned long symx_bkt(symx_policy *p, unsigned long n) { unsigned long b = 2; while (b < n) b = b * 2 + 1; p->next = b; return b; }
SUP symx_need symx_rehash(symx_policy *p, unsigned long nb, unsigned long ne, unsigned long ni) asm("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
symx_need symx_rehash(symx_policy *p, unsigned long nb, unsigned long ne, unsigned long ni) {
    if (ne + ni <= nb && nb > 1) return {false, 0};
    unsigned long want = ne + ni < 11 ? 13 : (ne + ni) * 2 + 1;
    p->next = want;
    return {true, want};
}
SUP unsigned long symx_hash(const void *q, unsigned long n, unsigned long seed) asm("_ZSt11_Hash_bytesPKvmm");
unsigned long symx_hash(const void *q, unsigned long n, unsigned long seed) {
    const unsigned char *p = (const unsigned char *)q;
    unsigned long h = seed;
    for (unsigned long i = 0; i < n; i++) h = h * 31 + p[i];
    return h;
}
// characters, numbers
SUP int isblank(int c) { return c == ' ' || c == '\t'; }
SUP int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
SUP int isprint(int c) { return c >= 32 && c < 127; }
SUP int isgraph(int c) { return c > 32 && c < 127; }
SUP int ispunct(int c) { return c > 32 && c < 127 && !((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')); }
static unsigned long symx_strto(const char *p, char **end, int base, bool sgn) {
    const char *s = p;
    while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
    bool neg = *s == '-';
    if (*s == '-' || *s == '+') s++;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] | 32) == 'x') { s += 2; base = 16; }
    else if (base == 0) base = *s == '0' ? 8 : 10;
    unsigned long v = 0;
    bool any = false;
    for (;; s++) {
        int d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'z' ? (*s | 32) - 'a' + 10 : 99;
        if (d >= base) break;
        if (v > (~0ul >> (sgn ? 1 : 0)) / 40) __builtin_trap(); // near overflow: not modelled
        v = v * (unsigned)base + (unsigned)d;
        any = true;
    }
    if (end) *end = (char *)(any ? s : p);
    return neg ? 0 - v : v;
}
SUP long symx_strtol(const char *p, char **e, int b) asm("__isoc23_strtol");
long symx_strtol(const char *p, char **e, int b) { return (long)symx_strto(p, e, b, true); }
SUP long symx_strtoll(const char *p, char **e, int b) asm("__isoc23_strtoll");
long symx_strtoll(const char *p, char **e, int b) { return (long)symx_strto(p, e, b, true); }
SUP unsigned long symx_strtoul(const char *p, char **e, int b) asm("__isoc23_strtoul");
unsigned long symx_strtoul(const char *p, char **e, int b) { return symx_strto(p, e, b, false); }
SUP unsigned long symx_strtoull(const char *p, char **e, int b) asm("__isoc23_strtoull");
unsigned long symx_strtoull(const char *p, char **e, int b) { return symx_strto(p, e, b, false); }
SUP double modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; double f = __builtin_isinf(x) ? 0 : x - t; return f == 0 ? __builtin_copysign(0.0, x) : f; }
SUP float modff(float x, float *ip) { float t = __builtin_truncf(x); *ip = t; float f = __builtin_isinf(x) ? 0 : x - t; return f == 0 ? __builtin_copysignf(0.0f, x) : f; }
SUP long lround(double x) { return (long)__builtin_round(x); }
SUP long lroundf(float x) { return (long)__builtin_roundf(x); }
SUP long long llround(double x) { return (long long)__builtin_round(x); }
SUP long long llroundf(float x) { return (long long)__builtin_roundf(x); }
SUP double symx_ldexp(double x, int e) { for (; e > 0; e--) x *= 2; for (; e < 0; e++) x /= 2; return x; }
SUP double ldexp(double x, int e) { return symx_ldexp(x, e); }
SUP double scalbn(double x, int e) { return symx_ldexp(x, e); }
// threads: there is one
SUP int pthread_mutex_lock(pthread_mutex_t *) noexcept { return 0; }
SUP int pthread_mutex_trylock(pthread_mutex_t *) noexcept { return 0; }
SUP int pthread_mutex_unlock(pthread_mutex_t *) noexcept { return 0; }
// dynamic_cast over single and multiple public inheritance
struct symx_ti { void *vptr; const char *name; };
struct symx_si { symx_ti t; const symx_ti *base; };
struct symx_vmi { symx_ti t; unsigned flags, n; struct { const symx_ti *base; long off; } b[1]; };
extern void *symx_vsi[] asm("_ZTVN10__cxxabiv120__si_class_type_infoE");
extern void *symx_vvmi[] asm("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
static char *symx_up(char *obj, const symx_ti *t, const symx_ti *want) {
    if (t == want) return obj;
    if (t->vptr == symx_vsi + 2) return symx_up(obj, ((const symx_si *)t)->base, want);
    if (t->vptr == symx_vvmi + 2) {
        const symx_vmi *v = (const symx_vmi *)t;
        for (unsigned i = 0; i < v->n; i++) {
            long off = v->b[i].off >> 8;
            if (v->b[i].off & 1) off = *(long *)(*(char **)obj + off);
            if (char *r = symx_up(obj + off, v->b[i].base, want)) return r;
        }
    }
    return nullptr;
}
SUP void *symx_dyn(const void *p, const symx_ti *, const symx_ti *to, long) asm("__dynamic_cast");
void *symx_dyn(const void *p, const symx_ti *, const symx_ti *to, long) {
    char **vt = *(char ***)p;
    return symx_up((char *)p + ((long *)vt)[-2], (const symx_ti *)vt[-1], to);
}
#undef SUP
}
