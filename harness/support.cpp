// Bodies for the out-of-line libstdc++ functions that containers need (linked into the bitcode only).
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <bits/hashtable_policy.h>
#include <cstddef>
extern "C" { char __libc_single_threaded = 1; int __verif_errno = 0; }
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) { auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { auto xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { auto y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { auto y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } } }
  root->_M_color = _S_black; }
// unbalanced erase: keeps the ordering and header invariants (colours are not used by lookups)
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept {
  _Rb_tree_node_base*& root = header._M_parent; _Rb_tree_node_base*& leftmost = header._M_left; _Rb_tree_node_base*& rightmost = header._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; y->_M_color = z->_M_color; }
  else { if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
  return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto n = _M_next; auto p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept { if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first; auto t = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept { if (a._M_next != &a) { if (b._M_next != &b) { auto n = a._M_next; a._M_next = b._M_next; b._M_next = n; auto p = a._M_prev; a._M_prev = b._M_prev; b._M_prev = p; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next->_M_prev = b._M_prev->_M_next = &b; } else { b._M_next = a._M_next; b._M_prev = a._M_prev; b._M_next->_M_prev = b._M_prev->_M_next = &b; a._M_next = a._M_prev = &a; } } else if (b._M_next != &b) { a._M_next = b._M_next; a._M_prev = b._M_prev; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next = b._M_prev = &b; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t ps[] = {13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229}; for (size_t p : ps) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = n; return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t need = ne + ni; if (need < nb * 2 && nb > 1) need = nb * 2; if (need <= nb) { _M_next_resize = nb; return {false, 0}; } return {true, _M_next_bkt(need)}; } return {false, 0}; }
}
}
// dynamic_cast over the Itanium ABI type information
namespace verif_rtti {
struct TI { void **vptr; const char *name; };
struct SI : TI { const TI *base; };
struct Base { const TI *base; long flags; };
struct VMI : TI { unsigned flags, count; Base bases[1]; };
}
extern "C" { extern void *verif_vt_si[] __asm__("_ZTVN10__cxxabiv120__si_class_type_infoE"); extern void *verif_vt_vmi[] __asm__("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); }
static char *verif_find(const verif_rtti::TI *t, char *p, const verif_rtti::TI *dst) {
  using namespace verif_rtti;
  if (t == dst) return p;
  if (t->vptr == verif_vt_si + 2) return verif_find(static_cast<const SI *>(t)->base, p, dst);
  if (t->vptr == verif_vt_vmi + 2) { auto v = static_cast<const VMI *>(t);
    for (unsigned i = 0; i < v->count; ++i) { long f = v->bases[i].flags; if (!(f & 2)) continue;
      long off = f >> 8; if (f & 1) off = *(long *)(*(char **)p + off);
      if (char *r = verif_find(v->bases[i].base, p + off, dst)) return r; } }
  return nullptr; }
extern "C" void *__dynamic_cast(const void *src, const verif_rtti::TI *, const verif_rtti::TI *dst, long) {
  long *vt = *(long **)src; return verif_find((const verif_rtti::TI *)vt[-1], (char *)src + vt[-2], dst); }

// text to numbers; paths
static bool verif_space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static unsigned long verif_number(const char *s, char **end, int base, bool *neg) {
  const char *p = s; *neg = false;
  while (verif_space(*p)) ++p;
  if (*p == '-') { *neg = true; ++p; } else if (*p == '+') ++p;
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false;
  for (;; ++p) {
    int d; if (*p >= '0' && *p <= '9') d = *p - '0'; else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10; else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10; else break;
    if (d >= base) break;
    v = v * (unsigned long)base + (unsigned long)d; any = true;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  return v;
}
extern "C" {
long strtol(const char *s, char **e, int b) noexcept { bool n; unsigned long v = verif_number(s, e, b, &n); return n ? -(long)v : (long)v; }
unsigned long strtoul(const char *s, char **e, int b) noexcept { bool n; unsigned long v = verif_number(s, e, b, &n); return n ? -v : v; }
long __isoc23_strtol(const char *s, char **e, int b) noexcept { bool n; unsigned long v = verif_number(s, e, b, &n); return n ? -(long)v : (long)v; }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) noexcept { bool n; unsigned long v = verif_number(s, e, b, &n); return n ? -v : v; }
double strtod(const char *s, char **e) noexcept {
  const char *p = s; bool neg = false, any = false; double den = 1; long m = 0;
  while (verif_space(*p)) ++p;
  if (*p == '-') { neg = true; ++p; } else if (*p == '+') ++p;
  for (; *p >= '0' && *p <= '9'; ++p) { m = m * 10 + (*p - '0'); any = true; }
  if (*p == '.') for (++p; *p >= '0' && *p <= '9'; ++p) { m = m * 10 + (*p - '0'); den *= 10; any = true; }
  double v = (double)m;
  if (any && (*p == 'e' || *p == 'E')) {
    const char *q = p + 1; bool en = false; int x = 0;
    if (*q == '-') { en = true; ++q; } else if (*q == '+') ++q;
    if (*q >= '0' && *q <= '9') { for (; *q >= '0' && *q <= '9'; ++q) x = x * 10 + (*q - '0'); for (p = q; x > 0; --x) if (en) den *= 10; else v *= 10; }
  }
  v = v / den;
  if (e) *e = const_cast<char *>(any ? p : s);
  return neg ? -v : v;
}
void *memchr(const void *s, int c, size_t n) noexcept { auto p = (const unsigned char *)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *dirname(char *p) noexcept {
  static char dot[] = ".", root[] = "/";
  if (!p || !*p) return dot;
  size_t n = 0; while (p[n]) ++n;
  while (n > 1 && p[n - 1] == '/') --n;
  while (n > 0 && p[n - 1] != '/') --n;
  if (!n) return dot;
  while (n > 0 && p[n - 1] == '/') --n;
  if (!n) return root;
  p[n] = 0; return p;
}
}
// any hash function will do
namespace std { size_t _Hash_bytes(const void *, size_t n, size_t) { return n; } }
