// Models of the non-inlined parts of libstdc++/libsupc++ for the symbolic executor (containers' helpers, exceptions).  Written against the
// libstdc++ 13 ABI; the code under test calls them exactly as it calls the real ones.
#include "sym.h"
#include <string>
#include <map>
#include <list>
#include <set>
#include <unordered_map>
#include <stdexcept>
#include <system_error>
#include <future>
#include <mutex>
#include <new>
#include <typeinfo>
#include <exception>
#include <functional>
#include <cstring>
#include <cstdlib>
#include <cxxabi.h>
extern "C" { void __sym_unwind(void*) __attribute__((noreturn)); char __libc_single_threaded = 0; }
template class std::basic_string<char>;
// the same constructor as C++11 code names it (in C++17 it is a template)
extern "C" void __model_str1(std::string* t, const char* s, const void*) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC2EPKcRKS3_");
extern "C" void __model_str1(std::string* t, const char* s, const void*) { ::new ((void*)t) std::string(s, strlen(s)); }
extern "C" void __model_str2(std::string* t, const char* s, const void*) __asm__("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC1EPKcRKS3_");
extern "C" void __model_str2(std::string* t, const char* s, const void*) { ::new ((void*)t) std::string(s, strlen(s)); }
extern "C" int* __errno_location() { static int e; return &e; }

// ---- exceptions: a 128-byte header precedes the object; [0] typeinfo [8] destructor [16] handler count [24] refcount [32] adjusted pointer [40] next caught [48] rethrown
struct Hdr { std::type_info* ti; void (*dtor)(void*); long handlers; long refs; void* adj; void* next; long pad[10]; };
static_assert(sizeof(Hdr) == 128, "header");
static inline Hdr* hdr(void* o) { return (Hdr*)o - 1; }
static thread_local void* g_caught = nullptr;
extern "C" {
void* __cxa_allocate_exception(size_t n) noexcept { char* p = (char*)malloc(n + 128); memset(p, 0, 128); return p + 128; }
void __cxa_free_exception(void* o) noexcept { free((char*)o - 128); }
static void __model_drop(void* o) { Hdr* h = hdr(o); if (--h->refs <= 0) { if (h->dtor) h->dtor(o); free(h); } }
void __model_throw(void* o, std::type_info* ti, void (*d)(void*)) __asm__("__cxa_throw") __attribute__((noreturn));
void __model_throw(void* o, std::type_info* ti, void (*d)(void*)) { Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->handlers = 0; h->refs = 1; h->adj = o; __sym_unwind(o); }
void* __cxa_begin_catch(void* o) noexcept { Hdr* h = hdr(o); h->handlers++; h->pad[0] = 0; if (g_caught != o) { h->next = g_caught; g_caught = o; } return h->adj; }
void __cxa_end_catch() { void* o = g_caught; if (!o) return; Hdr* h = hdr(o); if (--h->handlers == 0) { g_caught = h->next; h->next = nullptr; if (!h->pad[0]) __model_drop(o); } }
void __cxa_rethrow() { void* o = g_caught; if (!o) std::terminate(); Hdr* h = hdr(o); h->pad[0] = 1; __sym_unwind(o); }
void* __cxa_get_exception_ptr(void* o) noexcept { return hdr(o)->adj; }
void* __model_ipe(void* o, std::type_info* ti, void (*d)(void*)) noexcept __asm__("__cxa_init_primary_exception");
void* __model_ipe(void* o, std::type_info* ti, void (*d)(void*)) noexcept { Hdr* h = hdr(o); h->ti = ti; h->dtor = d; h->refs = 0; h->adj = o; return h; }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __clang_call_terminate(void*) ;
}
namespace std { namespace __exception_ptr {
exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { __model_drop(_M_exception_object); _M_exception_object = nullptr; } }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const std::type_info* exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object ? hdr(_M_exception_object)->ti : nullptr; }
}
exception_ptr current_exception() noexcept { void* o = g_caught; if (!o) return exception_ptr(); return *(__exception_ptr::exception_ptr*)&o; }
void rethrow_exception(exception_ptr p) { void* o; memcpy(&o, &p, sizeof o); hdr(o)->refs++; hdr(o)->adj = o; __sym_unwind(o); }
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static const char* __model_dup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n + 8); *(long*)p = 1; memcpy(p + 8, s, n); return p + 8; }
__cow_string::__cow_string() { _M_p = __model_dup(""); }
__cow_string::__cow_string(const string& s) { _M_p = __model_dup(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t) { _M_p = __model_dup(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; ++*(long*)(_M_p - 8); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { ++*(long*)(o._M_p - 8); if (!--*(long*)(_M_p - 8)) free((void*)(_M_p - 8)); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { if (!--*(long*)(_M_p - 8)) free((void*)(_M_p - 8)); }
#define EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, 0) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
EXC(invalid_argument, logic_error) EXC(domain_error, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
struct __model_cat : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
struct __cow_string_dummy {};
static __model_cat __model_generic, __model_future;
namespace _V2 { const error_category& generic_category() noexcept { return __model_generic; } const error_category& system_category() noexcept { return __model_generic; } }
const error_category& future_category() noexcept { return __model_future; }
system_error::~system_error() noexcept {}
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return "std::future_error"; }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __throw_future_error(int e) { throw future_error(make_error_code((future_errc)e)); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
__future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default;
const nothrow_t nothrow{};
// ---- call_once plumbing
__thread void* __once_callable; __thread void (*__once_call)();
}
extern "C" void __once_proxy() { std::__once_call(); }
namespace std {
void __future_base::_State_baseV2::_Make_ready::_M_set() { }
// ---- list
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
// ---- hash policy: the same growth (bucket counts from a short prime list) as observable behaviour needs
static const size_t __model_primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091, 202409};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { if (!n) return 1; for (size_t p : __model_primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; } return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { double mb = (ne + ni > 11 ? ne + ni : (_M_next_resize ? ne + ni : 11)) / (double)_M_max_load_factor; if (mb >= nb) { size_t a = (size_t)mb + 1, b = nb * 2; return {true, _M_next_bkt(a > b ? a : b)}; } _M_next_resize = (size_t)(nb * (double)_M_max_load_factor); return {false, 0}; } return {false, 0}; }
}
static inline size_t __model_ld(const char* p) { size_t r; memcpy(&r, p, 8); return r; }
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {   // as libstdc++ (murmur, 64 bit)
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const char* buf = (const char*)ptr; const size_t la = len & ~(size_t)7; const char* end = buf + la; size_t h = seed ^ (len * mul);
  for (const char* p = buf; p != end; p += 8) { size_t d = __model_ld(p) * mul; d = (d ^ (d >> 47)) * mul; h ^= d; h *= mul; }
  if (len & 7) { size_t d = 0; int n = len & 7; for (int i = n - 1; i >= 0; i--) d = (d << 8) + (unsigned char)end[i]; h ^= d; h *= mul; }
  h = (h ^ (h >> 47)) * mul; h = h ^ (h >> 47); return h; }
// ---- red-black tree (CLRS, as libstdc++)
typedef _Rb_tree_node_base* NB;
static NB __model_inc(NB x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB __model_dec(NB x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return __model_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return __model_inc((NB)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return __model_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return __model_dec((NB)x); }
static void __model_rotl(NB x, NB& root) { NB y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void __model_rotr(NB x, NB& root) { NB y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  NB& root = header._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x; } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { NB xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { NB y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; __model_rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; __model_rotr(xpp, root); } }
    else { NB y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; __model_rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; __model_rotl(xpp, root); } } }
  root->_M_color = _S_black; }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  NB& root = header._M_parent; NB& leftmost = header._M_left; NB& rightmost = header._M_right; NB y = z; NB x = 0; NB xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { NB m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } } if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { NB m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } } }
  if (y->_M_color != _S_red) { while (x != root && (x == 0 || x->_M_color == _S_black)) if (x == xp->_M_left) { NB w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; __model_rotl(xp, root); w = xp->_M_right; } if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; __model_rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; __model_rotl(xp, root); break; } }
    else { NB w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; __model_rotr(xp, root); w = xp->_M_left; } if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; __model_rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; __model_rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y; }
}
