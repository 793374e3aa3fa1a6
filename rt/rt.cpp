// Bitcode-side definitions of the parts of libstdc++/libfmt that live in shared libraries, so that
// the repository's code can be executed from its IR.  Formatting returns an empty string.
#include <string>
extern "C" int vp_is_concrete_int(long);
#include <vector>
#include <unordered_map>
#include <map>
#include <stdexcept>
#include <functional>
#include <new>
#include <typeinfo>
#include <any>
#include <istream>
#include <ostream>
#include <sstream>
#include <fstream>
#include <thread>
#include <condition_variable>
#include <future>
#include <regex>
#include <list>
#include <system_error>
#include <fmt/format.h>
#include <experimental/filesystem>
extern "C" void vp_end();
template class std::basic_string<char>;
namespace std {
// exceptions
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
#define VP_STR(cls, base) \
    cls::cls(const char* s) : base(s) {} cls::cls(const string& s) : base(s) {} cls::~cls() noexcept {}
// __cow_string is opaque: only an empty message is kept
__cow_string::__cow_string() { _M_p = ""; } __cow_string::__cow_string(const string&) { _M_p = ""; } __cow_string::__cow_string(const char*, size_t) { _M_p = ""; } __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; } __cow_string::~__cow_string() {} __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, 0) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return "logic_error"; } logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {} logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return "runtime_error"; } runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {} runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
VP_STR(invalid_argument, logic_error) VP_STR(out_of_range, logic_error) VP_STR(length_error, logic_error) VP_STR(domain_error, logic_error)
VP_STR(range_error, runtime_error) VP_STR(overflow_error, runtime_error)
regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex"), _M_code(e) {} regex_error::~regex_error() noexcept {}
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_length_error(const char* s) { throw length_error(s); } void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_system_error(int) { throw runtime_error("system"); } void __throw_ios_failure(const char* s) { throw runtime_error(s); } void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }
// hashing
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* b = (const unsigned char*)p; size_t h = seed ^ 14695981039346656037ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h; }
namespace __detail {
static const size_t vp_primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : vp_primes) if (p >= n) { _M_next_resize = p; return p; } _M_next_resize = 200003; return 200003; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni > _M_next_resize || nb < 2) { size_t want = ne + ni + 1; if (want < nb * 2) want = nb * 2; if (want < 11) want = 11; if (ne + ni >= nb || nb < 2) return {true, _M_next_bkt(want)}; _M_next_resize = nb; }
    return {false, 0}; }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
}
// red-black tree primitives (unbalanced search tree is sufficient for the interface)
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black; // header stays red
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    _Rb_tree_node_base* nl = h._M_left == z ? inc(z) : h._M_left; _Rb_tree_node_base* nr = h._M_right == z ? dec(z) : h._M_right;
    if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
    else { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    h._M_left = nl; h._M_right = nr; if (!h._M_parent) { h._M_left = h._M_right = &h; } return z; }
// threads: the functor runs to completion at creation (one sequential schedule)
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id(1); s->_M_run(); }
void thread::join() { _M_id = id(); } void thread::detach() { _M_id = id(); }
unsigned int thread::hardware_concurrency() noexcept { return 1; }
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {} void condition_variable::notify_all() noexcept {} void condition_variable::notify_one() noexcept {}
void condition_variable::wait(unique_lock<mutex>&) {}
}
// path handling of <experimental/filesystem>: '/'-separated, no component list
namespace std { namespace experimental { namespace filesystem { inline namespace v1 { inline namespace __cxx11 {
void path::_M_split_cmpts() { _M_type = _Type::_Filename; }
path path::parent_path() const { const std::string& s = native(); size_t k = s.rfind('/'); return path(k == std::string::npos ? std::string() : s.substr(0, k)); }
std::pair<const std::string*, size_t> path::_M_find_extension() const { const std::string& s = _M_pathname; size_t k = s.rfind('/'), b = k == std::string::npos ? 0 : k + 1; std::string f = s.substr(b); if (f == "." || f == ".." || f.empty()) return {&s, std::string::npos}; size_t d = s.rfind('.'); auto* fn = new std::string(f); if (d == std::string::npos || d < b) return {fn, std::string::npos}; return {fn, d - b}; }
path& path::remove_filename() { size_t k = _M_pathname.rfind('/'); _M_pathname = k == std::string::npos ? std::string() : _M_pathname.substr(0, k); return *this; }
} 
file_status status(const path&) { return file_status(file_type::not_found); }
bool create_directories(const path&) { return true; }
}}}}
namespace fmt { inline namespace v9 {
namespace { struct VpArg { std::string& o; void u(unsigned long v) { char b[24]; int n = 0; do { b[n++] = '0' + v % 10; v /= 10; } while (v); while (n) o += b[--n]; } void i(long v) { if (!vp_is_concrete_int(v)) { o += '?'; return; } if (v < 0) { o += '-'; u(0ul - v); } else u(v); }
    void operator()(int v) { i(v); } void operator()(unsigned v) { i(v); } void operator()(long long v) { i(v); } void operator()(unsigned long long v) { i((long)v); } void operator()(const char* v) { o += v; } void operator()(string_view v) { o.append(v.data(), v.size()); } template <class T> void operator()(const T&) { o += '?'; } }; }
std::string vformat(string_view f, format_args as) { std::string o; int k = 0; for (size_t i = 0; i < f.size(); i++) { if (f[i] == '{' && i + 1 < f.size() && f[i + 1] == '}') { visit_format_arg(VpArg{o}, as.get(k++)); ++i; } else o += f[i]; } return o; }
}}
extern "C" void vp_unsupported_regex();
// files: an in-memory file system with byte streams; only the operations the library uses
namespace {
struct VpFile { char* data; size_t n, cap; };
struct VpFileEntry { std::string name; VpFile f; };
std::vector<VpFileEntry*>& vp_files() { static std::vector<VpFileEntry*> v; return v; }
VpFile* vp_file(const std::string& name, bool create) { for (auto* e : vp_files()) if (e->name == name) { if (create) e->f.n = 0; return &e->f; } if (!create) return nullptr; auto* e = new VpFileEntry{name, VpFile{nullptr, 0, 0}}; vp_files().push_back(e); return &e->f; }
struct VpStream { const long* vt; VpFile* f; size_t pos; bool ok; bool eof; }; // laid over the stream object
const long vp_stream_vt[8] = {0, 0, 0, 0, 0, 0, 0, 0}; // virtual base offset 0: std::ios is the object itself
void vp_open(void* p, const std::string& name, bool out) { auto* s = (VpStream*)p; s->vt = vp_stream_vt + 3; s->f = vp_file(name, out); s->pos = 0; s->ok = s->f; s->eof = false; }
}
extern "C" {
bool vp_close(double a, double b) { return a == b; }
#define VP_STRM(X, OUT) \
void _ZNSt14basic_##X##streamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode(void* p, const std::string& n, int) { vp_open(p, n, OUT); } \
void _ZNSt14basic_##X##streamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode(void* p, const char* n, int) { vp_open(p, n, OUT); } \
void _ZNSt14basic_##X##streamIcSt11char_traitsIcEED1Ev(void*) {} \
void _ZNSt14basic_##X##streamIcSt11char_traitsIcEE5closeEv(void*) {} \
void* _ZNKSt14basic_##X##streamIcSt11char_traitsIcEE5rdbufEv(void* p) { return p; } \
bool _ZNSt14basic_##X##streamIcSt11char_traitsIcEE7is_openEv(void* p) { return ((VpStream*)p)->f; } \
bool _ZNKSt14basic_##X##streamIcSt11char_traitsIcEE7is_openEv(void* p) { return ((VpStream*)p)->f; }
VP_STRM(if, false) VP_STRM(of, true)
void* _ZNKSt9basic_iosIcSt11char_traitsIcEE5rdbufEv(void* p) { return p; }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEEcvbEv(void* p) { return ((VpStream*)p)->ok; }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEEntEv(void* p) { return !((VpStream*)p)->ok; }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEE4failEv(void* p) { return !((VpStream*)p)->ok; }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEE4goodEv(void* p) { return ((VpStream*)p)->ok && !((VpStream*)p)->eof; }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEE3eofEv(void* p) { return ((VpStream*)p)->eof; }
bool _ZNKSt9basic_iosIcSt11char_traitsIcEE3badEv(void* p) { return false; }
void* _ZNSi7getlineEPcl(void* p, char* d, long n) { // reads up to n-1 characters or a newline, which is dropped
    auto* s = (VpStream*)p; VpFile* f = s->f; long k = 0; if (n > 0) d[0] = 0; if (!s->ok || s->eof) { s->ok = false; return p; }
    bool any = false; for (;;) { if (s->pos == f->n) { s->eof = true; if (!any) s->ok = false; break; } if (f->data[s->pos] == '\n') { ++s->pos; break; } if (k + 1 >= n) { s->ok = false; break; } any = true; d[k++] = f->data[s->pos++]; }
    if (n > 0) d[k] = 0; return p; }
void* _ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE(void* p, std::string& d) {
    auto* s = (VpStream*)p; VpFile* f = s->f; d.clear(); if (!s->ok || s->eof) { s->ok = false; return p; } bool any = false;
    for (;;) { if (s->pos == f->n) { s->eof = true; if (!any) s->ok = false; break; } if (f->data[s->pos] == '\n') { ++s->pos; break; } any = true; d += f->data[s->pos++]; } return p; }
long _ZNSt15basic_streambufIcSt11char_traitsIcEE5sputnEPKcl(void* p, const char* d, long n) {
    auto* s = (VpStream*)p; VpFile* f = s->f; if (!f) return 0;
    if (f->n + n > f->cap) { size_t c = f->cap ? f->cap : 1024; while (c < f->n + n) c *= 2; char* q = (char*)__builtin_malloc(c); if (f->n) __builtin_memcpy(q, f->data, f->n); __builtin_free(f->data); f->data = q; f->cap = c; }
    if (n) __builtin_memcpy(f->data + f->n, d, n); f->n += n; return n; }
long _ZNSt15basic_streambufIcSt11char_traitsIcEE5sgetnEPcl(void* p, char* d, long n) {
    auto* s = (VpStream*)p; VpFile* f = s->f; if (!f) return 0; long m = (long)(f->n - s->pos); if (m > n) m = n; if (m) __builtin_memcpy(d, f->data + s->pos, m); s->pos += m; return m; }
}
// std::stringstream as the carrier of one pointer (JSON pointer properties)
extern "C" {
#define VP_SS(p) (*(std::string**)((char*)(p) + 24))
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev(void* p) { VP_SS(p) = new std::string(); }
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode(void* p, const std::string& s, int) { VP_SS(p) = new std::string(s); }
void _ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev(void* p) { delete VP_SS(p); }
void vp_ss_str(std::string* r, void* p) __asm__("_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv");
void vp_ss_str(std::string* r, void* p) { new (r) std::string(*VP_SS(p)); }
void* _ZNSolsEPKv(void* o, const void* v) { char* p = (char*)o - 16; unsigned long x = (unsigned long)v; std::string& s = *VP_SS(p); s += "0x"; char b[20]; int n = 0; do { b[n++] = "0123456789abcdef"[x & 15]; x >>= 4; } while (x); while (n) s += b[--n]; return o; }
void* _ZNSirsERPv(void* p, void** v) { const char* s = VP_SS(p)->c_str(); unsigned long x = 0; if (s[0] == '0' && s[1] == 'x') s += 2; for (; *s; ++s) x = x * 16 + (*s <= '9' ? *s - '0' : *s - 'a' + 10); *v = (void*)x; return p; }
}
// numbers in text: the harness writes symbolic numbers as a mark and an index, which the readers below turn back into the value
// (the native run prints 17 significant digits, which read back as the same double)
extern "C" {
static double vp_numtab[256]; static int vp_numcnt = 0;
void vp_num_text(char* o, double v) { int k = vp_numcnt++; vp_numtab[k] = v; o[0] = 1; o[1] = '0' + k / 100; o[2] = '0' + k / 10 % 10; o[3] = '0' + k % 10; o[4] = 0; }
static int vp_inttab[256]; static int vp_intcnt = 0;
void vp_int_text(char* o, int v) { int k = vp_intcnt++; vp_inttab[k] = v; o[0] = 2; o[1] = '0' + k / 100; o[2] = '0' + k / 10 % 10; o[3] = '0' + k % 10; o[4] = 0; }
static int vp_mark(const char* s) { return (s[1] - '0') * 100 + (s[2] - '0') * 10 + s[3] - '0'; }
static bool vp_sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
long strtol(const char* s, char** e, int base) { const char* b = s; while (vp_sp(*s)) ++s; if (*s == 2 || *s == 1) { int k = vp_mark(s); if (e) *e = (char*)s + 4; return *s == 2 ? vp_inttab[k] : (int)vp_numtab[k]; } bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-'; long v = 0; bool any = false; while (*s >= '0' && *s <= '9') { v = v * 10 + (*s++ - '0'); any = true; } if (e) *e = (char*)(any ? s : b); return neg ? -v : v; }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
double strtod(const char* s, char** e) { const char* b = s; while (vp_sp(*s)) ++s; if (*s == 2 || *s == 1) { int k = vp_mark(s); if (e) *e = (char*)s + 4; if (*s == 1) return vp_numtab[k]; return vp_inttab[k]; } bool neg = false; if (*s == '-' || *s == '+') neg = *s++ == '-'; double v = 0, d = 1; bool any = false; while (*s >= '0' && *s <= '9') { v = v * 10 + double(*s++ - '0'); any = true; } if (*s == '.') { ++s; while (*s >= '0' && *s <= '9') { v = v * 10 + double(*s++ - '0'); d *= 10; any = true; } } if (any && (*s == 'e' || *s == 'E')) { const char* q = s + 1; bool en = false; if (*q == '-' || *q == '+') en = *q++ == '-'; if (*q >= '0' && *q <= '9') { int x = 0; while (*q >= '0' && *q <= '9') x = x * 10 + (*q++ - '0'); while (x-- > 0) { if (en) d *= 10; else v *= 10; } s = q; } } if (e) *e = (char*)(any ? s : b); v /= d; return neg ? -v : v; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, nullptr); }
size_t strspn(const char* s, const char* a) { size_t n = 0; for (;; ++n) { if (!s[n]) return n; bool in = false; for (const char* q = a; *q; ++q) if (*q == s[n]) { in = true; break; } if (!in) return n; } }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (;; ++n) { if (!s[n]) return n; for (const char* q = a; *q; ++q) if (*q == s[n]) return n; } }
int __isoc23_sscanf(const char* s, const char* f, void* a, void* b, void* c, void* d) { // %s, %<n>s, %d, %lf
    void* as[4] = {a, b, c, d}; int n = 0; while (*f) { if (vp_sp(*f)) { while (vp_sp(*s)) ++s; ++f; continue; } if (*f != '%') { if (*s != *f) return n; ++s; ++f; continue; } ++f; int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); bool l = false; while (*f == 'l') { l = true; ++f; } while (vp_sp(*s)) ++s; if (!*s) return n ? n : -1;
        if (*f == 's') { char* o = (char*)as[n++]; int k = 0; while (*s && !vp_sp(*s) && (!w || k < w)) o[k++] = *s++; o[k] = 0; } else if (*f == 'd') { char* e; long v = strtol(s, &e, 10); if (e == s) return n; *(int*)as[n++] = (int)v; s = e; } else if (*f == 'f') { char* e; double v = strtod(s, &e); if (e == s) return n; if (l) *(double*)as[n++] = v; else *(float*)as[n++] = (float)v; s = e; } else vp_unsupported_regex(); ++f; } return n; }
}
// <regex>: whole-string matching of concatenations of (quantified) characters and classes; anything else is reported as unsupported
namespace {
struct VpRegex { char* p; };
bool vp_rx_esc(char k, char c) { bool d = c >= '0' && c <= '9', w = d || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; switch (k) { case 'w': return w; case 'W': return !w; case 'd': return d; case 'D': return !d; case 's': return c == ' ' || (c >= 9 && c <= 13); case 'n': return c == '\n'; case 't': return c == '\t'; case 'b': case 'B': case 'S': vp_unsupported_regex(); return false; } return c == k; }
const char* vp_rx_atom_end(const char* p) { if (*p == '\\') return p + 2; if (*p == '[') { ++p; if (*p == '^') ++p; if (*p == ']') ++p; while (*p && *p != ']') p += *p == '\\' ? 2 : 1; return p + 1; } return p + 1; }
bool vp_rx_one(const char* p, char c) {
    if (*p == '.') return c != '\n'; if (*p == '\\') return vp_rx_esc(p[1], c); if (*p != '[') return c == *p;
    const char* e = vp_rx_atom_end(p) - 1; ++p; bool neg = *p == '^'; if (neg) ++p; bool in = false;
    while (p < e) { if (*p == '[') vp_unsupported_regex(); if (*p == '\\') { in |= vp_rx_esc(p[1], c); p += 2; } else if (p + 2 < e && p[1] == '-') { in |= c >= p[0] && c <= p[2]; p += 3; } else { in |= c == *p; ++p; } }
    return in != neg; }
bool vp_rx(const char* p, const char* s, const char* e) {
    while (*p == '(' || *p == ')' || *p == '^') { if (*p == '^') vp_unsupported_regex(); if (*p == '(' && p[1] == '?') vp_unsupported_regex(); if (*p == ')' && (p[1] == '*' || p[1] == '+' || p[1] == '?' || p[1] == '{')) vp_unsupported_regex(); ++p; }
    if (!*p || (*p == '$' && !p[1])) return s == e; if (*p == '|' || *p == '{') vp_unsupported_regex();
    const char* n = vp_rx_atom_end(p); char q = *n;
    if (q == '*' || q == '+' || q == '?') { long mn = q == '+', mx = q == '?' ? 1 : e - s, k = 0; while (k < mx && s + k < e && vp_rx_one(p, s[k])) ++k; for (; k >= mn; --k) if (vp_rx(n + 1, s + k, e)) return true; return false; }
    return s < e && vp_rx_one(p, *s) && vp_rx(n, s + 1, e); }
}
extern "C" {
void _ZNSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEEC2EPKcNSt15regex_constants18syntax_option_typeE(void* self, const char* p, int) { size_t n = __builtin_strlen(p); char* q = (char*)__builtin_malloc(n + 2); __builtin_memcpy(q, p, n + 1); q[n + 1] = 0; ((VpRegex*)self)->p = q; }
void _ZNSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEED2Ev(void* self) { __builtin_free(((VpRegex*)self)->p); }
bool VP_REGEX_ALGO(const char* s, const char* e, void*, void* re, int, int, bool whole) __asm__("_ZNSt8__detail17__regex_algo_implIN9__gnu_cxx17__normal_iteratorIPKcNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEESaINS5_9sub_matchISB_EEEcNS5_12regex_traitsIcEEEEbT_SH_RNS5_13match_resultsISH_T0_EERKNS5_11basic_regexIT1_T2_EENSt15regex_constants15match_flag_typeENS_20_RegexExecutorPolicyEb");
bool VP_REGEX_ALGO(const char* s, const char* e, void*, void* re, int, int, bool whole) { if (!whole) vp_unsupported_regex(); const char* p = ((VpRegex*)re)->p; if (*p == '^') ++p; return vp_rx(p, s, e); }
}
// std::random_device: any value may come out; the generators seeded by it are modelled as arbitrary draws, so the value is irrelevant
extern "C" void vp_rdev_init(void*, const void*) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); extern "C" void vp_rdev_init(void*, const void*) {}
extern "C" void vp_rdev_fini(void*) __asm__("_ZNSt13random_device7_M_finiEv"); extern "C" void vp_rdev_fini(void*) {}
extern "C" unsigned vp_rdev_get(void*) __asm__("_ZNSt13random_device9_M_getvalEv"); extern "C" unsigned vp_rdev_get(void*) { return 42; }
