// Models of the parts of libstdc++/libpthread that block, used identically by the symbolic executor and by the native replay.
#include "sym.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <chrono>
#include <random>
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
namespace std {
thread::_State::~_State() {}
struct __model_start { thread::_State* s; };
static void __model_thread_body(void* p) noexcept { thread::_State* s = (thread::_State*)p; s->_M_run(); delete s; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { thread::_State* s = st.release(); uint64_t t = __sym_thread_create(&__model_thread_body, s); _M_id = id((native_handle_type)(t + 1)); }
void thread::join() { if (_M_id == id()) __throw_system_error(22); __sym_thread_join((uint64_t)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { if (_M_id == id()) __throw_system_error(22); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return __sym_futex_wait(a, v, timed, (int64_t)s.count() * 1000000000ll + ns.count()) != 0; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds ns) { return __sym_futex_wait(a, v, timed, (int64_t)s.count() * 1000000000ll + ns.count()) != 0; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { __sym_futex_wake(a); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(__sym_now())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(__sym_now())); }
} }
static unsigned __model_rand = 12345;
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return __model_rand = __model_rand * 1103515245u + 12345u; }
}
extern "C" int pthread_once(pthread_once_t* c, void (*f)(void)) { if (*(int*)c == 0) { *(int*)c = 1; f(); *(int*)c = 2; } return 0; }
