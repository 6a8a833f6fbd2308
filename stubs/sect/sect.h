// Model of the threading facilities used by the parallel sections: namespace pstd replaces std while the headers under
// analysis are included (everything not modelled here is the real std). A packaged_task keeps its functor; the analysis
// decides when it runs.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <array>
#include <algorithm>
#include <cmath>
#include <iterator>
#include <numeric>
#include <type_traits>
#include <utility>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <limits>
#include <cassert>
#if __cplusplus >= 201703L
#include <variant>
#include <optional>
#include <string_view>
#endif
extern "C" {
unsigned long ev_make(void (*run)(void*, void*), void* functor, void* result);
void ev_drop(unsigned long id) noexcept;
void ev_run(unsigned long id);
void ev_wait(unsigned long id);
void ev_get(unsigned long id);
bool ev_ready(unsigned long id) noexcept;
bool ev_valid_id(unsigned long id) noexcept;
void ev_async_drop(unsigned long id) noexcept;
}
namespace pstd { using namespace std; }
namespace pstd {
class mutex { void* h_; public: constexpr mutex() noexcept : h_() {} mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete; void lock() noexcept {} bool try_lock() noexcept { return true; } void unlock() noexcept {} };
struct defer_lock_t { explicit defer_lock_t() = default; }; struct try_to_lock_t { explicit try_to_lock_t() = default; }; struct adopt_lock_t { explicit adopt_lock_t() = default; };
static constexpr defer_lock_t defer_lock{}; static constexpr try_to_lock_t try_to_lock{}; static constexpr adopt_lock_t adopt_lock{};
template <typename M> class lock_guard { public: typedef M mutex_type; explicit lock_guard(M&) {} lock_guard(M&, adopt_lock_t) {} ~lock_guard() {} lock_guard(const lock_guard&) = delete; lock_guard& operator=(const lock_guard&) = delete; };
template <typename M> class unique_lock { M* m_; public: typedef M mutex_type; unique_lock() noexcept : m_() {} explicit unique_lock(M& m) : m_(&m) {} template <typename X> unique_lock(M& m, X) noexcept : m_(&m) {} ~unique_lock() {} unique_lock(const unique_lock&) = delete; unique_lock& operator=(const unique_lock&) = delete; unique_lock(unique_lock&& u) noexcept : m_(u.m_) {}
  void lock() {} bool try_lock() { return true; } void unlock() {} bool owns_lock() const noexcept { return true; } explicit operator bool() const noexcept { return true; } M* mutex() const noexcept { return m_; } };
#if __cplusplus >= 201703L
template <typename... Ms> class scoped_lock { public: explicit scoped_lock(Ms&...) {} ~scoped_lock() {} };
template <typename M> lock_guard(M&) -> lock_guard<M>;
template <typename M> unique_lock(M&) -> unique_lock<M>;
#endif
enum class cv_status { no_timeout, timeout };
class condition_variable { void* h_; public: condition_variable() : h_() {} condition_variable(const condition_variable&) = delete; void notify_one() noexcept {} void notify_all() noexcept {} void wait(unique_lock<mutex>&) {} template <typename P> void wait(unique_lock<mutex>&, P) {} };
class thread { void* h_; public: thread() noexcept : h_() {} template <typename F, typename... A, typename = typename enable_if<!is_same<typename decay<F>::type, thread>::value>::type> explicit thread(F&&, A&&...) : h_() {} thread(const thread&) = delete; thread& operator=(const thread&) = delete; thread(thread&&) noexcept : h_() {} thread& operator=(thread&&) noexcept { return *this; } ~thread() {}
  bool joinable() const noexcept { return false; } void join() noexcept {} void detach() noexcept {} static unsigned hardware_concurrency() noexcept { return 8; } };
namespace this_thread { inline void yield() noexcept {} template <typename D> inline void sleep_for(const D&) {} }
enum class future_status { ready, timeout, deferred }; enum class launch { async = 1, deferred = 2 };
template <typename R> struct sect_val { R v; R take() { return std::move(v); } }; template <> struct sect_val<void> { void take() {} };
template <typename F, typename R> struct sect_run { static void go(void* f, void* r) { static_cast<sect_val<R>*>(r)->v = (*static_cast<F*>(f))(); } };
template <typename F> struct sect_run<F, void> { static void go(void* f, void*) { (*static_cast<F*>(f))(); } };
template <typename R> class future { public: unsigned long id_; sect_val<R>* r_; bool a_; future() noexcept : id_(0), r_(), a_(false) {} future(unsigned long i, sect_val<R>* r, bool a = false) noexcept : id_(i), r_(r), a_(a) {} future(future&& o) noexcept : id_(o.id_), r_(o.r_), a_(o.a_) { o.id_ = 0; } future& operator=(future&& o) noexcept { if (a_ && id_) ev_async_drop(id_); id_ = o.id_; r_ = o.r_; a_ = o.a_; o.id_ = 0; return *this; } future(const future&) = delete; future& operator=(const future&) = delete; ~future() { if (a_ && id_) ev_async_drop(id_); }
  R get() { unsigned long i = id_; id_ = 0; ev_get(i); return r_->take(); } void wait() const { ev_wait(id_); } bool valid() const noexcept { return id_ != 0; }
  template <typename D> future_status wait_for(const D&) const { return ev_ready(id_) ? future_status::ready : future_status::timeout; } };
template <typename S> class packaged_task;
template <typename R> class packaged_task<R()> { unsigned long id_; sect_val<R>* r_; public: packaged_task() noexcept : id_(0), r_() {}
  template <typename F, typename = typename enable_if<!is_same<typename decay<F>::type, packaged_task>::value>::type> explicit packaged_task(F&& f) : id_(0), r_(new sect_val<R>()) { typedef typename decay<F>::type G; id_ = ev_make(&sect_run<G, R>::go, new G(std::forward<F>(f)), r_); }
  packaged_task(packaged_task&& o) noexcept : id_(o.id_), r_(o.r_) { o.id_ = 0; } packaged_task& operator=(packaged_task&& o) noexcept { id_ = o.id_; r_ = o.r_; o.id_ = 0; return *this; } packaged_task(const packaged_task&) = delete; packaged_task& operator=(const packaged_task&) = delete; ~packaged_task() { if (id_) ev_drop(id_); }
  void swap(packaged_task& o) noexcept { std::swap(id_, o.id_); std::swap(r_, o.r_); } bool valid() const noexcept { return id_ != 0; } future<R> get_future() { return future<R>(id_, r_); } void operator()() { ev_run(id_); } };
template <typename S> void swap(packaged_task<S>& a, packaged_task<S>& b) noexcept { a.swap(b); }
template <typename F, typename R = typename decay<decltype(std::declval<F&>()())>::type> future<R> async(launch, F&& f) { typedef typename decay<F>::type G; auto r = new sect_val<R>(); return future<R>(ev_make(&sect_run<G, R>::go, new G(std::forward<F>(f)), r), r, true); }
}
#define std pstd
