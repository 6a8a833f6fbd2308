// Model of the threading and container facilities the pool uses: namespace pstd replaces std while the header under
// analysis is included (everything not modelled here is the real std).
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <array>
#include <algorithm>
#include <type_traits>
#include <utility>
#include <cstddef>
#include <new>
// Declarations of the modelled operations. They have no bodies: the analysis interprets the calls.
extern "C" {
void ev_lock(void* m) noexcept;
bool ev_try_lock(void* m) noexcept;
void ev_unlock(void* m) noexcept;
void ev_destroy(void* o, int kind) noexcept;   // 1 mutex, 2 condition variable, 3 container, 4 thread
void ev_wait(void* cv, void* m) noexcept;
bool ev_wait_timed(void* cv, void* m) noexcept;
void ev_notify(void* cv, int all) noexcept;
void ev_thread_start(void* t, void (*run)(void*), void* closure);
void* ev_alloc(unsigned long n) noexcept;
void ev_print(unsigned long v) noexcept;
bool ev_thread_joinable(const void* t) noexcept;
void ev_thread_join(void* t) noexcept;
void ev_thread_detach(void* t) noexcept;
void ev_thread_move(void* to, void* from) noexcept;
unsigned ev_hardware() noexcept;
void ev_yield() noexcept;
void ev_task_make(void* t);
void ev_task_init(void* t) noexcept;
void ev_task_move(void* to, void* from) noexcept;
void ev_task_swap(void* a, void* b) noexcept;
void ev_task_drop(void* t) noexcept;
void ev_task_run(void* t);
bool ev_task_valid(const void* t) noexcept;
void ev_task_future(void* t, void* f);
void ev_future_init(void* f) noexcept;
void ev_future_move(void* to, void* from) noexcept;
void ev_future_drop(void* f) noexcept;
void ev_future_wait(const void* f);
void ev_future_get(void* f);
bool ev_future_valid(const void* f) noexcept;
void ev_q_init(void* q) noexcept;
bool ev_q_empty(const void* q) noexcept;
unsigned long ev_q_size(const void* q) noexcept;
void* ev_q_ref(const void* q, int back) noexcept;
void ev_q_push(void* q, int back, void* elem);
void ev_q_pop(void* q, int back) noexcept;
void ev_q_clear(void* q) noexcept;
void ev_q_swap(void* a, void* b) noexcept;
}
namespace pstd { using namespace std; }
// <mutex>
namespace pstd {
class mutex { void* h_; public: constexpr mutex() noexcept : h_() {} ~mutex() { ev_destroy(this, 1); } mutex(const mutex&) = delete; mutex& operator=(const mutex&) = delete;
  void lock() noexcept { ev_lock(this); } bool try_lock() noexcept { return ev_try_lock(this); } void unlock() noexcept { ev_unlock(this); } };
struct defer_lock_t { explicit defer_lock_t() = default; }; struct try_to_lock_t { explicit try_to_lock_t() = default; }; struct adopt_lock_t { explicit adopt_lock_t() = default; };
static constexpr defer_lock_t defer_lock{}; static constexpr try_to_lock_t try_to_lock{}; static constexpr adopt_lock_t adopt_lock{};
template <typename M> class lock_guard { M& m_; public: typedef M mutex_type; explicit lock_guard(M& m) : m_(m) { m_.lock(); } lock_guard(M& m, adopt_lock_t) : m_(m) {} ~lock_guard() { m_.unlock(); } lock_guard(const lock_guard&) = delete; lock_guard& operator=(const lock_guard&) = delete; };
template <typename M> class unique_lock { M* m_; bool o_; public: typedef M mutex_type; unique_lock() noexcept : m_(), o_(false) {} explicit unique_lock(M& m) : m_(&m), o_(false) { lock(); }
  unique_lock(M& m, defer_lock_t) noexcept : m_(&m), o_(false) {} unique_lock(M& m, try_to_lock_t) : m_(&m), o_(m.try_lock()) {} unique_lock(M& m, adopt_lock_t) : m_(&m), o_(true) {}
  ~unique_lock() { if (o_) unlock(); } unique_lock(const unique_lock&) = delete; unique_lock& operator=(const unique_lock&) = delete;
  unique_lock(unique_lock&& u) noexcept : m_(u.m_), o_(u.o_) { u.m_ = nullptr; u.o_ = false; } unique_lock& operator=(unique_lock&& u) noexcept { if (o_) unlock(); m_ = u.m_; o_ = u.o_; u.m_ = nullptr; u.o_ = false; return *this; }
  void lock() { m_->lock(); o_ = true; } bool try_lock() { o_ = m_->try_lock(); return o_; } void unlock() { m_->unlock(); o_ = false; } M* release() noexcept { M* r = m_; m_ = nullptr; o_ = false; return r; } bool owns_lock() const noexcept { return o_; } explicit operator bool() const noexcept { return o_; } M* mutex() const noexcept { return m_; } };
#if __cplusplus >= 201703L
template <typename... Ms> class scoped_lock;
template <typename M> class scoped_lock<M> { M& m_; public: explicit scoped_lock(M& m) : m_(m) { m_.lock(); } ~scoped_lock() { m_.unlock(); } scoped_lock(const scoped_lock&) = delete; scoped_lock& operator=(const scoped_lock&) = delete; };
template <typename M> scoped_lock(M&) -> scoped_lock<M>;
template <typename M> lock_guard(M&) -> lock_guard<M>;
template <typename M> unique_lock(M&) -> unique_lock<M>;
#endif
}
// <condition_variable>
namespace pstd {
enum class cv_status { no_timeout, timeout };
class condition_variable { void* h_; public: condition_variable() : h_() {} ~condition_variable() { ev_destroy(this, 2); } condition_variable(const condition_variable&) = delete; condition_variable& operator=(const condition_variable&) = delete;
  void notify_one() noexcept { ev_notify(this, 0); } void notify_all() noexcept { ev_notify(this, 1); }
  void wait(unique_lock<mutex>& l) { ev_wait(this, l.mutex()); } template <typename P> void wait(unique_lock<mutex>& l, P p) { while (!p()) wait(l); }
  template <typename R, typename Q> cv_status wait_for(unique_lock<mutex>& l, const chrono::duration<R, Q>&) { return ev_wait_timed(this, l.mutex()) ? cv_status::timeout : cv_status::no_timeout; }
  template <typename R, typename Q, typename P> bool wait_for(unique_lock<mutex>& l, const chrono::duration<R, Q>&, P p) { while (!p()) { if (ev_wait_timed(this, l.mutex())) return p(); } return true; }
};
}
// <thread>
namespace pstd {
namespace pool_stub {
template <size_t... I> struct seq {}; template <size_t N, size_t... I> struct mk : mk<N - 1, N - 1, I...> {}; template <size_t... I> struct mk<0, I...> { typedef seq<I...> type; };
template <typename F, bool M> struct call { template <typename... A> static void go(F& f, A&... a) { f(std::move(a)...); } };
template <typename F> struct call<F, true> { template <typename P, typename... A> static void go(F& f, P& p, A&... a) { ((*p).*f)(std::move(a)...); } };
template <typename F, typename... A> struct closure { F f; tuple<A...> a; template <size_t... I> void go(seq<I...>) { call<F, is_member_function_pointer<F>::value>::go(f, get<I>(a)...); } static void run(void* p) { static_cast<closure*>(p)->go(typename mk<sizeof...(A)>::type()); } };
}
class thread { void* h_; public: thread() noexcept : h_() {}
  template <typename F, typename... A, typename = typename enable_if<!is_same<typename decay<F>::type, thread>::value>::type> explicit thread(F&& f, A&&... a) : h_() { typedef pool_stub::closure<typename decay<F>::type, typename decay<A>::type...> C; C* c = ::new (ev_alloc(sizeof(C))) C{std::forward<F>(f), tuple<typename decay<A>::type...>(std::forward<A>(a)...)}; ev_thread_start(this, &C::run, c); }
  thread(const thread&) = delete; thread& operator=(const thread&) = delete; thread(thread&& o) noexcept : h_() { ev_thread_move(this, &o); } thread& operator=(thread&& o) noexcept { ev_thread_move(this, &o); return *this; } ~thread() { ev_destroy(this, 4); }
  bool joinable() const noexcept { return ev_thread_joinable(this); } void join() noexcept { ev_thread_join(this); } void detach() noexcept { ev_thread_detach(this); } static unsigned hardware_concurrency() noexcept { return ev_hardware(); } };
namespace this_thread { inline void yield() noexcept { ev_yield(); } template <typename D> inline void sleep_for(const D&) { ev_yield(); } }
}
// <future>
namespace pstd {
enum class future_status { ready, timeout, deferred }; enum class launch { async = 1, deferred = 2 };
template <typename R> class future { void* h_; public: void* h() { return &h_; } future() noexcept { ev_future_init(this); } future(future&& o) noexcept { ev_future_move(this, &o); } future& operator=(future&& o) noexcept { ev_future_drop(this); ev_future_move(this, &o); return *this; } future(const future&) = delete; future& operator=(const future&) = delete; ~future() { ev_future_drop(this); }
  R get() { ev_future_get(this); return R(); } void wait() const { ev_future_wait(this); } bool valid() const noexcept { return ev_future_valid(this); } };
template <typename S> class packaged_task;
template <typename R> class packaged_task<R()> { void* h_; public: packaged_task() noexcept { ev_task_init(this); } template <typename F, typename = typename enable_if<!is_same<typename decay<F>::type, packaged_task>::value>::type> explicit packaged_task(F&&) { ev_task_make(this); }
  packaged_task(packaged_task&& o) noexcept { ev_task_init(this); ev_task_move(this, &o); } packaged_task& operator=(packaged_task&& o) noexcept { ev_task_move(this, &o); return *this; } packaged_task(const packaged_task&) = delete; packaged_task& operator=(const packaged_task&) = delete; ~packaged_task() { ev_task_drop(this); }
  void swap(packaged_task& o) noexcept { ev_task_swap(this, &o); } bool valid() const noexcept { return ev_task_valid(this); } future<R> get_future() { future<R> f; ev_task_future(this, &f); return f; } void operator()() { ev_task_run(this); } };
template <typename S> void swap(packaged_task<S>& a, packaged_task<S>& b) noexcept { a.swap(b); }
}
// <deque>
namespace pstd {
template <typename T, typename A = allocator<T>> class deque { void* h_[3]; public: typedef T value_type; typedef T& reference; typedef const T& const_reference; typedef size_t size_type; deque() noexcept { ev_q_init(this); } deque(const deque&) = delete; deque& operator=(const deque&) = delete; ~deque() { ev_destroy(this, 3); }
  bool empty() const noexcept { return ev_q_empty(this); } size_t size() const noexcept { return ev_q_size(this); } T& front() noexcept { return *static_cast<T*>(ev_q_ref(this, 0)); } T& back() noexcept { return *static_cast<T*>(ev_q_ref(this, 1)); } const T& front() const noexcept { return *static_cast<const T*>(ev_q_ref(this, 0)); } const T& back() const noexcept { return *static_cast<const T*>(ev_q_ref(this, 1)); }
  void push_back(T&& x) { ev_q_push(this, 1, &x); } void push_front(T&& x) { ev_q_push(this, 0, &x); } template <typename U> void emplace_back(U&& x) { T t(std::forward<U>(x)); ev_q_push(this, 1, &t); } template <typename U> void emplace_front(U&& x) { T t(std::forward<U>(x)); ev_q_push(this, 0, &t); }
  void pop_back() noexcept { ev_q_pop(this, 1); } void pop_front() noexcept { ev_q_pop(this, 0); } void clear() noexcept { ev_q_clear(this); } void swap(deque& o) noexcept { ev_q_swap(this, &o); } };
}
// <list>
namespace pstd { template <typename T, typename A = allocator<T>> class list : public deque<T, A> {}; }
// <vector>
namespace pstd {
template <typename T, typename A = allocator<T>> class vector { T* b_; T* e_; T* c_; void grow(size_t n) { T* nb = static_cast<T*>(::operator new(n * sizeof(T))); T* o = nb; for (T* p = b_; p != e_; ++p, ++o) { ::new (static_cast<void*>(o)) T(std::move(*p)); p->~T(); } if (b_) ::operator delete(b_); b_ = nb; e_ = o; c_ = nb + n; }
 public: typedef T value_type; typedef T* iterator; typedef const T* const_iterator; typedef size_t size_type; typedef T& reference; typedef const T& const_reference; typedef ptrdiff_t difference_type; vector() noexcept : b_(), e_(), c_() {} explicit vector(size_t n) : b_(), e_(), c_() { resize(n); } vector(const vector&) = delete; vector& operator=(const vector&) = delete; vector(vector&& o) noexcept : b_(o.b_), e_(o.e_), c_(o.c_) { o.b_ = o.e_ = o.c_ = nullptr; } ~vector() { clear(); if (b_) ::operator delete(b_); }
  void reserve(size_t n) { if (n > size_t(c_ - b_)) grow(n); } template <typename... X> void emplace_back(X&&... x) { if (e_ == c_) grow(b_ == e_ ? 1 : 2 * size_t(e_ - b_)); ::new (static_cast<void*>(e_)) T(std::forward<X>(x)...); ++e_; } void push_back(T&& x) { emplace_back(std::move(x)); }
  void resize(size_t n) { while (size() < n) emplace_back(); while (size() > n) pop_back(); } void pop_back() { --e_; e_->~T(); } void clear() noexcept { for (T* p = b_; p != e_; ++p) p->~T(); e_ = b_; } void swap(vector& o) noexcept { std::swap(b_, o.b_); std::swap(e_, o.e_); std::swap(c_, o.c_); }
  size_t size() const noexcept { return size_t(e_ - b_); } bool empty() const noexcept { return b_ == e_; } size_t capacity() const noexcept { return size_t(c_ - b_); } T& operator[](size_t i) { return b_[i]; } const T& operator[](size_t i) const { return b_[i]; } T& at(size_t i) { return b_[i]; } const T& at(size_t i) const { return b_[i]; } T* begin() noexcept { return b_; } T* end() noexcept { return e_; } const T* begin() const noexcept { return b_; } const T* end() const noexcept { return e_; } const T* cbegin() const noexcept { return b_; } const T* cend() const noexcept { return e_; } T& front() { return *b_; } T& back() { return e_[-1]; } const T& back() const { return e_[-1]; } T* data() noexcept { return b_; } };
}
// <queue>
namespace pstd {
template <typename T, typename C = deque<T>> class queue { protected: C c; public: typedef T value_type; bool empty() const { return c.empty(); } size_t size() const { return c.size(); } T& front() { return c.front(); } T& back() { return c.back(); } void push(T&& x) { c.push_back(std::move(x)); } template <typename U> void emplace(U&& x) { c.emplace_back(std::forward<U>(x)); } void pop() { c.pop_front(); } void swap(queue& o) noexcept { c.swap(o.c); } };
}
// <iostream>
namespace pstd { struct ostream { ostream& operator<<(const char*) { return *this; } ostream& operator<<(unsigned long v) { ev_print(v); return *this; } ostream& operator<<(long v) { ev_print(v); return *this; } ostream& operator<<(int v) { ev_print(v); return *this; } ostream& operator<<(unsigned v) { ev_print(v); return *this; } ostream& operator<<(char) { return *this; } ostream& operator<<(double) { return *this; } ostream& operator<<(ostream& (*)(ostream&)) { return *this; } }; extern ostream cout, cerr; inline ostream& endl(ostream& o) { return o; } }
#define std pstd
