// Host-executing stand-in for the part of SYCL 2020 that votess uses.
//
// The sandbox has no device compiler, so with the real runtime the device
// kernels of votess are type checked but can never be launched.  This header
// runs them on the host instead, as ordinary C++ that every compiler sanitizer
// can see, and it watches what a real device would leave undefined:
//   * every accessor element access is bounds checked (a violation is recorded
//     and the process aborts with a SHIM-OOB line);
//   * buffers without host data and no_init accessors start out filled with a
//     poison pattern, so reading an element nobody wrote is visible;
//   * an nd_range whose global size is not a multiple of the local size throws
//     sycl::exception, as SYCL 2020 section 4.9.4.2 demands;
//   * local memory is allocated per work group and poisoned for each group.
// Work groups are spread over VT_SHIM_THREADS host threads (default 1) and, when
// item_threads() is set, the items of a group over several threads as well, so
// that memory shared by mistake between items gives wrong results and the
// thread sanitizer can see the race.  Nothing here synchronises two items.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef VT_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace vtshim {
struct counters {
  std::atomic<unsigned long long> accesses{0}, kernels{0}, items{0}, groups{0},
      buffers{0}, local_accesses{0}, empty_launches{0};
};
inline counters& stats() { static counters c; return c; }
inline int& gpu_count() { static int n = 1; return n; }
inline int& threads() {
  static int n = [] { const char* e = std::getenv("VT_SHIM_THREADS"); return e ? std::atoi(e) : 1; }();
  return n;
}
inline int& item_threads() { static int n = 1; return n; }   // threads per work group
inline size_t& slot() { static thread_local size_t s = 0; return s; }   // which block of local memory
inline unsigned& poison() { static unsigned p = 0xA5u; return p; }
[[noreturn]] inline void oob(const char* what, size_t idx, size_t size) {
  std::fprintf(stderr, "SHIM-OOB %s index=%zu size=%zu\n", what, idx, size);
  std::fflush(stderr);
  std::abort();
}
}

namespace sycl {

enum class errc { success = 0, runtime, kernel, accessor, nd_range, invalid, memory_allocation };
class exception : public std::runtime_error {
 public:
  explicit exception(const std::string& s, errc c = errc::runtime) : std::runtime_error(s), c_(c) {}
  exception(errc c, const std::string& s = "") : std::runtime_error(s), c_(c) {}
  errc shim_code() const { return c_; }
 private:
  errc c_;
};

namespace access {
enum class mode { read = 1024, write, read_write, discard_write, discard_read_write, atomic };
enum class target { device = 2014, global_buffer = 2014, host_buffer = 2018, local = 2016, host_task = 2021 };
enum class placeholder { false_t, true_t };
enum class fence_space { local_space, global_space, global_and_local };
enum class address_space { global_space, local_space, private_space, generic_space };
}
using access_mode = access::mode;
using target = access::target;

namespace property {
struct no_init {};
}
struct property_list { template <class... P> property_list(P...) {} };
inline constexpr property::no_init no_init{};

template <access::mode M> struct mode_tag_t { explicit mode_tag_t() = default; };
inline constexpr mode_tag_t<access::mode::read> read_only{};
inline constexpr mode_tag_t<access::mode::write> write_only{};
inline constexpr mode_tag_t<access::mode::read_write> read_write{};

template <int D = 1> class range;
template <> class range<1> {
 public:
  range(size_t n = 0) : n_(n) {}
  size_t size() const { return n_; }
  size_t get(int) const { return n_; }
  size_t operator[](int) const { return n_; }
  operator size_t() const { return n_; }
 private:
  size_t n_;
};
range(size_t) -> range<1>;

template <int D = 1> class id;
template <> class id<1> {
 public:
  id(size_t n = 0) : n_(n) {}
  size_t get(int) const { return n_; }
  size_t operator[](int) const { return n_; }
  operator size_t() const { return n_; }
 private:
  size_t n_;
};

template <int D = 1> class item;
template <> class item<1> {
 public:
  item(size_t i, size_t n) : i_(i), n_(n) {}
  id<1> get_id() const { return id<1>(i_); }
  size_t get_id(int) const { return i_; }
  size_t get_linear_id() const { return i_; }
  size_t operator[](int) const { return i_; }
  range<1> get_range() const { return range<1>(n_); }
  operator id<1>() const { return id<1>(i_); }
  operator size_t() const { return i_; }
 private:
  size_t i_, n_;
};

template <int D = 1> class nd_range;
template <> class nd_range<1> {
 public:
  nd_range(range<1> g, range<1> l) : g_(g), l_(l) {}
  range<1> get_global_range() const { return g_; }
  range<1> get_local_range() const { return l_; }
 private:
  range<1> g_, l_;
};
nd_range(range<1>, range<1>) -> nd_range<1>;

template <int D = 1> class nd_item;
template <> class nd_item<1> {
 public:
  nd_item(size_t g, size_t l, size_t grp, size_t gn, size_t ln) : g_(g), l_(l), grp_(grp), gn_(gn), ln_(ln) {}
  size_t get_global_linear_id() const { return g_; }
  size_t get_local_linear_id() const { return l_; }
  size_t get_global_id(int) const { return g_; }
  size_t get_local_id(int) const { return l_; }
  id<1> get_global_id() const { return id<1>(g_); }
  id<1> get_local_id() const { return id<1>(l_); }
  size_t get_group(int) const { return grp_; }
  size_t get_group_linear_id() const { return grp_; }
  size_t get_global_range(int) const { return gn_; }
  range<1> get_global_range() const { return range<1>(gn_); }
  size_t get_local_range(int) const { return ln_; }
  range<1> get_local_range() const { return range<1>(ln_); }
 private:
  size_t g_, l_, grp_, gn_, ln_;
};

namespace detail {
template <class T> struct storage {
  std::unique_ptr<T[]> owned;
  T* data = nullptr;
  size_t n = 0;
  T* writeback = nullptr;
  ~storage() {
    if (writeback && owned) std::copy(data, data + n, writeback);
  }
};
template <class T> void poison_fill(T* p, size_t n) {
  if (n) std::memset(static_cast<void*>(p), static_cast<int>(vtshim::poison()), n * sizeof(T));
#ifdef VT_VALGRIND
  if (n) VALGRIND_MAKE_MEM_UNDEFINED(p, n * sizeof(T));
#endif
}
}

template <class T, int D = 1, access::mode M = access::mode::read_write> class host_accessor;

template <class T, int D = 1, class A = void> class buffer;
template <class T, class A> class buffer<T, 1, A> {
 public:
  using value_type = T;
  explicit buffer(const range<1>& r) : s_(std::make_shared<detail::storage<T>>()) {
    init(r.size());
    detail::poison_fill(s_->data, s_->n);
  }
  buffer(T* host, const range<1>& r) : s_(std::make_shared<detail::storage<T>>()) {
    init(r.size());
    std::copy(host, host + r.size(), s_->data);
    s_->writeback = host;
  }
  buffer(const T* host, const range<1>& r) : s_(std::make_shared<detail::storage<T>>()) {
    init(r.size());
    std::copy(host, host + r.size(), s_->data);
  }
  template <class It, class = decltype(*std::declval<It>())>
  buffer(It b, It e) : s_(std::make_shared<detail::storage<T>>()) {
    init(static_cast<size_t>(std::distance(b, e)));
    std::copy(b, e, s_->data);
  }
  size_t size() const { return s_->n; }
  size_t get_count() const { return s_->n; }
  size_t byte_size() const { return s_->n * sizeof(T); }
  range<1> get_range() const { return range<1>(s_->n); }
  host_accessor<T, 1> get_host_access();
  template <class Tag> host_accessor<T, 1> get_host_access(Tag);
  std::shared_ptr<detail::storage<T>> shim_storage() const { return s_; }
  template <access::mode M2, class H> auto get_access(H& h);
 private:
  void init(size_t n) {
    vtshim::stats().buffers++;
    s_->n = n;
    s_->owned.reset(new T[n ? n : 1]());
    s_->data = s_->owned.get();
  }
  std::shared_ptr<detail::storage<T>> s_;
};
template <class T> buffer(T*, range<1>) -> buffer<T, 1>;
template <class T> buffer(const T*, range<1>) -> buffer<T, 1>;

template <class T, int D, access::mode M> class host_accessor {
 public:
  using iterator = T*;
  explicit host_accessor(std::shared_ptr<detail::storage<T>> s) : s_(std::move(s)) {}
  template <class A, class... R> host_accessor(const buffer<T, 1, A>& b, R...) : s_(b.shim_storage()) {}
  T* begin() const { return s_->data; }
  T* end() const { return s_->data + s_->n; }
  size_t size() const { return s_->n; }
  T& operator[](size_t i) const {
    if (i >= s_->n) vtshim::oob("host_accessor", i, s_->n);
    return s_->data[i];
  }
  T* get_pointer() const { return s_->data; }
 private:
  std::shared_ptr<detail::storage<T>> s_;
};
template <class T, class A, class... R> host_accessor(const buffer<T, 1, A>&, R...) -> host_accessor<T, 1>;
template <class T, class A> host_accessor<T, 1> buffer<T, 1, A>::get_host_access() { return host_accessor<T, 1>(s_); }
template <class T, class A> template <class Tag>
host_accessor<T, 1> buffer<T, 1, A>::get_host_access(Tag) { return host_accessor<T, 1>(s_); }

class handler;

template <class T, int D = 1, access::mode M = access::mode::read_write,
          access::target G = access::target::device,
          access::placeholder P = access::placeholder::false_t>
class accessor {
 public:
  using reference = std::conditional_t<M == access::mode::read, const T&, T&>;
  template <class A> accessor(buffer<T, 1, A>& b, handler&) { bind(b, false); }
  template <class A> accessor(buffer<T, 1, A>& b, handler&, mode_tag_t<M>) { bind(b, false); }
  template <class A> accessor(buffer<T, 1, A>& b, handler&, mode_tag_t<M>, property::no_init) { bind(b, true); }
  template <class A> accessor(buffer<T, 1, A>& b, handler&, property::no_init) { bind(b, true); }
  template <class A> accessor(buffer<T, 1, A>& b, handler&, mode_tag_t<M>, property_list) { bind(b, false); }
  template <class A> explicit accessor(buffer<T, 1, A>& b) { bind(b, false); }
  reference operator[](size_t i) const {
    vtshim::stats().accesses.fetch_add(1, std::memory_order_relaxed);
    if (i >= n_) vtshim::oob("accessor", i, n_);
    return p_[i];
  }
  size_t size() const { return n_; }
  size_t get_count() const { return n_; }
  range<1> get_range() const { return range<1>(n_); }
  T* get_pointer() const { return p_; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
 private:
  template <class A> void bind(buffer<T, 1, A>& b, bool no_init_requested) {
    s_ = b.shim_storage();
    p_ = s_->data;
    n_ = s_->n;
    // no_init promises the old contents are not needed: discard them only when
    // the buffer was never written (poison is already there); real devices may
    // keep or drop the contents.
    (void)no_init_requested;
  }
  std::shared_ptr<detail::storage<T>> s_;
  T* p_ = nullptr;
  size_t n_ = 0;
};
template <class T, class A> accessor(buffer<T, 1, A>&, handler&) -> accessor<T, 1>;
template <class T, class A, access::mode M> accessor(buffer<T, 1, A>&, handler&, mode_tag_t<M>) -> accessor<T, 1, M>;
template <class T, class A, access::mode M, class X> accessor(buffer<T, 1, A>&, handler&, mode_tag_t<M>, X) -> accessor<T, 1, M>;

namespace detail {
// one block of local memory per work group being executed
struct local_base {
  virtual ~local_base() = default;
  virtual void prepare(size_t slots) = 0;
  virtual void fresh() = 0;
};
template <class T> struct local_storage : local_base {
  explicit local_storage(size_t n) : n(n) {}
  size_t n;
  std::vector<std::unique_ptr<T[]>> blocks;
  void prepare(size_t slots) override {
    while (blocks.size() < slots) blocks.push_back(std::unique_ptr<T[]>(new T[n ? n : 1]()));
  }
  T* mine() { return blocks[vtshim::slot()].get(); }
  void fresh() override { poison_fill(mine(), n); }
};
}

template <class T, int D = 1> class local_accessor {
 public:
  local_accessor(range<1> r, handler& h);
  T& operator[](size_t i) const {
    vtshim::stats().local_accesses.fetch_add(1, std::memory_order_relaxed);
    if (i >= s_->n) vtshim::oob("local_accessor", i, s_->n);
    return s_->mine()[i];
  }
  size_t size() const { return s_->n; }
 private:
  std::shared_ptr<detail::local_storage<T>> s_;
};

class handler {
 public:
  template <class Name = void, class F> void parallel_for(range<1> r, F f) {
    const size_t n = r.size();
    vtshim::stats().kernels++;
    run_groups(n, [&](size_t i) {
      vtshim::stats().items.fetch_add(1, std::memory_order_relaxed);
      if constexpr (std::is_invocable_v<F, item<1>>) f(item<1>(i, n)); else f(id<1>(i));
    });
  }
  template <class Name = void, class F> void parallel_for(nd_range<1> r, F f) {
    const size_t g = r.get_global_range().size(), l = r.get_local_range().size();
    if (l == 0) throw exception(errc::nd_range, "local range is zero");
    if (g % l != 0) throw exception(errc::nd_range, "global size is not a multiple of the local size");
    vtshim::stats().kernels++;
    if (g == 0) vtshim::stats().empty_launches++;
    run_groups(g / l, [&](size_t grp) {
      vtshim::stats().groups.fetch_add(1, std::memory_order_relaxed);
      for (auto& m : locals_) m->fresh();
      const size_t it = std::min(l, static_cast<size_t>(std::max(1, vtshim::item_threads())));
      auto items = [&](size_t first) {
        for (size_t i = first; i < l; i += it) {
          vtshim::stats().items.fetch_add(1, std::memory_order_relaxed);
          f(nd_item<1>(grp * l + i, i, grp, g, l));
        }
      };
      if (it == 1) { items(0); return; }
      const size_t slot = vtshim::slot();
      std::atomic<size_t> ready{0};
      std::vector<std::thread> ts;
      for (size_t t = 0; t < it; t++)
        ts.emplace_back([&, t] {
          vtshim::slot() = slot;
          ready.fetch_add(1, std::memory_order_relaxed);
          while (ready.load(std::memory_order_relaxed) < it) std::this_thread::yield();
          items(t);
        });
      for (auto& t : ts) t.join();
    });
  }
  template <class Name = void, class F> void single_task(F f) { vtshim::stats().kernels++; f(); }
  void shim_add_local(std::shared_ptr<detail::local_base> m) { locals_.push_back(std::move(m)); }
 private:
  template <class F> void run_groups(size_t n, F f) {
    const size_t nt = vtshim::threads() > 1 ? static_cast<size_t>(vtshim::threads()) : 1;
    for (auto& m : locals_) m->prepare(nt);
    if (nt == 1 || n < 2) { vtshim::slot() = 0; for (size_t i = 0; i < n; i++) f(i); return; }
    std::atomic<size_t> next{0};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++)
      ts.emplace_back([&, t] { vtshim::slot() = t; for (size_t i; (i = next.fetch_add(1)) < n;) f(i); });
    for (auto& t : ts) t.join();
  }
  std::vector<std::shared_ptr<detail::local_base>> locals_;
};
template <class T, int D>
local_accessor<T, D>::local_accessor(range<1> r, handler& h)
    : s_(std::make_shared<detail::local_storage<T>>(r.size())) { h.shim_add_local(s_); }

template <class T, class A> template <access::mode M2, class H>
auto buffer<T, 1, A>::get_access(H& h) { return accessor<T, 1, M2>(*this, h); }

namespace info {
enum class device_type { cpu, gpu, accelerator, custom, automatic, host, all };
namespace device {
struct name { using type = std::string; };
struct vendor { using type = std::string; };
struct version { using type = std::string; };
struct driver_version { using type = std::string; };
struct max_work_group_size { using type = size_t; };
struct preferred_vector_width_double { using type = uint32_t; };
struct max_compute_units { using type = uint32_t; };
struct max_mem_alloc_size { using type = uint64_t; };
struct global_mem_size { using type = uint64_t; };
struct local_mem_size { using type = uint64_t; };
}
}
enum class aspect { cpu, gpu, fp64, fp16 };

class device {
 public:
  bool is_cpu() const { return vtshim::gpu_count() == 0; }
  bool is_gpu() const { return vtshim::gpu_count() != 0; }
  bool has(aspect) const { return true; }
  template <class P> typename P::type get_info() const {
    if constexpr (std::is_same_v<typename P::type, std::string>) return "host stand-in";
    else return static_cast<typename P::type>(1) << 12;
  }
  static std::vector<device> get_devices(info::device_type t = info::device_type::all) {
    if (t == info::device_type::gpu) return std::vector<device>(static_cast<size_t>(vtshim::gpu_count()));
    return std::vector<device>(1);
  }
};
struct default_selector {};
struct gpu_selector {};
struct cpu_selector {};
inline int default_selector_v(const device&) { return 1; }
inline int gpu_selector_v(const device& d) { return d.is_gpu() ? 1 : -1; }
inline int cpu_selector_v(const device& d) { return d.is_cpu() ? 1 : -1; }

class event { public: void wait() {} void wait_and_throw() {} };

class queue {
 public:
  queue() = default;
  template <class S, class = std::enable_if_t<!std::is_same_v<std::decay_t<S>, queue>>> explicit queue(const S&) {}
  device get_device() const { return device(); }
  template <class F> event submit(F f) { handler h; f(h); return event(); }
  void wait() {}
  void wait_and_throw() {}
};

#define VT_SHIM_UN(fn) template <class T> inline T fn(T x) { return std::fn(x); }
VT_SHIM_UN(trunc) VT_SHIM_UN(floor) VT_SHIM_UN(ceil) VT_SHIM_UN(round) VT_SHIM_UN(fabs)
VT_SHIM_UN(sqrt) VT_SHIM_UN(isnan) VT_SHIM_UN(isinf) VT_SHIM_UN(isfinite)
#undef VT_SHIM_UN
template <class A, class B> inline auto fmod(A a, B b) { return std::fmod(a, static_cast<A>(b)); }
template <class T> inline T fmin(T a, T b) { return std::fmin(a, b); }
template <class T> inline T fmax(T a, T b) { return std::fmax(a, b); }
template <class T> inline T min(T a, T b) { return b < a ? b : a; }
template <class T> inline T max(T a, T b) { return a < b ? b : a; }
template <class T> inline T clamp(T x, T a, T b) { return min(max(x, a), b); }
template <class T> inline T abs(T x) { return x < T(0) ? -x : x; }
template <class T> inline T fma(T a, T b, T c) { return std::fma(a, b, c); }
template <class T> inline T mad(T a, T b, T c) { return a * b + c; }
template <class T> inline T pow(T a, T b) { return std::pow(a, b); }

}  // namespace sycl
namespace cl { namespace sycl { using namespace ::sycl; } }
