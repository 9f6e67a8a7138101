// std::thread as the multi-threaded prover sees it: the bodies are run by the harness's scheduler
// (para_sched.h), one at a time, in the schedule being explored.  Forced in by -include.
#pragma once
#include <bits/stdc++.h>
namespace sched { int fork(std::function<void()> f); void join(int id); }
namespace std {
class vf_thread {
  int id_;
public:
  typedef int id; typedef int native_handle_type;
  vf_thread() noexcept : id_(-1) {}
  template <class F, class... A> explicit vf_thread(F &&f, A &&...a) { auto t = std::make_tuple(std::decay_t<F>(std::forward<F>(f)), std::decay_t<A>(std::forward<A>(a))...); id_ = sched::fork([t]() mutable { std::apply([](auto &&g, auto &&...x) { std::invoke(std::move(g), std::move(x)...); }, t); }); }
  vf_thread(const vf_thread &) = delete;
  vf_thread(vf_thread &&o) noexcept : id_(o.id_) { o.id_ = -1; }
  vf_thread &operator=(vf_thread &&o) noexcept { if (id_ >= 0) std::terminate(); id_ = o.id_; o.id_ = -1; return *this; }
  ~vf_thread() { if (id_ >= 0) std::terminate(); }
  bool joinable() const noexcept { return id_ >= 0; }
  void join() { if (id_ < 0) throw std::system_error(std::make_error_code(std::errc::invalid_argument)); sched::join(id_); id_ = -1; }
  void detach() { if (id_ < 0) throw std::system_error(std::make_error_code(std::errc::invalid_argument)); id_ = -1; }
  void swap(vf_thread &o) noexcept { std::swap(id_, o.id_); }
  static unsigned hardware_concurrency() noexcept { return 4; }
};
}
#define thread vf_thread
