// clock and signals: real time is replaced by a generated one (built without sanitizers so that clock_gettime can be replaced)
#include "vp.hpp"
#include <time.h>
#include <sys/time.h>
#include <triqs/utility/callbacks.hpp>
#include <triqs/utility/signal_handler.hpp>
#include <triqs/utility/timer.hpp>
#include <sys/syscall.h>
static bool fake = false; static long long now_ns = 0;
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept { if (!fake) return int(syscall(SYS_clock_gettime, c, t)); t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
extern "C" time_t time(time_t *t) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
extern "C" int gettimeofday(struct timeval *v, void *) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); v->tv_sec = s.tv_sec; v->tv_usec = s.tv_nsec / 1000; return 0; }
struct Fake { Fake(long long t) { now_ns = t; fake = true; } ~Fake() { fake = false; } };

VP_TEST(clock_callback) {
  Fake f(1700000000000000000ll + s.integer(0, 1000000)); int n = int(s.integer(1, 4)); std::vector<std::pair<std::function<bool()>, long long>> cb; long long ns = 1000000000;
  for (int i = 0; i < n; ++i) { long sec = s.integer(-2, 5000); if (s.chance(1, 8)) sec = s.pick<long>({100000, 2147483, 2147484, 10000000, 2147483647}); s.say("callback ", sec); cb.emplace_back(triqs::utility::clock_callback(int(sec)), sec <= 0 ? -1 : now_ns + sec * ns); now_ns += s.integer(0, 3) * ns; }
  int steps = int(s.integer(1, 6));
  for (int i = 0; i < steps; ++i) {
    auto &[c, e] = cb[s.raw(n - 1)];
    if (s.boolean() && e > now_ns) now_ns = e + s.pick<long long>({-ns, -1000, 1000, ns}); else now_ns += s.integer(0, 2000) * ns / 7;
    for (auto &[g, end] : cb) { if (end == now_ns) continue; bool w = end >= 0 && now_ns > end; VP_REQUIRE(g() == w, "the stop callback returns ", !w, " at ", (now_ns - end) * 1e-9, " s from its deadline"); auto h = g; VP_REQUIRE(h() == w, "a copy agrees"); }
  }
  s.nontrivial(n > 1 && steps > 1);
}
VP_TEST(timer) {
  Fake f(1700000000000000000ll); triqs::utility::timer t; long long acc = 0, st = 0; bool run = false; int n = int(s.integer(1, 12));
  for (int i = 0; i < n; ++i) {
    now_ns += s.integer(0, 5000) * 1000003;
    if (s.boolean()) { if (run) { t.stop(); acc += now_ns - st; run = false; s.say("stop"); } else { t.start(); st = now_ns; run = true; s.say("start"); } }
    VP_REQUIRE(t.is_running() == run, "is_running"); double w = 1e-9 * (acc + (run ? now_ns - st : 0)); VP_REQUIRE(std::abs(double(t) - w) < 1e-6, "elapsed time: got ", double(t), " want ", w);
    auto u = t; VP_REQUIRE(double(u) == double(t), "copy");
  }
  s.nontrivial(n > 4);
}
VP_TEST(signals) {
  namespace H = triqs::signal_handler; H::start(); std::vector<int> m; std::vector<int> const S{SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2}; int n = int(s.integer(1, 15)); int seen = 0;
  for (int i = 0; i < n; ++i) {
    switch (s.raw(5)) {
      case 0: case 1: { int g = S[s.raw(S.size() - 1)]; s.say("raise ", g); if (s.boolean()) ::raise(g); else ::kill(getpid(), g); m.push_back(g); ++seen; break; }
      case 2: { bool p = s.boolean(); s.say("received ", p); VP_REQUIRE(H::received(p) == !m.empty(), "received: expected ", !m.empty()); if (p && !m.empty()) m.pop_back(); break; }
      case 3: if (!m.empty()) { s.say("pop"); H::pop(); m.pop_back(); } break;
      case 4: if (s.boolean()) { s.say("start"); H::start(); } else { s.say("restart"); H::stop(); VP_REQUIRE(!H::received(), "nothing received after stop"); H::start(); m.clear(); } break;
      default: if (!m.empty()) { s.say("last"); VP_REQUIRE(H::last() == m.back(), "last signal: got ", H::last(), " want ", m.back()); }
    }
    VP_REQUIRE(H::received() == !m.empty(), "a signal was ", m.empty() ? "not " : "", "received");
  }
  s.nontrivial(seen > 1);
  H::stop();
}
