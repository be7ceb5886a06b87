// the Monte Carlo loop: histories of moves, measurements, stops, signals and faults
#include "vp.hpp"
#include <atomic>
#include <iomanip>
#include <thread>
#include <mutex>
#include <triqs/mc_tools/mc_generic.hpp>
using dc = std::complex<double>; namespace mc = triqs::mc_tools;
// stand-in for the signal handler, which delivers a signal at a chosen check (the real one is the subject of another property)
static thread_local long sig_at = -1, sig_checks = 0, sig_active = 0, sig_started = 0;
namespace triqs::signal_handler {
  void start() { ++sig_started; sig_active = 1; }
  void stop() { sig_active = 0; sig_at = -1; }
  bool received(bool) { return sig_at >= 0 && sig_checks++ >= sig_at; }
  int last() { return 2; }
  void pop() {}
}
enum Kind { ATT, ACC, REJ, DUTY, AUX, MEAS, STOP, COLL, MCOLL, THROW };
struct Ev { Kind k; int id; dc x; };
struct Log { std::vector<Ev> e; long throw_at = -1; std::vector<std::vector<dc>> ratios, acc; std::vector<size_t> pos; bool finite_only = false; std::map<int, long> mstate, xstate; // what moves and measures keep in files
 
  void ev(Kind k, int id, dc x = 0) { if (long(e.size()) == throw_at) { e.push_back({THROW, id, 0}); throw std::runtime_error("injected fault"); } e.push_back({k, id, x}); } };
template <typename S> S as(dc x) { if constexpr (std::is_same_v<S, double>) return x.real(); else return x; }
template <typename S> struct Move { Log *l; int id; Move(Log *l, int id) : l(l), id(id) {} Move(Move &&) = default; // moves need not be copyable
  S attempt() { auto r = l->ratios[id][l->pos[id] % l->ratios[id].size()]; l->ev(ATT, id, r); return as<S>(r); }
  S accept() { auto r = l->acc[id][l->pos[id]++ % l->acc[id].size()]; l->ev(ACC, id, r); return as<S>(r); }
  void reject() { l->pos[id]++; l->ev(REJ, id); }
  void collect_statistics(mpi::communicator) { l->ev(COLL, id); }
  friend void h5_write(h5::group g, std::string const &n, Move const &m) { h5::h5_write(g, n, m.l->mstate[m.id]); }
  friend void h5_read(h5::group g, std::string const &n, Move &m) { h5::h5_read(g, n, m.l->mstate[m.id]); } };
template <typename S> struct Measure { Log *l; int id; void accumulate(S s) { l->ev(MEAS, id, s); } void collect_results(mpi::communicator c) { l->ev(MCOLL, id, dc(c.rank(), c.size())); } std::string report() const { return "report " + std::to_string(id); }
  friend void h5_write(h5::group g, std::string const &n, Measure const &m) { h5::h5_write(g, n, m.l->xstate[m.id]); }
  friend void h5_read(h5::group g, std::string const &n, Measure &m) { h5::h5_read(g, n, m.l->xstate[m.id]); } };
struct Aux { Log *l; int id; void operator()() { l->ev(AUX, id); } };
template <typename S> struct Sim { // a random set of moves and measures
  Log log; mc::mc_generic<S> m; int nm = 0, nk = 0, na = 0; std::vector<double> prob; std::vector<std::string> names; std::map<std::string, std::vector<int>> members; bool duty = false; std::vector<int> alive; std::vector<std::string> mnames; double total = 0;
  Sim(vp::Src &s, bool special) : m(s.pick<std::string>({"", "mt19937", "ranlux3"}), int(s.raw(100000)), 0, true) {
    log.e.reserve(64); auto ratio = [&]() -> dc { switch (s.raw(special ? 7 : 4)) { case 0: return 1; case 1: return s.generic(-1, 1); case 2: return 0; case 3: return s.generic(-3, 3); case 4: return std::is_same_v<S, double> ? dc(INFINITY) : dc(2); case 5: return std::is_same_v<S, double> ? dc(-INFINITY) : dc(0, 2); case 6: return 1e-13; default: return std::is_same_v<S, double> ? dc(-1) : std::polar(s.generic(0, 2), s.generic(0, 6)); } };
    auto one = [&] { std::vector<dc> r, a; int k = int(s.integer(1, 4)); for (int i = 0; i < k; ++i) { r.push_back(ratio()); a.push_back(s.boolean() ? 1 : std::is_same_v<S, double> || s.boolean() ? -1 : 0); if (a.back() == 0.) a.back() = dc(0, 1); } log.ratios.push_back(r); log.acc.push_back(a); log.pos.push_back(0); return nm++; };
    int top = int(s.integer(1, 4)); std::function<void(mc::move_set<S> *, std::string, double, int)> add = [&](mc::move_set<S> *to, std::string nm, double p, int depth) { // p: share of the parent
      double w = s.pick({1., 1., 0.5, 3., 1e-3, 20.}); (void)w; int id = one(); prob.push_back(p); names.push_back(nm); members[nm] = {id}; if (to) to->add(Move<S>(&log, id), nm, p); else m.add_move(Move<S>(&log, id), nm, p); };
    std::vector<double> w; for (int t = 0; t < top; ++t) { w.push_back(s.pick({1., 1., 0.5, 3., 0.01, 20.})); total += w.back(); }
    for (int t = 0; t < top; ++t) {
      std::string nm = "m" + std::to_string(t);
      if (s.chance(1, 4)) { mc::move_set<S> ms(m.get_rng()); int k = int(s.integer(1, 3)); double tot = 0; std::vector<double> v; for (int i = 0; i < k; ++i) { v.push_back(s.pick({1., 2., 0.25})); tot += v.back(); } int first = this->nm; for (int i = 0; i < k; ++i) { add(&ms, nm + "." + std::to_string(i), v[i], 1); prob.back() = w[t] / total * v[i] / tot; } m.add_move(std::move(ms), nm, w[t]); names.push_back(nm); for (int i = first; i < this->nm; ++i) members[nm].push_back(i); }
      else { add(nullptr, nm, w[t], 0); prob.back() = w[t] / total; } }
    int k = int(s.integer(0, 3)); std::vector<typename mc::measure_set<S>::measure_itr_t> it; for (int i = 0; i < k; ++i) { mnames.push_back("x" + std::to_string(i)); it.push_back(m.add_measure(Measure<S>{&log, nk}, mnames.back(), s.boolean(), s.boolean())); alive.push_back(nk++); }
    if (k > 0) VP_REQUIRE(vp::throws([&] { m.add_measure(Measure<S>{&log, 77}, mnames[s.raw(k - 1)]); }), "two measures with one name are accepted");
    if (k > 0 && s.chance(1, 4)) { int x = int(s.raw(k - 1)); m.rm_measure(it[x]); alive.erase(alive.begin() + x); } else if (s.chance(1, 8)) { m.clear_measures(); alive.clear(); }
    if (s.chance(1, 3)) { m.add_measure_aux(std::make_shared<Aux>(Aux{&log, 0})); na = 1; }
    if (s.boolean()) { duty = true; m.set_after_cycle_duty([this] { log.ev(DUTY, 0); }); }
  }
};
// checks the history of one run, which starts with the given sign; returns the number of complete cycles
template <typename S> struct Hist { long cycles = 0, attempts = 0, measured = 0; bool faulted = false, cut = false; std::vector<long> prop, acc; };
template <typename S> Hist<S> history(Sim<S> &q, size_t from, long length, bool measure, dc &sign) {
  Hist<S> h; h.prop.assign(q.nm, 0); h.acc.assign(q.nm, 0); auto const &e = q.log.e; size_t i = from;
  auto is = [&](Kind k) { return i < e.size() && e[i].k == k; };
  while (i < e.size()) {
    bool whole = true;
    for (long k = 0; k < length; ++k) {
      if (is(THROW)) { h.faulted = true; whole = false; break; }
      if (is(STOP)) { whole = false; break; } // a signal: the cycle is given up
      VP_REQUIRE(is(ATT), "a cycle of ", length, " moves has only ", k); int id = e[i].id; dc r = e[i].x; ++h.attempts; ++h.prop[id]; ++i; if (is(THROW)) { h.faulted = true; whole = false; break; }
      VP_REQUIRE((is(ACC) || is(REJ)) && e[i].id == id, "a move is neither accepted nor rejected, or another one is"); double a = std::abs(r);
      if (is(ACC)) { VP_REQUIRE(a > 0, "a move of weight 0 is accepted"); ++h.acc[id]; sign *= (std::isinf(a) ? dc(r.real() > 0 ? 1 : -1) : r / a) * e[i].x; } else VP_REQUIRE(a < 1, "a move of ratio ", a, " is rejected");
      ++i;
    }
    if (h.faulted) { ++i; VP_REQUIRE(is(STOP) || i == e.size(), "the run goes on after a fault"); if (is(STOP)) ++i; VP_REQUIRE(i == e.size(), "the run goes on after a fault"); return h; }
    if (whole) {
      auto fault = [&] { if (is(THROW)) h.faulted = true; return h.faulted; };
      do {
        if (fault()) break; if (q.duty) { VP_REQUIRE(is(DUTY), "the function after a cycle is not called"); ++i; } if (fault()) break;
        if (measure) { ++h.measured; if (q.na) { VP_REQUIRE(is(AUX), "the common part of the measures is not called"); ++i; } if (fault()) break; std::set<int> seen; for (size_t k = 0; k < q.alive.size(); ++k) { if (fault()) break; VP_REQUIRE(is(MEAS), "a measure is missing"); VP_REQUIRE(seen.insert(e[i].id).second && std::count(q.alive.begin(), q.alive.end(), e[i].id), "a measure is called twice or has been removed"); VP_REQUIRE(std::abs(e[i].x - sign) < 1e-9, "sign given to a measure is ", e[i].x, " want ", sign); ++i; } }
      } while (false);
      if (h.faulted) { ++i; if (is(STOP)) ++i; VP_REQUIRE(i == e.size(), "the run goes on after a fault"); return h; }
      ++h.cycles;
    } else h.cut = true;
    VP_REQUIRE(is(STOP), "the stop function is not called after a cycle"); ++i;
    if (h.cut) VP_REQUIRE(i == e.size(), "the run goes on after a signal");
  }
  return h;
}
template <typename S> void loop(vp::Src &s) {
  Sim<S> q(s, true); mpi::has_env = s.boolean(); struct Env { ~Env() { mpi::has_env = false; sig_at = -1; } } env; dc sign = 1; long cyc_total = 0; int runs = int(s.integer(1, 3)); bool nt = false, clean = true; long attempts = 0, last_meas = 0; Hist<S> last; bool faulted = false, warmed = false, measured_ = false; auto begun = std::chrono::steady_clock::now(); s.say("moves ", q.nm, " measures ", q.alive.size());
  // every exception is reported on the error stream
  std::ostringstream err; auto *old = std::cerr.rdbuf(err.rdbuf()); struct Back { std::streambuf *o; ~Back() { std::cerr.rdbuf(o); } } back{old};
  for (int r = 0; r < runs && !faulted; ++r) {
    bool measure = s.boolean(); long n = s.chance(1, 6) ? 0 : s.chance(1, 6) ? -1 : s.integer(1, 12), len = s.integer(1, 6), stop_at = n < 0 || s.chance(1, 4) ? s.integer(1, 10) : -1; size_t from = q.log.e.size(); long calls = 0;
    q.log.throw_at = s.chance(1, 5) ? long(from) + s.integer(0, 60) : -1; sig_at = s.chance(1, 5) ? s.integer(0, 40) : -1; sig_checks = 0; long sig = sig_at; s.say(measure ? "accumulate" : "warmup", " n=", n, " len=", len, " stop at ", stop_at, " fault at ", q.log.throw_at - long(from), " signal at ", sig);
    auto cb = [&] { q.log.e.push_back({STOP, 0, 0}); return ++calls == stop_at; }; int status = -1; bool threw = false; double other = measure ? q.m.get_warmup_time() : q.m.get_accumulation_time(); (measure ? measured_ : warmed) = true;
    try { if (s.chance(1, 3)) { auto s0 = s.chance(1, 2) ? S(-1) : S(1); if (!measure) { sign = s0; status = q.m.warmup(n, len, cb, s0); } else status = q.m.accumulate(n, len, cb); } else if (s.boolean()) status = measure ? q.m.accumulate(n, len, cb) : q.m.warmup(n, len, cb); else status = q.m.run(n, len, cb, measure); }
    catch (triqs::runtime_error const &) { threw = true; }
    q.log.throw_at = -1; VP_REQUIRE((measure ? q.m.get_warmup_time() : q.m.get_accumulation_time()) == other, "the time of the other phase changes"); VP_REQUIRE(sig_active == 0, "the signal handler is left active"); bool got = sig >= 0 && sig_checks > sig; sig_at = -1;
    auto h = history<S>(q, from, len, measure, sign); last = h; attempts += h.attempts; nt = nt || h.cycles > 1; faulted = h.faulted;
    VP_REQUIRE(threw == h.faulted, h.faulted ? "a fault in a move or measure is not reported to the caller" : "an exception without a fault"); if (h.faulted) break;
    VP_REQUIRE(n < 0 || h.cycles <= n, h.cycles, " cycles of ", n); VP_REQUIRE(calls == h.cycles + h.cut, "calls of the stop function"); VP_REQUIRE(stop_at < 0 || calls <= stop_at, "the run goes on after the stop function asks to stop");
    bool finished = n >= 0 && h.cycles == n, cbstop = stop_at > 0 && calls >= stop_at; VP_REQUIRE(finished || cbstop || got, "the run ends after ", h.cycles, " cycles of ", n, " without a reason");
    if (finished) VP_REQUIRE(status == 0, "status ", status, " of a complete run"); else if (got && !cbstop) VP_REQUIRE(status == 2, "status ", status, " of a run stopped by a signal after ", h.cycles, " cycles of ", n); else if (cbstop && !got) VP_REQUIRE(status == 1, "status ", status, " of a run stopped by the stop function"); else VP_REQUIRE(status == 1 || status == 2, "status ", status);
    if (!h.cut) cyc_total += h.cycles; else clean = false; last_meas = h.measured; if (clean) VP_REQUIRE(q.m.get_current_cycle_number() == cyc_total, "cycles done ", q.m.get_current_cycle_number(), " want ", cyc_total); VP_REQUIRE(q.m.get_config_id() == attempts, "configurations visited ", q.m.get_config_id(), " want ", attempts);
    if (n > 0 && !h.cut) VP_REQUIRE(q.m.get_percent() == long(100 * h.cycles / n), "percent done ", q.m.get_percent(), " after ", h.cycles, " of ", n);
    if (n == 0) { double a = q.m.get_total_time(); auto t0 = std::chrono::steady_clock::now(); while (std::chrono::steady_clock::now() - t0 < std::chrono::microseconds(200)); VP_REQUIRE(q.m.get_total_time() == a, "the clock of an empty run is still running"); }
  }
  // the last run is timed phase by phase; the total is their sum, and no phase lasts longer than the test
  { double w = q.m.get_warmup_time(), ac = q.m.get_accumulation_time(), T = std::chrono::duration<double>(std::chrono::steady_clock::now() - begun).count(); VP_REQUIRE(w >= 0 && ac >= 0 && w < T + 1e-3 && ac < T + 1e-3, "phases of ", w, " and ", ac, " seconds in a test of ", T); VP_CLOSE(q.m.get_total_time(), w + ac, 1e-12, "total time"); VP_CLOSE(q.m.get_duration(), w + ac, 1e-12, "duration"); VP_REQUIRE(warmed || w == 0, "a warmup which was not run took ", w, " seconds"); VP_REQUIRE(measured_ || ac == 0, "an accumulation which was not run took ", ac, " seconds"); }
  if (!q.m.get_acceptance_rates().empty()) for (auto const &[nm, r] : q.m.get_acceptance_rates()) VP_REQUIRE(!(r >= 0), "acceptance rate ", r, " of ", nm, " before the statistics are collected");
  { for (int i = 0; i < q.nm; ++i) q.log.mstate[i] = 1000 + i; for (int i : q.alive) q.log.xstate[i] = 2000 + i; h5::file f{}; h5_write(f, "mc", q.m); auto s1 = q.log.mstate, s2 = q.log.xstate;
    if (!faulted) { for (auto &[i, x] : q.log.mstate) x = -1; for (auto &[i, x] : q.log.xstate) x = -1; auto cyc = q.m.get_current_cycle_number(); h5_read(f, "mc", q.m); VP_REQUIRE(q.log.mstate == s1, "what the moves keep in a file"); VP_REQUIRE(q.log.xstate == s2, "what the measures keep in a file"); VP_REQUIRE(q.m.get_current_cycle_number() == cyc, "cycles read back"); }
     long nm = -7, nc = -7; S sg; auto g = h5::group(f).open_group("mc"); h5_read(g, "number_measure_done", nm); h5_read(g, "number_cycle_done", nc); h5_read(g, "sign", sg); if (!faulted) { VP_REQUIRE(nm == last_meas, "measures done in the file ", nm, " want ", last_meas); if (clean) VP_REQUIRE(nc == cyc_total, "cycles done in the file"); VP_REQUIRE(std::abs(dc(sg) - sign) < 1e-9, "sign in the file");
      Sim<S> *q2 = nullptr; (void)q2; mc::mc_generic<S> m2("", 1, 0); h5_read(f, "mc", m2); VP_REQUIRE(m2.get_current_cycle_number() == q.m.get_current_cycle_number(), "cycles read from a file"); } }
  if (!faulted) { size_t from = q.log.e.size(); q.m.collect_results(mpi::communicator{}); auto ar = q.m.get_acceptance_rates(); std::map<int, int> c; for (size_t i = from; i < q.log.e.size(); ++i) { auto &e = q.log.e[i]; VP_REQUIRE(e.k == COLL || e.k == MCOLL, "event"); ++c[e.id + (e.k == MCOLL ? 1000 : 0)]; }
    for (int i = 0; i < q.nm; ++i) VP_REQUIRE(c[i] == 1, "statistics of move ", i, " collected ", c[i], " times"); for (int i : q.alive) VP_REQUIRE(c[1000 + i] == 1, "results of measure ", i, " collected ", c[1000 + i], " times"); VP_REQUIRE(ar.size() == q.names.size(), "names of the moves");
    for (auto &[nm, ids] : q.members) { long p = 0, a = 0; for (int i : ids) { p += last.prop[i]; a += last.acc[i]; } VP_REQUIRE(ar.count(nm), "move ", nm, " has no acceptance rate"); if (p) VP_CLOSE(ar[nm], double(a) / p, 1e-12, "acceptance rate of ", nm); } }
  if (!faulted && s.boolean()) { // a run resumed from a file goes on with the sign of the file
    h5::file f{}; h5_write(f, "mc", q.m); auto cb = [&] { q.log.e.push_back({STOP, 0, 0}); return false; }; q.m.warmup(0, 1, cb, S(-7)); h5_read(f, "mc", q.m); q.log.e.clear(); VP_REQUIRE(q.m.accumulate(2, 1, cb) == 0, "status of a resumed run"); auto h = history<S>(q, 0, 1, true, sign); VP_REQUIRE(h.cycles == 2, "cycles of a resumed run"); s.label("resumed"); }
  s.nontrivial(nt); if (faulted) s.label("fault");
}
VP_TEST(loop_real) { loop<double>(s); }
VP_TEST(loop_complex) { loop<dc>(s); }

// a warmup followed by an accumulation, which starts only after a complete warmup
template <typename S> void both(vp::Src &s) {
  Sim<S> q(s, true); dc sign = 1; struct Env { ~Env() { sig_at = -1; } } env; std::ostringstream err; auto *old = std::cerr.rdbuf(err.rdbuf()); struct Back { std::streambuf *o; ~Back() { std::cerr.rdbuf(o); } } back{old}; bool nt = false; int runs = int(s.integer(1, 2)); size_t mark = 0;
  for (int r = 0; r < runs; ++r) {
    long nw = s.integer(0, 6), na = s.chance(1, 6) ? -1 : s.integer(0, 6), len = s.integer(1, 4), stop_at = na < 0 || s.boolean() ? s.integer(1, 9) : -1; bool sticky = s.boolean(); long calls = 0; sig_at = s.chance(1, 4) ? s.integer(0, 30) : -1; sig_checks = 0; long sig = sig_at; s.say("warmup ", nw, " accumulate ", na, " len ", len, " stop at ", stop_at, sticky ? " and later" : "", " signal at ", sig);
    if (na < 0 && !sticky && stop_at <= nw) sticky = true; std::vector<bool> ans; auto cb = [&] { q.log.e.push_back({STOP, 0, 0}); ++calls; ans.push_back(stop_at > 0 && (sticky ? calls >= stop_at : calls == stop_at)); return bool(ans.back()); };
    int status; if (s.boolean()) { auto s0 = s.boolean() ? S(-1) : S(1); sign = s0; status = q.m.warmup_and_accumulate(nw, na, len, cb, s0); } else status = q.m.warmup_and_accumulate(nw, na, len, cb); bool got = sig >= 0 && sig_checks > sig; sig_at = -1; VP_REQUIRE(sig_active == 0, "the signal handler is left active");
    std::vector<Ev> all(q.log.e.begin() + mark, q.log.e.end()); size_t cut = 0; long k = 0; while (cut < all.size() && k < nw) k += all[cut++].k == STOP; std::vector<Ev> p1(all.begin(), all.begin() + cut), p2(all.begin() + cut, all.end());
    q.log.e = p1; auto h1 = history<S>(q, 0, len, false, sign); q.log.e = p2; auto h2 = history<S>(q, 0, len, true, sign); q.log.e.clear(); mark = 0;
    auto reason = [&](Hist<S> const &h, long n, long first) { bool fin = n >= 0 && h.cycles == n; long c = h.cycles + h.cut; for (long i = 0; i + 1 < c; ++i) VP_REQUIRE(!ans[first + i], "the run goes on after the stop function asks to stop"); bool cbs = c > 0 && ans[first + c - 1]; VP_REQUIRE(n < 0 || h.cycles <= n, "too many cycles"); VP_REQUIRE(fin || cbs || got, "the run ends after ", h.cycles, " cycles of ", n, " without a reason");
      if (fin) VP_REQUIRE(status == 0, "status ", status, " of a complete run"); else if (got && !cbs) VP_REQUIRE(status == 2, "status ", status, " of a run stopped by a signal"); else if (cbs && !got) VP_REQUIRE(status == 1, "status ", status, " of a run stopped by the stop function"); else VP_REQUIRE(status == 1 || status == 2, "status ", status); };
    VP_REQUIRE(calls == h1.cycles + h1.cut + h2.cycles + h2.cut, "calls of the stop function");
    if (h1.cycles == nw && !h1.cut) { for (long i = 0; i + 1 < nw; ++i) VP_REQUIRE(!ans[i], "the warmup goes on after the stop function asks to stop"); reason(h2, na, nw); nt = nt || h2.cycles > 0; } else { VP_REQUIRE(p2.empty(), "the accumulation starts after an incomplete warmup"); reason(h1, nw, 0); }
  }
  s.nontrivial(nt);
}
VP_TEST(warmup_and_accumulate) { if (s.boolean()) both<double>(s); else both<dc>(s); }

// a ratio which is not a number stops the calculation
VP_TEST(bad_ratio) {
  Sim<double> q(s, false); Sim<dc> z(s, false); std::ostringstream err; auto *old = std::cerr.rdbuf(err.rdbuf()); struct Back { std::streambuf *o; ~Back() { std::cerr.rdbuf(o); } } back{old}; mpi::has_env = s.boolean(); struct Env { ~Env() { mpi::has_env = false; } } env;
  for (auto &r : q.log.ratios) r.push_back(NAN); for (auto &r : z.log.ratios) r.push_back(s.pick<dc>({dc(INFINITY, 0), dc(0, INFINITY), dc(NAN, 1)})); auto cb = [] { return false; };
  VP_REQUIRE(vp::throws<triqs::runtime_error>([&] { q.m.run(200, 5, cb, s.boolean()); }), "a ratio which is not a number is accepted"); VP_REQUIRE(vp::throws<triqs::runtime_error>([&] { z.m.run(200, 5, cb, s.boolean()); }), "a complex ratio which is not finite is accepted");
  for (auto &e : q.log.e) if (e.k == ATT && std::isnan(e.x.real())) VP_REQUIRE(&e == &q.log.e.back(), "the run goes on after a ratio which is not a number"); s.nontrivial();
}

// frequencies of proposals and acceptances
VP_TEST(frequencies) {
  Sim<double> q(s, false); long N = 4000; q.m.clear_measures(); q.alive.clear(); for (auto &r : q.log.ratios) r.resize(1); q.log.e.reserve(3 * N); q.m.run(N, 1, [] { return false; }, false); std::vector<long> p(q.nm), a(q.nm); for (auto &e : q.log.e) { if (e.k == ATT) ++p[e.id]; if (e.k == ACC) ++a[e.id]; }
  auto near = [](long k, long n, double x) { double sd = std::sqrt(n * x * (1 - x)); return std::abs(k - n * x) <= 7 * sd + 10; };
  for (int i = 0; i < q.nm; ++i) { VP_REQUIRE(near(p[i], N, q.prob[i]), "move ", i, " of share ", q.prob[i], " is proposed ", p[i], " times of ", N); double r = std::min(1., std::abs(q.log.ratios[i][0].real())); VP_REQUIRE(near(a[i], p[i], r), "move ", i, " of ratio ", r, " is accepted ", a[i], " times of ", p[i]); } s.nontrivial(q.nm > 1);
}
// moves which are almost never accepted keep their probability and their sign
template <typename S> struct Rare { S r; long *n; S attempt() { return r; } S accept() { ++*n; return S(1); } void reject() {} };
template <typename S> struct Keep { S *last; void accumulate(S x) { *last = x; } void collect_results(mpi::communicator) {} };
template <typename S> static void rare(vp::Src &s) {
  double r = std::pow(10., -s.generic(3, 5)); S ph = S(-1); if constexpr (!std::is_same_v<S, double>) ph = s.pick<dc>({dc(-1), dc(0, 1), dc(0, -1), dc(0.6, 0.8)}); long n = 0, N = std::min(400000l, long(6 / r)); S last{}; mc::mc_generic<S> m(s.pick<std::string>({"", "mt19937", "ranlux3"}), int(s.raw(1000000)), 0); m.add_move(Rare<S>{ph * r, &n}, "rare", 1.); m.add_measure(Keep<S>{&last}, "sign"); int len = int(s.pick({1000, 997, 2500})); long C = N / len + 1; s.say("ratio ", ph * r, " steps ", C * len);
  m.accumulate(C, len, [] { return false; }); double x = double(C) * len * r; VP_REQUIRE(std::abs(n - x) <= 7 * std::sqrt(x) + 12, "a move of ratio ", r, " is accepted ", n, " times of ", C * len); dc w = 1; for (long k = 0; k < n % 4000; ++k) w *= ph; VP_REQUIRE(std::abs(dc(last) - w) < 1e-9, "sign ", last, " after ", n, " accepted moves of phase ", ph); s.nontrivial(n > 0); }
VP_TEST(rare_moves) { if (s.boolean()) rare<double>(s); else rare<dc>(s); }
// the chain samples the weights it is given
struct Hop { std::vector<double> const *w; int *x; int *nx; mc::random_generator *g; int step; double attempt() { int n = int(w->size()); *nx = step == 0 ? int((*g)(n)) : (*x + (((*g)(2)) ? step : n - step)) % n; return (*w)[*nx] / (*w)[*x]; } double accept() { *x = *nx; return 1; } void reject() {} };
struct Visits { int const *x; std::vector<double> const *w; std::vector<long> *v; double s0; bool *ok; void accumulate(double s) { ++(*v)[*x]; if (s != ((*w)[*x] > 0 ? 1 : -1) * s0) *ok = false; } void collect_results(mpi::communicator) {} };
VP_TEST(stationary) {
  int n = int(s.integer(2, 5)); std::vector<double> w; for (int i = 0; i < n; ++i) w.push_back((s.chance(1, 3) ? -1 : 1) * s.pick({1., 0.5, 0.2, 2., s.generic(0.2, 2)})); int x = int(s.raw(n - 1)), nx = 0; std::vector<long> v(n, 0); bool ok = true; mc::mc_generic<double> m(s.pick<std::string>({"", "mt19937", "mt11213b", "lagged_fibonacci607"}), int(s.raw(1000000)), 0); double p0 = s.pick({1., 0.3}), p1 = s.boolean() ? 1. : 0.; double s0 = w[x] > 0 ? 1 : -1;
  m.add_move(Hop{&w, &x, &nx, &m.get_rng(), 0}, "any", p0); if (p1 > 0) m.add_move(Hop{&w, &x, &nx, &m.get_rng(), 1}, "next", p1); m.add_measure(Visits{&x, &w, &v, s0, &ok}, "visits"); long N = 6000; int len = int(s.integer(1, 3)); s.say(w, " length ", len); m.warmup_and_accumulate(50, N, len, [] { return false; }); VP_REQUIRE(ok, "sign given to a measure");
  // exact chain: transition matrix of one cycle, variance of the visits from its autocorrelation
  std::vector<std::vector<double>> T(n, std::vector<double>(n, 0)); for (int i = 0; i < n; ++i) { auto go = [&](int j, double p) { double a = std::min(1., std::abs(w[j] / w[i])); T[i][j] += p * a; T[i][i] += p * (1 - a); }; for (int j = 0; j < n; ++j) go(j, p0 / (p0 + p1) / n); if (p1 > 0) { go((i + 1) % n, 0.5 * p1 / (p0 + p1)); go((i + n - 1) % n, 0.5 * p1 / (p0 + p1)); } }
  auto mul = [&](auto const &A, auto const &B) { auto C = A; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { C[i][j] = 0; for (int k = 0; k < n; ++k) C[i][j] += A[i][k] * B[k][j]; } return C; }; auto P = T; for (int k = 1; k < len; ++k) P = mul(P, T);
  double Z = 0; for (double y : w) Z += std::abs(y); std::vector<double> pi; for (double y : w) pi.push_back(std::abs(y) / Z); std::vector<double> tau(n, 1.); auto Q = P; for (int k = 1; k < 200; ++k) { for (int i = 0; i < n; ++i) tau[i] += 2 * (Q[i][i] - pi[i]) / (1 - pi[i]); Q = mul(Q, P); }
  for (int i = 0; i < n; ++i) { double sd = std::sqrt(N * pi[i] * (1 - pi[i]) * std::max(tau[i], 0.1)); VP_REQUIRE(std::abs(v[i] - N * pi[i]) <= 7 * sd + 20, "state ", i, " of probability ", pi[i], " is visited ", v[i], " times of ", N); } s.nontrivial(n > 2);
}
// several ranks: reduced statistics, and a fault on one rank reaches all
VP_TEST(ranks) {
  int R = int(s.integer(2, 4)); bool fault = s.boolean(); std::ostringstream err; auto *old = std::cerr.rdbuf(err.rdbuf()); struct Back { std::streambuf *o; ~Back() { std::cerr.rdbuf(o); } } back{old}; struct Env { ~Env() { mpi::has_env = false; } } env;
  std::vector<std::unique_ptr<Sim<double>>> q; auto st = s.seed(); (void)st; for (int r = 0; r < R; ++r) q.push_back(std::make_unique<Sim<double>>(s, true));
  if (!fault) { // the same moves everywhere, run one after the other
    vp::Src *src = &s; (void)src; std::vector<long> n(R); int nm = int(s.integer(1, 3)); std::vector<std::unique_ptr<mc::mc_generic<double>>> m; std::vector<Log> l(R); std::vector<double> pr; for (int i = 0; i < nm; ++i) pr.push_back(s.pick({1., 3.})); long prop[3] = {}, acc[3] = {}, meas = 0;
    for (int r = 0; r < R; ++r) { m.push_back(std::make_unique<mc::mc_generic<double>>("", int(s.raw(1000)), 0)); for (int i = 0; i < nm; ++i) { l[r].ratios.push_back({s.generic(0, 1.5)}); l[r].acc.push_back({1}); l[r].pos.push_back(0); m[r]->add_move(Move<double>(&l[r], i), "m" + std::to_string(i), pr[i]); } m[r]->add_measure(Measure<double>{&l[r], 0}, "x"); n[r] = s.integer(0, 30); meas += n[r]; m[r]->accumulate(n[r], 2, [] { return false; }); for (auto &e : l[r].e) { if (e.k == ATT) ++prop[e.id]; if (e.k == ACC) ++acc[e.id]; } l[r].e.clear(); }
    mpi::run_ranks(R, [&](int) { mpi::communicator c; m[c.rank()]->collect_results(c); });
    for (int r = 0; r < R; ++r) { auto ar = m[r]->get_acceptance_rates(); for (int i = 0; i < nm; ++i) if (prop[i]) VP_CLOSE(ar["m" + std::to_string(i)], double(acc[i]) / prop[i], 1e-12, "acceptance rate on rank ", r); int k = 0; for (auto &e : l[r].e) if (e.k == MCOLL) { ++k; VP_REQUIRE(e.x == dc(r, R), "communicator given to a measure"); } VP_REQUIRE(k == 1, "results collected ", k, " times"); } s.nontrivial(meas > 0); return;
  }
  mpi::has_env = true; int bad = int(s.raw(R - 1)); long at = s.integer(0, 200); bool infinite = s.boolean(); q[bad]->log.throw_at = at; std::atomic<int> threw = 0; s.say("ranks ", R, " fault on ", bad, " at ", at); std::vector<int> done(R, 0);
  mpi::run_ranks(R, [&](int) { mpi::communicator c; int r = c.rank(); auto t0 = std::chrono::steady_clock::now(); try { q[r]->m.run(r == bad || infinite ? -1 : 300, 3, [&] { return std::chrono::steady_clock::now() - t0 > std::chrono::seconds(20); }, true, c); done[r] = 1; } catch (triqs::runtime_error const &) { done[r] = 2; ++threw; } });
  VP_REQUIRE(threw == R, "a fault on one of ", R, " ranks is reported on ", int(threw)); s.nontrivial();
}
