// Property-based testing engine for the C++ checks: choice sequences, forked workers, crash isolation,
// internal shrinking, replay. A property is   VP_TEST(name) { ... draws from `s`, VP_REQUIRE(...) ... }
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {

  struct Discard {};
  struct Failure { std::string what; };
  struct Inconclusive { std::string what; };
  struct Known { std::string id, what; };

  inline uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  constexpr size_t CAP = 1 << 17;
  struct Shared { // one per worker: survives a crash of the worker
    volatile int64_t index;
    volatile uint64_t n;
    volatile int stop;
    char msg[8192];
    uint64_t data[CAP];
  };

  template <typename T> void show(std::ostream &o, T const &x) {
    if constexpr (requires { o << x; }) o << x;
    else if constexpr (requires { x.begin(); x.end(); }) {
      o << "[";
      bool f = true;
      for (auto const &y : x) { if (!f) o << ","; f = false; show(o, y); }
      o << "]";
    } else if constexpr (requires { x.first; x.second; }) { o << "("; show(o, x.first); o << ","; show(o, x.second); o << ")"; }
    else o << "?";
  }

  struct Src {
    Shared *sh = nullptr;
    std::vector<uint64_t> const *rep = nullptr;
    uint64_t st = 0, n = 0;
    bool nt = false;
    std::string text;
    std::set<std::string> labels;
    uint64_t raw(uint64_t bound) { // uniform in [0, bound]
      uint64_t v;
      if (rep) { v = n < rep->size() ? (*rep)[n] : 0; if (v > bound) v = bound ? v % (bound + 1) : 0; }
      else { v = splitmix(st); v = bound == ~0ull ? v : v % (bound + 1); }
      if (n >= CAP) throw Discard{};
      sh->data[n] = v; sh->n = ++n;
      return v;
    }
    long integer(long lo, long hi) { // shrinks to 0, or to the bound closest to it
      if (hi <= lo) return lo;
      uint64_t u = raw(uint64_t(hi) - uint64_t(lo));
      if (lo >= 0) return lo + long(u);
      if (hi <= 0) return hi - long(u);
      uint64_t m = std::min<uint64_t>(uint64_t(hi), uint64_t(-lo));
      if (u <= 2 * m) return (u & 1) ? long((u + 1) / 2) : -long(u / 2);
      return uint64_t(hi) > m ? long(u - m) : -long(u - m);
    }
    bool boolean() { return raw(1); }
    bool chance(int num, int den) { return int(raw(den - 1)) >= den - num; }
    double unit() { return double(raw((1ull << 53) - 1)) / double(1ull << 53); } // [0,1)
    double real(double lo, double hi) {
      if (raw(2) == 0) {
        long k = integer(0, 16);
        double x = (lo <= 0 && hi >= 0) ? (k % 2 ? hi * ((k + 1) / 2) / 8. : lo * (k / 2) / 8.) : lo + (hi - lo) * k / 16.;
        return x == 0 ? 0. : x;
      }
      return lo + (hi - lo) * unit();
    }
    double generic(double lo, double hi) { return lo + (hi - lo) * unit(); }
    std::complex<double> cplx(double lo, double hi) { double a = real(lo, hi); return {a, real(lo, hi)}; }
    template <typename T> T pick(std::vector<T> const &v) { return v[raw(v.size() - 1)]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + raw(v.size() - 1)); }
    template <typename T> void shuffle(std::vector<T> &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[i - 1 - raw(i - 1)]); }
    uint64_t seed() { return raw(~0ull >> 1); }
    void nontrivial(bool b = true) { nt = nt || b; }
    void label(std::string l) { labels.insert(l); }
    template <typename... A> void say(A const &...a) { if (text.size() < 1500) { std::ostringstream o; o.precision(17); (show(o, a), ...); o << "; "; text += o.str(); } }
    void assume(bool b) { if (!b) throw Discard{}; }
  };

  struct Test { std::string name; std::function<void(Src &)> f; };
  inline std::vector<Test> &tests() { static std::vector<Test> t; return t; }
  struct Reg { Reg(char const *n, std::function<void(Src &)> f) { tests().push_back({n, f}); } };
#define VP_TEST(NAME)                                                                                                                                 \
  static void vp_test_##NAME(vp::Src &s);                                                                                                             \
  static vp::Reg vp_reg_##NAME(#NAME, vp_test_##NAME);                                                                                                \
  static void vp_test_##NAME([[maybe_unused]] vp::Src &s)
#define VP_REQUIRE(COND, ...)                                                                                                                         \
  do {                                                                                                                                                \
    if (!(COND)) vp::fail(__LINE__, __VA_ARGS__);                                                                                                     \
  } while (0)
  template <typename... A> [[noreturn]] void fail(int line, A const &...a) {
    std::ostringstream o; o.precision(17); (show(o, a), ...); o << " [line " << line << "]";
    throw Failure{o.str()};
  }
  inline bool close(double a, double b, double tol = 1e-10) { return a == b || std::abs(a - b) <= tol * std::max(1., std::abs(b)); }
  inline bool close(std::complex<double> a, std::complex<double> b, double tol = 1e-10) { return a == b || std::abs(a - b) <= tol * std::max(1., std::abs(b)); }
#define VP_CLOSE(A, B, TOL, ...)                                                                                                                      \
  do {                                                                                                                                                \
    auto vp_a_ = (A); auto vp_b_ = (B);                                                                                                               \
    if (!vp::close(vp_a_, vp_b_, TOL)) vp::fail(__LINE__, __VA_ARGS__, ": got ", vp_a_, " want ", vp_b_);                                              \
  } while (0)
  template <typename E = std::exception, typename F> bool throws(F &&f) {
    try { f(); } catch (E const &) { return true; }
    return false;
  }

  // ------------------------------------------------------------------ runner
  struct Out { // per worker
    uint64_t evals = 0, skipped = 0;
    std::set<uint64_t> nt;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> known, labels;
  };
  inline std::set<std::string> &known_ids() { static std::set<std::string> s; return s; }
  enum Res { OK = 0, SKIP = 3, FAIL = 4, INC = 5 };
  inline void timer(double cpu) {
    itimerval t{}; t.it_value.tv_sec = long(cpu); setitimer(ITIMER_PROF, &t, nullptr);
  }
  inline void on_prof(int) { char const m[] = "CPU limit of a case exceeded\n"; (void)!write(2, m, sizeof(m) - 1); _exit(97); }
  inline Res run_one(Test const &t, Src &s, std::string &msg, Out *out) {
    try {
      timer(25);
      t.f(s);
      timer(0);
    } catch (Discard const &) { timer(0); return SKIP; }
    catch (Inconclusive const &e) { timer(0); msg = e.what; return INC; }
    catch (Known const &k) {
      timer(0);
      if (known_ids().count(k.id)) { if (out) out->known[k.id]++; return OK; }
      msg = k.what; return FAIL;
    }
    catch (Failure const &e) { timer(0); msg = e.what; return FAIL; }
    catch (std::exception const &e) { timer(0); msg = std::string("unexpected exception: ") + e.what(); return FAIL; }
    catch (char const *e) { timer(0); msg = std::string("unexpected exception: ") + e; return FAIL; }
    catch (...) { timer(0); msg = "unexpected exception of unknown type"; return FAIL; }
    return OK;
  }
  inline std::string esc(std::string const &x) {
    std::string r;
    for (unsigned char c : x) {
      if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
      else if (c == '\n') r += "\\n";
      else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += char(c);
    }
    return r;
  }
  inline std::string slurp(std::string const &f, size_t nmax = 3000) {
    std::ifstream i(f); std::stringstream b; b << i.rdbuf(); auto r = b.str();
    return r.size() > nmax ? r.substr(0, nmax) : r;
  }
  inline Shared *mk_shared() {
    return static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  }
  inline void quiet(std::string const &errfile) {
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2);
    rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r);
    signal(SIGPROF, on_prof);
  }
  // runs one sequence in a child: returns result and message, updates seq to what was really drawn
  inline Res isolated(Test const &t, std::vector<uint64_t> &seq, std::string &msg, std::string &text, std::string const &err) {
    static Shared *sh = mk_shared();
    static char *tx = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    sh->n = 0; sh->msg[0] = 0; tx[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0); quiet(err);
      Src s; s.sh = sh; s.rep = &seq; std::string m;
      Res r = run_one(t, s, m, nullptr);
      snprintf(sh->msg, sizeof(sh->msg), "%s", m.c_str()); snprintf(tx, 4096, "%s", s.text.c_str());
      _exit(r);
    }
    int st = 0; waitpid(p, &st, 0); kill(-p, SIGKILL);
    std::vector<uint64_t> used(sh->data, sh->data + sh->n);
    if (used.size() <= seq.size() || true) seq = used;
    text = tx; msg = sh->msg;
    if (WIFEXITED(st)) {
      int c = WEXITSTATUS(st);
      if (c == OK || c == SKIP || c == FAIL || c == INC) return Res(c);
      msg = (c == 97 ? "hang: no result within the CPU limit" : "crash: exit status " + std::to_string(c)) + "\n" + slurp(err);
      return FAIL;
    }
    int sig = WTERMSIG(st);
    if (sig == SIGKILL) { msg = "killed"; return INC; }
    msg = "crash: signal " + std::to_string(sig) + "\n" + slurp(err);
    return FAIL;
  }
  inline bool simpler(std::vector<uint64_t> const &a, std::vector<uint64_t> const &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }
  inline std::vector<uint64_t> shrink(Test const &t, std::vector<uint64_t> best, std::string const &err) {
    auto t0 = std::chrono::steady_clock::now(); int tries = 0;
    auto over = [&] { return tries > 1500 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 40; };
    auto attempt = [&](std::vector<uint64_t> c) {
      if (over() || !simpler(c, best)) return false;
      ++tries; std::string m, x; auto used = c;
      Res r = isolated(t, used, m, x, err);
      if (r != FAIL || m.rfind("hang", 0) == 0) return false;
      while (!used.empty() && used.back() == 0) used.pop_back();
      if (simpler(used, best)) { best = used; return true; }
      return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool prog = true;
    while (prog && !over()) {
      prog = false;
      for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1})
        for (long i = long(best.size()) - long(k); i >= 0 && !over(); --i) {
          if (i + long(k) > long(best.size())) continue;
          auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
          if (attempt(c)) { prog = true; continue; }
          if (i > 0 && c[i - 1] > 0) { auto d = c; d[i - 1]--; if (attempt(d)) prog = true; } // a length drawn just before
        }
      for (size_t i = 0; i < best.size() && !over(); ++i) {
        if (best[i] == 0) continue;
        auto c = best; c[i] = 0;
        if (attempt(c)) { prog = true; continue; }
        uint64_t lo = 0, hi = i < best.size() ? best[i] : 0; // binary search, keeping hi failing
        while (hi - lo > 1 && !over()) {
          uint64_t mid = lo + (hi - lo) / 2; c = best; if (i >= c.size()) break; c[i] = mid;
          if (attempt(c)) { prog = true; hi = i < best.size() ? best[i] : 0; if (hi <= lo) break; } else lo = mid;
        }
      }
    }
    return best;
  }

  inline int run_main(int argc, char **argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    uint64_t seed = std::stoull(a.count("--seed") ? a["--seed"] : "1");
    long n        = std::stol(a.count("--n") ? a["--n"] : "100");
    int J         = std::stoi(a.count("--jobs") ? a["--jobs"] : "8");
    double budget = std::stod(a.count("--budget") ? a["--budget"] : "300");
    std::string tmp = a.count("--tmp") ? a["--tmp"] : "/tmp";
    { std::stringstream k(a["--known"]); std::string w; while (std::getline(k, w, ',')) if (!w.empty()) known_ids().insert(w); }
    if (a.count("--list")) { for (auto &t : tests()) std::cout << t.name << "\n"; return 0; }
    Test const *t = nullptr;
    for (auto &x : tests()) if (x.name == a["--test"]) t = &x;
    if (!t) { std::cerr << "no test " << a["--test"] << "\n"; return 2; }
    if (a.count("--replay")) {
      std::vector<uint64_t> seq; std::stringstream k(a["--replay"]); std::string w;
      while (std::getline(k, w, ',')) if (!w.empty()) seq.push_back(std::stoull(w));
      std::string m, x; Res r = isolated(*t, seq, m, x, tmp + "/replay.err");
      std::cout << x << "\n" << m << "\n";
      return r == FAIL ? 1 : 0;
    }
    uint64_t base = seed * 0x2545f4914f6cdd1dull; for (char c : t->name) base = base * 1000003 + (unsigned char)c;
    std::vector<Shared *> sh(J); std::vector<pid_t> pid(J); std::vector<int> fd(J);
    auto t0 = std::chrono::steady_clock::now();
    for (int w = 0; w < J; ++w) {
      sh[w] = mk_shared(); sh[w]->index = -1; sh[w]->stop = 0;
      int pp[2]; if (pipe(pp)) return 2;
      std::cout.flush();
      pid[w] = fork();
      if (pid[w] == 0) {
        ::close(pp[0]); setpgid(0, 0); quiet(tmp + "/w" + std::to_string(w) + ".err");
        Out o; Res last = OK; std::string msg;
        for (long i = w; i < n; i += J) {
          if (sh[w]->stop) break;
          if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
          Src s; s.sh = sh[w]; s.sh->n = 0; s.sh->index = i; s.st = base + uint64_t(i) * 0x9e3779b97f4a7c15ull; splitmix(s.st);
          msg.clear(); Res r = run_one(*t, s, msg, &o); ++o.evals;
          if (r == SKIP) ++o.skipped;
          if (r == OK) {
            for (auto &l : s.labels) o.labels[l]++;
            if (s.nt) {
              uint64_t h = 1469598103934665603ull;
              for (uint64_t k = 0; k < s.n; ++k) { h ^= s.sh->data[k]; h *= 1099511628211ull; h ^= h >> 29; }
              if (o.nt.insert(h).second && o.samples.size() < 1) o.samples.push_back(s.text.substr(0, 400));
            }
          }
          if (r == FAIL || r == INC) { last = r; break; }
        }
        snprintf(sh[w]->msg, sizeof(sh[w]->msg), "%s", msg.c_str());
        std::ostringstream f; f << o.evals << " " << o.skipped << " " << o.nt.size();
        for (auto h : o.nt) f << " " << h;
        f << "\n"; for (auto &[k, v] : o.known) f << "K " << k << " " << v << "\n";
        for (auto &[k, v] : o.labels) f << "L " << v << " " << k << "\n";
        for (auto &x : o.samples) f << "S " << esc(x) << "\n";
        auto b = f.str(); size_t off = 0; while (off < b.size()) { auto k = write(pp[1], b.data() + off, b.size() - off); if (k <= 0) break; off += k; }
        _exit(last);
      }
      ::close(pp[1]); fd[w] = pp[0];
    }
    std::string first_inc; long best_i = -1; int best_w = -1; Out tot; std::set<uint64_t> nt;
    std::vector<std::string> bufs(J);
    for (int w = 0; w < J; ++w) { char b[65536]; ssize_t k; while ((k = read(fd[w], b, sizeof b)) > 0) bufs[w].append(b, k); ::close(fd[w]); int st; waitpid(pid[w], &st, 0); kill(-pid[w], SIGKILL);
      bool clean = WIFEXITED(st) && (WEXITSTATUS(st) == OK || WEXITSTATUS(st) == SKIP);
      if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { first_inc = "worker killed (memory?)"; clean = true; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == INC) { first_inc = sh[w]->msg; clean = true; }
      if (!clean && sh[w]->index >= 0 && (best_i < 0 || sh[w]->index < best_i)) { best_i = sh[w]->index; best_w = w; }
      if (!clean) for (int v = 0; v < J; ++v) sh[v]->stop = 1;
      std::istringstream f(bufs[w]); uint64_t e = 0, sk = 0, m = 0; f >> e >> sk >> m; tot.evals += e; tot.skipped += sk;
      if (bufs[w].empty()) tot.evals += uint64_t(std::max<int64_t>(0, sh[w]->index / J));
      for (uint64_t i = 0; i < m; ++i) { uint64_t h; f >> h; nt.insert(h); }
      std::string line; std::getline(f, line);
      while (std::getline(f, line)) {
        if (line[0] == 'K') { std::istringstream g(line.substr(2)); std::string k; uint64_t v; g >> k >> v; tot.known[k] += v; }
        if (line[0] == 'L') { std::istringstream g(line.substr(2)); uint64_t v; g >> v; std::string k; std::getline(g, k); tot.labels[k.substr(1)] += v; }
        if (line[0] == 'S') tot.samples.push_back(line.substr(2));
      }
    }
    bool failed = false; std::string err, text; std::vector<uint64_t> seq;
    if (best_w >= 0) {
      seq.assign(sh[best_w]->data, sh[best_w]->data + sh[best_w]->n);
      std::string m, x; auto c = seq; int again = 0; bool hang = false; err = std::string("not reproduced alone: ") + sh[best_w]->msg;
      Res r = isolated(*t, c, m, x, tmp + "/iso.err"); hang = m.rfind("hang", 0) == 0;
      if (r == FAIL) {
        if (!hang) seq = shrink(*t, c, tmp + "/iso.err");
        for (int k = 0; k < (hang ? 2 : 3); ++k) { c = seq; if (isolated(*t, c, m, x, tmp + "/iso.err") == FAIL) { ++again; err = m; text = x; } }
        failed = again == (hang ? 2 : 3);
      }
      if (!failed) first_inc = "failure not reproducible: " + err;
    }
    std::cout << "{\"unit\":\"" << t->name << "\",\"failed\":" << (failed ? "true" : "false") << ",\"evals\":" << tot.evals << ",\"skipped\":" << tot.skipped
              << ",\"distinct\":" << nt.size() << ",\"inconclusive\":" << (first_inc.empty() ? "null" : "\"" + esc(first_inc.substr(0, 800)) + "\"") << ",\"known\":{";
    bool f = true; for (auto &[k, v] : tot.known) { std::cout << (f ? "" : ",") << "\"" << k << "\":" << v; f = false; }
    std::cout << "},\"labels\":{"; f = true; for (auto &[k, v] : tot.labels) { std::cout << (f ? "" : ",") << "\"" << esc(k) << "\":" << v; f = false; }
    std::cout << "},\"samples\":["; f = true; for (size_t i = 0; i < std::min<size_t>(3, tot.samples.size()); ++i) { std::cout << (f ? "" : ",") << "\"" << tot.samples[i] << "\""; f = false; }
    std::cout << "],\"err\":\"" << esc(err.substr(0, 3000)) << "\",\"text\":\"" << esc(text) << "\",\"case\":\"";
    for (size_t i = 0; i < seq.size() && failed; ++i) std::cout << (i ? "," : "") << seq[i];
    std::cout << "\",\"wall\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << "}" << std::endl;
    return failed ? 1 : 0;
  }
} // namespace vp
#ifndef VP_NO_MAIN
int main(int argc, char **argv) { return vp::run_main(argc, argv); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
#endif
