"""Engine for the Python-side checks: hypothesis-driven units, run in parallel forked processes.

A *unit* is one executable sub-property: a strategy producing plain data (literal_eval-able), and a
function `run(case)` that raises Violation (or any exception that is not Skip) when the property fails.
"""
import os, sys, json, time, traceback, ast, hashlib, signal, resource

sys.dont_write_bytecode = True
VENV_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VENV_SITE not in sys.path:
    sys.path.append(VENV_SITE)

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(AssertionError):
    pass


class Skip(Exception):
    """case outside the domain of the property (counted, never a failure)"""


class Inconclusive(Exception):
    """harness cannot judge (missing stand-in, import failure): never a violation"""


def require(cond, msg="", **kw):
    if not cond:
        extra = "; ".join("%s=%r" % (k, v) for k, v in kw.items())
        raise Violation((msg + " " + extra)[:3000])


class Unit:
    def __init__(self, name, strategy, run, n=200, nt=400, nontrivial=None, rule="", known=None, replay_inproc=True):
        self.name, self.strategy, self.run = name, strategy, run
        self.n_quick, self.n_thorough = n, nt
        self.nontrivial = nontrivial or (lambda case: True)
        self.rule = rule
        self.known = known  # function(case, exception)-> finding id or None


class Hang(BaseException):
    pass


CASE_CPU_LIMIT = 40.0   # CPU seconds; a normal case takes milliseconds


def _on_alarm(sig, frm):
    raise Hang("no result after %g s of CPU time" % CASE_CPU_LIMIT)


class timed:
    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


class Recorder:
    def __init__(self):
        self.evals = 0
        self.skipped = 0
        self.nontriv = set()
        self.samples = []
        self.known = {}


def _short(case, n=400):
    s = repr(case)
    return s if len(s) <= n else s[:n] + "..."


def run_unit(unit, seed, tier, known_ids):
    """Executed in a forked child. Returns a dict."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    rec = Recorder()
    n = unit.n_thorough if tier == "thorough" else unit.n_quick
    last_fail = {}

    def body(case):
        rec.evals += 1
        try:
            with timed():
                unit.run(case)
        except Skip:
            rec.skipped += 1
            return
        except Hang as e:
            last_fail.update(case=case, err="Hang: " + str(e), tb=traceback.format_exc()[-4000:])
            raise KeyboardInterrupt()
        except Inconclusive:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except NotImplementedError as e:
            if "stand-in" in str(e):
                raise Inconclusive(str(e))
            last_fail.update(case=case, err="NotImplementedError: %s" % e, tb=traceback.format_exc()[-4000:])
            raise Violation(last_fail["err"])
        except BaseException as e:
            kid = unit.known(case, e) if unit.known else None
            if kid is not None and kid in known_ids:
                rec.known[kid] = rec.known.get(kid, 0) + 1
                return
            last_fail["case"] = case
            last_fail["err"] = "%s: %s" % (type(e).__name__, str(e)[:2000])
            last_fail["tb"] = traceback.format_exc()[-4000:]
            raise Violation(last_fail["err"])
        try:
            nt = unit.nontrivial(case)
        except Exception:
            nt = False
        if nt:
            h = hashlib.sha1(repr(case).encode()).hexdigest()[:16]
            if h not in rec.nontriv:
                rec.nontriv.add(h)
                if len(rec.samples) < 3 and (len(rec.nontriv) in (1, 7, 40)):
                    rec.samples.append(_short(case))

    test = given(unit.strategy)(body)
    sset = settings(database=None, deadline=None, max_examples=n, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.explicit, Phase.generate, Phase.shrink), verbosity=Verbosity.quiet)
    useed = int(hashlib.sha1(("%s/%d" % (unit.name, seed)).encode()).hexdigest()[:12], 16)
    test = hypothesis.seed(useed)(sset(test))
    out = {"unit": unit.name, "failed": False, "inconclusive": None}
    t0 = time.time()
    # numpy global RNG may be used by the code under test: pin it
    try:
        import numpy, random
        numpy.random.seed(useed % (2**32)); random.seed(useed)
    except Exception:
        pass
    try:
        test()
    except Inconclusive as e:
        out["inconclusive"] = str(e)[:500]
    except BaseException as e:
        if "case" not in last_fail:
            out["inconclusive"] = "harness error: " + traceback.format_exc()[-1500:]
        else:
            case = last_fail["case"]
            err, tb = last_fail["err"], last_fail["tb"]
            again = 0
            for _ in range(3):
                try:
                    with timed():
                        unit.run(case)
                except (Skip, Inconclusive):
                    pass
                except BaseException as e2:
                    again += 1
            if again == 3:
                out.update(failed=True, case=repr(case), err=err, tb=tb)
            else:
                out["inconclusive"] = "failure not reproducible (%d/3): %s on %s" % (again, err, _short(case))
    out.update(evals=rec.evals, skipped=rec.skipped, distinct=len(rec.nontriv), samples=rec.samples,
               rule=unit.rule, known=rec.known, wall=time.time() - t0)
    return out


def replay_unit(unit, case_repr):
    case = ast.literal_eval(case_repr) if not case_repr.startswith("EVAL:") else eval(case_repr[5:])
    unit.run(case)


def run_units(units, seed, tier, known_ids, jobs=8, timeout=None):
    """fork one process per unit, at most `jobs` at a time; collect results through pipes."""
    timeout = timeout or (700 if tier == "quick" else 5400)
    results, pend, run = [], list(units), {}
    t_start = time.time()
    while pend or run:
        while pend and len(run) < jobs:
            u = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    devnull = os.open("/dev/null", os.O_WRONLY)
                    os.dup2(devnull, 1); os.dup2(devnull, 2)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    res = run_unit(u, seed, tier, known_ids)
                    data = json.dumps(res).encode()
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:
                    try:
                        with os.fdopen(w, "wb") as f:
                            f.write(json.dumps({"unit": u.name, "failed": False, "evals": 0, "skipped": 0, "distinct": 0, "samples": [],
                                                "rule": "", "known": {}, "wall": 0,
                                                "inconclusive": "harness: " + traceback.format_exc()[-1500:]}).encode())
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            run[r] = (u, pid, time.time(), bytearray())
        import select
        rl, _, _ = select.select(list(run), [], [], 1.0)
        for fd in rl:
            u, pid, t0, buf = run[fd]
            chunk = os.read(fd, 1 << 16)
            if chunk:
                buf.extend(chunk)
            else:
                os.close(fd); del run[fd]
                _, st = os.waitpid(pid, 0)
                try:
                    results.append(json.loads(buf.decode()))
                except Exception:
                    results.append({"unit": u.name, "failed": False, "evals": 0, "skipped": 0, "distinct": 0, "samples": [], "rule": u.rule,
                                    "known": {}, "wall": time.time() - t0, "inconclusive": "child died with status %d" % st})
        now = time.time()
        for fd in list(run):
            u, pid, t0, buf = run[fd]
            if now - t_start > timeout:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd); del run[fd]
                results.append({"unit": u.name, "failed": False, "evals": 0, "skipped": 0, "distinct": 0, "samples": [], "rule": u.rule,
                                "known": {}, "wall": now - t0, "inconclusive": "time budget"})
        if now - t_start > timeout:
            for u in pend:
                results.append({"unit": u.name, "failed": False, "evals": 0, "skipped": 0, "distinct": 0, "samples": [], "rule": u.rule,
                                "known": {}, "wall": 0, "inconclusive": "time budget (not started)"})
            pend = []
    order = {u.name: i for i, u in enumerate(units)}
    results.sort(key=lambda r: order.get(r["unit"], 0))
    return results
