"""Framework: targets, generated search, shrinking, replay files, evidence."""
import os, sys, json, time, traceback, hashlib, shutil, tempfile, io, contextlib, signal

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if HYP not in sys.path:
    sys.path.append(HYP)          # at the end: numpy/scipy come from the project's venv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))


class Violation(AssertionError):
    """The property does not hold for the case (raised by oracles only)."""


class Skip(Exception):
    """The case is outside the domain of the property; not counted."""


class _Abort(BaseException):
    pass


class Target:
    """One executable statement of (part of) a property.

    strategy : callable() -> hypothesis strategy giving a JSON-able case
    check    : callable(case, note) -> None; raises Violation; note(label) classifies;
               note.nontrivial() marks the case as non-trivial
    quick/thorough : number of generated cases over all shards
    enumerate_ : optional callable(tier) -> list of cases (exhaustive part, no shrinking)
    """

    def __init__(self, name, check, strategy=None, quick=100, thorough=1000,
                 enumerate_=None, rule=""):
        self.name, self.check, self.strategy = name, check, strategy
        self.quick, self.thorough = quick, thorough
        self.enumerate_ = enumerate_
        self.rule = rule


class Note:
    def __init__(self):
        self.labels = {}
        self.nt = False
        self.sample = None

    def __call__(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True


def in_repo(tb):
    """Does the traceback pass through the code under test?"""
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    last = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in last
             if os.path.realpath(f.filename).startswith(REPO + os.sep)]
    return f"{type(exc).__name__}: {str(exc)[:300]} (raised in {where[-1] if where else '?'})"


@contextlib.contextmanager
def scratch():
    """A scratch working directory; outputs of the code under test stay in it."""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="vf-")
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Capture what the code under test prints."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


CASE_SECONDS = int(os.environ.get("VF_CASE_SECONDS", "60"))


class Hang(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """A case that takes longer (they take well below a second) does not end: processor time, so that a busy
    computer does not matter; five times as long by the clock."""
    def fire(*a):
        raise Hang(f"no result after {seconds} s")
    old = [signal.signal(s, fire) for s in (signal.SIGALRM, signal.SIGPROF)]
    signal.alarm(5 * seconds)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        for s, o in zip((signal.SIGALRM, signal.SIGPROF), old):
            signal.signal(s, o)


def run_case(target, case):
    """-> (status, message, note); status in ok / skip / violation / error"""
    note = Note()
    try:
        with scratch():
            with quiet():
                with limit(CASE_SECONDS):
                    target.check(case, note)
        return "ok", "", note
    except Skip as e:
        return "skip", str(e), note
    except Violation as e:
        return "violation", str(e), note
    except (_Abort, KeyboardInterrupt):
        raise
    except BaseException as e:          # incl. SystemExit of the CLI
        from hypothesis.errors import HypothesisException
        if isinstance(e, HypothesisException):
            raise
        if in_repo(e.__traceback__):
            return "violation", describe(e), note
        if isinstance(e, Hang):             # preparing the case took too long
            return "skip", "too long to prepare", note
        return "error", traceback.format_exc(), note


def case_id(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def run_shard(args):
    """Runs in a worker process."""
    prop, tname, shard, n, seed, deadline, cases = args
    from . import registry
    import numpy as np
    target = registry.load(prop)[tname]
    out = dict(target=tname, shard=shard, evaluations=0, skipped=0, cut=0, labels={},
               nontrivial=set(), samples=[], violations=[], errors=[])
    t0 = time.time()

    def account(case, status, msg, note):
        out["evaluations"] += status != "skip"
        out["skipped"] += status == "skip"
        if status == "skip":
            k = "skip: " + msg
            out["labels"][k] = out["labels"].get(k, 0) + 1
        for k, c in note.labels.items():
            out["labels"][k] = out["labels"].get(k, 0) + c
        if note.nt and status == "ok":
            cid = case_id(case)
            if cid not in out["nontrivial"]:
                out["nontrivial"].add(cid)
                if len(out["samples"]) < 2:
                    out["samples"].append(case)

    if cases is not None:
        for case in cases:
            if time.time() > deadline:
                out["cut"] += 1
                continue
            np.random.seed(0)
            st, msg, note = run_case(target, case)
            account(case, st, msg, note)
            if st == "violation":
                out["violations"].append((case, msg))
                if len(out["violations"]) >= 3:
                    break
            elif st == "error":
                out["errors"].append(msg)
                break
        return out

    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    state = dict(first=None, best=None, msg=None)

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False,
              report_multiple_bugs=False, print_blob=False,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink])
    @given(target.strategy())
    def test(case):
        now = time.time()
        if state["first"] is None and now > deadline:
            out["cut"] += 1
            return
        if state["first"] is not None and now > state["first"] + 40:
            raise _Abort()              # enough shrinking
        np.random.seed(0)
        st, msg, note = run_case(target, case)
        if state["first"] is None:
            account(case, st, msg, note)
        if st == "skip":
            hypothesis.reject()
        if st == "error":
            out["errors"].append(msg + "\ncase=" + json.dumps(case))
            raise _Abort()
        if st == "violation":
            if state["first"] is None:
                state["first"] = now
            state["best"], state["msg"] = case, msg   # hypothesis ends on the smallest
            raise Violation(msg)

    try:
        test()
    except _Abort:
        pass
    except hypothesis.errors.Unsatisfiable:
        pass
    except Exception as e:
        if state["best"] is None:
            out["errors"].append(traceback.format_exc())
    if state["best"] is not None:
        out["violations"].append((state["best"], state["msg"]))
    out["wall"] = time.time() - t0
    return out
