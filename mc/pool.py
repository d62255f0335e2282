"""Worker processes that run one Python implementation of the runtime ("python" or "cpp") taken from /repo."""
import concurrent.futures as cf, importlib, multiprocessing, os, signal, sys, traceback

sys.dont_write_bytecode = True


def activate(impl, binding=None, extra=()):
    """Make `import zserio` give /repo's runtime; impl 'python' or 'cpp' (with the scratch-built binding)."""
    from . import zbuild
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = impl
    for p in [zbuild.PY_RT] + ([binding] if binding else []) + list(extra):
        if p not in sys.path:
            sys.path.insert(0, p)
    if impl == "python":
        sys.modules["zserio_cpp"] = None     # must not be picked up


def _init(impl, binding, extra):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    activate(impl, binding, extra)


class Hang(Exception):
    pass


def _alarm(signum, frame):
    raise Hang("did not terminate in time")


def _call(mod, fn, task, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return getattr(importlib.import_module(mod), fn)(task)
    except Exception:
        return {"violations": [("worker:%s.%s:%s" % (mod.split(".")[-1], fn, "-".join(str(x)[:24] for x in (task if isinstance(task, tuple) else (task,)) if not str(x).startswith("/"))[:90]),
                                traceback.format_exc())]}
    finally:
        signal.alarm(0)


def run(chk, mod, fn, tasks, impl="python", binding=None, extra=(), part=None, limit=800, workers=8, collect=None):
    """Runs mod.fn(task) for all tasks, merges their result dicts into chk."""
    ctx = multiprocessing.get_context("fork")
    with cf.ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init, initargs=(impl, binding, extra)) as ex:
        futs = [ex.submit(_call, mod, fn, t, limit) for t in tasks]
        for t, f in zip(tasks, futs):
            try:
                res = f.result()
            except cf.process.BrokenProcessPool:
                chk.violation("%s-crash:%s" % (fn, impl), "worker process of implementation %s died; tasks from %r on"
                              % (impl, str(t)[:500]))
                break
            if part:
                res = dict(res, part=part)
            chk.merge(res)
            if collect is not None:
                collect.append(res)


class Res:
    """Result accumulator of a worker."""

    def __init__(self):
        self.states = self.transitions = self.traces = 0
        self.violations, self.samples = [], []
        self._keys = set()

    def bad(self, key, detail):
        if key not in self._keys and len(self._keys) < 40:
            self._keys.add(key)
            self.violations.append((key, detail))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def out(self):
        return {k: v for k, v in self.__dict__.items() if not k.startswith("_")}
