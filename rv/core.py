"""Framework: sub-check registry, per-case context, verdict plumbing."""

import contextlib
import gc
import hashlib
import os
import pickle
import shutil
import tempfile
import traceback

from . import boot, cov  # noqa: F401


class Violation(Exception):
    """The code under test broke the property on this case."""

    def __init__(self, key, msg=""):
        self.key = str(key)
        try:
            self.msg = msg = str(msg)
        except Exception as e:  # what is described may be broken, too
            self.msg = msg = f"(no description: {type(e).__name__})"
        super().__init__(f"{key}: {msg}")


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


class Reject(Exception):
    """The case lies outside the property's domain; counted, not evaluated."""


class Sub:
    """One generated check of a property.

    strategy: zero-argument callable returning a hypothesis strategy of plain data
    check: check(case, ctx); raises Violation
    quick/thorough: total number of generated cases
    """

    def __init__(
        self,
        name,
        strategy,
        check,
        quick=100,
        thorough=None,
        shards=1,
        rule="",
        python=None,
        guard=False,
    ):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.rule = rule
        self.python = python
        self.guard = guard  # case written to disk first: survives a crash


class Prop:
    def __init__(self, pid, rule, subs, probes=None, assumptions=None):
        self.pid = pid
        self.rule = rule
        self.subs = {s.name: s for s in subs}
        # known-finding id -> zero-argument callable(ctx) raising Violation while
        # the recorded defect is still present
        self.probes = probes or {}
        self.assumptions = assumptions or []


class Ctx:
    def __init__(self, root):
        self.root = root
        self.labels = set()
        self.is_nontrivial = False
        self.started = False
        self._dir = None
        self._n = 0

    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="case", dir=self.root)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    @contextlib.contextmanager
    def oracle(self):
        """From here on an unexpected exception is the code's fault."""
        self.started = True
        yield

    def sut(self, fn, *args, **kwargs):
        """Call the code under test on a valid input: it must not raise."""
        self.started = True
        try:
            return fn(*args, **kwargs)
        except Violation:
            raise
        except MemoryError:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ""
            for fr in reversed(tb):
                if "/rsciio/" in fr.filename:
                    where = f" at {os.path.basename(os.path.dirname(fr.filename))}/{os.path.basename(fr.filename)}:{fr.lineno}"
                    break
            name = getattr(fn, "__module__", "") + "." + getattr(fn, "__name__", "call")
            raise Violation(
                f"raised:{type(e).__name__}",
                f"{name} raised {type(e).__name__}: {str(e)[:500]}{where}",
            ) from e

    def expect(self, cond, key, msg=""):
        if not cond:
            try:
                msg = msg() if callable(msg) else msg
            except Exception as e:
                msg = f"(no description: {type(e).__name__}: {e})"
            raise Violation(key, msg)

    def close(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None


def case_hash(case):
    return hashlib.blake2b(pickle.dumps(case, protocol=4), digest_size=8).hexdigest()


def run_case(sub, case, root):
    """Runs one case. Returns ctx; raises Violation/HarnessError/Reject."""
    ctx = Ctx(root)
    try:
        cov.case()
        sub.check(case, ctx)
        return ctx
    except (Violation, Reject, HarnessError):
        raise
    except MemoryError as e:
        raise HarnessError(f"MemoryError: {e}") from e
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if isinstance(e, OSError) and e.errno in (28, 24, 12):
            raise HarnessError(f"{e}") from e
        if ctx.started:
            raise Violation(
                f"unexpected:{type(e).__name__}",
                "".join(traceback.format_exception(e))[-1500:],
            ) from e
        raise HarnessError("".join(traceback.format_exception(e))[-3000:]) from e
    finally:
        ctx.close()


_count = 0


def maybe_gc():
    global _count
    _count += 1
    if _count % 25 == 0:
        gc.collect()
