"""Shared machinery of the checks: exhaustive case enumeration, evidence, replays.

A check module `checks/Cxx.py` defines SECTIONS, a list of Section objects.  A
section enumerates a finite, deterministic list of JSON-able cases (the bounded
space for the current tier) and runs every one of them against the real nnx
code, comparing with a reference model.  `run.py` spreads the cases over worker
processes; every case of the space is executed, there is no sampling and no time
cut-off.  A case that disagrees with the model is written to a replay file which
`run.py Cxx --replay FILE` executes again on its own.
"""
import hashlib
import itertools
import json
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
  """The code under test disagrees with the property."""

  def __init__(self, msg, key=None, trace=None):
    super().__init__(msg)
    self.key = key
    self.trace = trace


class HarnessError(Exception):
  """The harness itself is wrong (never reported as a violation)."""


class Cov:
  """Coverage measured while the cases run."""

  def __init__(self):
    self.states = set()
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.counters = {}
    self.outcomes = {}

  def state(self, key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    if h in self.states:
      return False
    self.states.add(h)
    return True

  def trans(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    self.traces += n

  def count(self, name, n=1):
    self.counters[name] = self.counters.get(name, 0) + n

  def outcome(self, name):
    self.outcomes[name] = self.outcomes.get(name, 0) + 1

  def sample(self, obj):
    if len(self.samples) < 3:
      self.samples.append(obj)


class Section:
  """One exhaustively enumerated space.

  gen(tier): iterable of JSON-able cases.
  run(case, cov): executes one case, raises Violation when the property fails.
  """

  def __init__(self, name, gen, run, timeout=240, setup=None):
    self.name = name
    self.gen = gen
    self.run = run
    self.timeout = timeout
    self.setup = setup


class _Timeout(BaseException):
  pass


def _on_alarm(signum, frame):
  raise _Timeout()


def tojson(x):
  if isinstance(x, (list, tuple)):
    return [tojson(i) for i in x]
  if isinstance(x, dict):
    return {str(k): tojson(v) for k, v in x.items()}
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  return repr(x)


def detuple(x):
  """Cases are kept as nested tuples in memory; JSON turns them into lists."""
  if isinstance(x, list):
    return tuple(detuple(i) for i in x)
  if isinstance(x, dict):
    return {k: detuple(v) for k, v in x.items()}
  return x


def run_one(section, case, cov):
  """Runs a case; returns None or a failure dict."""
  signal.signal(signal.SIGALRM, _on_alarm)
  signal.alarm(section.timeout)
  try:
    section.run(case, cov)
    return None
  except Violation as e:
    return dict(section=section.name, case=tojson(case), message=str(e), key=e.key,
                trace=tojson(e.trace), where="")
  except HarnessError:
    raise
  except _Timeout:
    return dict(section=section.name, case=tojson(case), key=None, trace=None,
                message=f"case did not terminate within {section.timeout} s", where="")
  except Exception as e:  # the model expected the call to succeed
    tb = traceback.extract_tb(e.__traceback__)
    if tb and all(os.path.realpath(f.filename).startswith(VERIF) for f in tb[-1:]) and isinstance(
        e, (NameError, SyntaxError)):
      raise
    return dict(section=section.name, case=tojson(case), key=getattr(e, "key", None), trace=None,
                message=f"unexpected {type(e).__name__}: {str(e)[:500]}",
                where="".join(traceback.format_exception(e)[-6:])[-3000:])
  finally:
    signal.alarm(0)


def safe_gen(section, tier, fails):
  """Enumerates the cases; an error of the code under test while doing so is a failure of the section."""
  try:
    yield from section.gen(tier)
  except Exception as e:
    if not isinstance(e, Violation) and not in_repo(e):
      raise
    fails.append(dict(section=section.name, case="setup", key=None, trace=None, index=-1,
                      message=f"enumerating the cases failed: {type(e).__name__}: {str(e)[:500]}",
                      where="".join(traceback.format_exception(e)[-6:])[-3000:]))


def in_repo(e):
  """Whether an exception passed through the code under test."""
  import nnx
  root = os.path.dirname(os.path.realpath(nnx.__file__))
  return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(e.__traceback__))


CRASHES = ("SIGABRT", "SIGSEGV", "SIGBUS", "SIGFPE", "SIGILL")


def crashed(pid, tier, where, exitcode):
  """The result of a worker whose process was brought down by the case it was running."""
  import importlib
  mod = importlib.import_module(f"checks.{pid}")
  name, idx = where.rsplit(None, 1)
  res = {"__meta__": dict(bounds=getattr(mod, "BOUNDS", {}).get(tier, ""), rule=getattr(mod, "RULE", ""),
                          assumptions=getattr(mod, "ASSUMPTIONS", []))}
  for section in mod.SECTIONS:
    fails = []
    if section.name == name:
      case = next(itertools.islice(section.gen(tier), int(idx), None))
      fails.append(dict(section=name, case=tojson(case), key=None, trace=None, index=int(idx), where="",
                        message=f"the process was killed by {signal.Signals(-exitcode).name} while running the case"))
    res[section.name] = dict(total=len(fails), states=[], transitions=0, traces=0, samples=[], counters={},
                             outcomes={}, fails=fails, wall=0.0)
  return res


def worker(pid, tier, index, n, conn, at):
  """Runs the cases of all sections whose index is `index` mod n."""
  try:
    import importlib
    at = os.open(at, os.O_WRONLY)
    mod = importlib.import_module(f"checks.{pid}")
    res = {"__meta__": dict(bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
                            rule=getattr(mod, "RULE", ""),
                            assumptions=getattr(mod, "ASSUMPTIONS", []))}
    for section in mod.SECTIONS:
      cov = Cov()
      fails = []
      total = 0
      t0 = time.time()
      try:
        if section.setup:
          section.setup()
      except Exception as e:
        if not in_repo(e):
          raise
        fails.append(dict(section=section.name, case="setup", key=None, trace=None, index=-1,
                          message=f"building the fixtures failed: {type(e).__name__}: {str(e)[:500]}",
                          where="".join(traceback.format_exception(e)[-6:])[-3000:]))
      for i, case in enumerate(safe_gen(section, tier, fails) if not fails else ()):
        if i % n != index:
          continue
        total += 1
        cov.trace()
        before = len(cov.states), cov.transitions
        os.pwrite(at, f"{section.name} {i} ".encode().ljust(200), 0)
        f = run_one(section, case, cov)
        if (len(cov.states), cov.transitions) == before:
          cov.state((section.name, case))
          cov.trans()
        if f is not None:
          f["index"] = i
          fails.append(f)
          if len(fails) >= 20:
            break
        elif total in (1, 7, 50):
          cov.sample(dict(section=section.name, case=tojson(case)))
      res[section.name] = dict(
          total=total, states=list(cov.states), transitions=cov.transitions,
          traces=cov.traces, samples=cov.samples, counters=cov.counters,
          outcomes=cov.outcomes, fails=fails, wall=time.time() - t0)
    conn.send(("ok", res))
  except BaseException:
    conn.send(("error", traceback.format_exc()))
  finally:
    conn.close()


def product(*args):
  return itertools.product(*args)


def expect_raises(exc, fn, msg):
  try:
    out = fn()
  except exc:
    return
  except Exception as e:
    raise Violation(f"{msg}: expected {getattr(exc, '__name__', exc)}, got {type(e).__name__}: {str(e)[:200]}")
  raise Violation(f"{msg}: expected {getattr(exc, '__name__', exc)}, got result {str(out)[:200]}")


def require(cond, msg, *detail):
  if not cond:
    raise Violation((msg() if callable(msg) else msg) + "".join(f"\n  {d}" for d in detail))


def require_eq(got, want, msg):
  if got != want:
    raise Violation(f"{msg}\n  got  {str(got)[:1500]}\n  want {str(want)[:1500]}")


def eqns_of(jaxpr, name):
  """All equations of a jaxpr, at any depth, with the given primitive."""
  import jax
  for e in jaxpr.eqns:
    if e.primitive.name == name:
      yield e
    for v in e.params.values():
      for j in v if isinstance(v, (list, tuple)) else (v,):
        if isinstance(j, jax.core.ClosedJaxpr):
          yield from eqns_of(j.jaxpr, name)
        elif isinstance(j, jax.core.Jaxpr):
          yield from eqns_of(j, name)


def load_known():
  """known_findings.txt: lines `finding: property=<id> key=<key> <what fails>`."""
  out = {}
  path = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("finding: "):
        fields = line[len("finding: "):].split(" ", 2)
        pid = fields[0].split("=", 1)[1]
        key = fields[1].split("=", 1)[1]
        out.setdefault(pid, {})[key] = fields[2]
  return out
