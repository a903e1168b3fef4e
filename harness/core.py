"""Facets: executable statements of one clause of a property over generated cases.

A facet is a strategy that yields JSON-able cases, plus a check function.  The
check function raises `Violation` (through `ctx`) if the clause is false for the
case; it returns True iff the case was non-trivial by the facet's stated rule.
Arrays in cases are described by small descriptors (see gen.py), so each case is
replayable from its JSON form without Hypothesis.
"""
import collections
import dataclasses
import json
import math
from typing import Any, Callable, Dict, List

import numpy as np


class Violation(Exception):
  """The property is false for this case."""


class Discard(Exception):
  """The case turned out to be outside the property's domain."""


@dataclasses.dataclass
class Facet:
  name: str
  strategy: Any
  check: Callable
  quick: int
  thorough: int
  rule: str
  shards_quick: int = 1
  shards_thorough: int = 4


class Property:
  """Registry of the facets of one property."""

  def __init__(self, pid: str):
    self.pid = pid
    self.facets: Dict[str, Facet] = collections.OrderedDict()

  def facet(self, strategy, quick, thorough=None, rule='', shards=1,
            thorough_shards=None):
    """Decorator. quick/thorough are numbers of cases per shard."""
    def deco(fn):
      self.facets[fn.__name__] = Facet(
          fn.__name__, strategy, fn, quick,
          thorough if thorough is not None else quick * 8,
          rule, shards, thorough_shards or max(4, shards))
      return fn
    return deco


def to_np(x):
  """Array-like or field-like -> numpy array."""
  data = getattr(x, 'data', x)
  if hasattr(x, 'data') and not isinstance(x, np.ndarray):
    if not isinstance(data, memoryview):
      return np.asarray(data)
  return np.asarray(x)


class Ctx:
  """Per-case context: assertions and classification."""

  def __init__(self):
    self.labels: List[str] = []

  def label(self, text):
    self.labels.append(str(text))

  def fail(self, msg):
    raise Violation(msg)

  def true(self, cond, msg):
    if not bool(cond):
      raise Violation(msg)

  def eq(self, a, b, msg):
    if not a == b:
      raise Violation(f'{msg}: {a!r} != {b!r}')

  def close(self, got, want, msg, tol=1e-9, scale=None):
    """max|got-want| <= tol * scale; scale defaults to max(|want|, |got|)."""
    got, want = to_np(got), to_np(want)
    if got.shape != want.shape:
      raise Violation(f'{msg}: shape {got.shape} != expected {want.shape}')
    if got.size == 0:
      return
    if got.dtype == bool or want.dtype == bool:
      if got.dtype != want.dtype or (got != want).any():
        raise Violation(f'{msg}: boolean values differ')
      return
    fin_g, fin_w = np.isfinite(got), np.isfinite(want)
    if not (fin_g == fin_w).all():
      raise Violation(f'{msg}: finite pattern differs (got {got.ravel()[:6]}, '
                      f'expected {want.ravel()[:6]})')
    if not fin_w.all():
      bad = ~fin_w
      same = (got[bad] == want[bad]) | (np.isnan(got[bad]) & np.isnan(want[bad]))
      if not same.all():
        raise Violation(f'{msg}: non-finite values differ')
      got, want = got[fin_w], want[fin_w]
      if got.size == 0:
        return
    err = float(np.max(np.abs(got - want)))
    ref = max(float(np.max(np.abs(want))), float(np.max(np.abs(got))))
    if scale is not None:
      ref = max(float(scale), 0.0)
    if err > tol * ref + 1e-290:
      i = int(np.argmax(np.abs(got - want)))
      raise Violation(
          f'{msg}: error {err:.3e} > {tol:.1e} * scale {ref:.3e} '
          f'(at flat index {i}: got {got.ravel()[i]!r}, '
          f'expected {want.ravel()[i]!r})')

  def le(self, a, b, msg, slack=0.0):
    """All of a <= b + slack."""
    a, b = to_np(a), to_np(b)
    worst = float(np.max(a - b)) if np.size(a - b) else 0.0
    if not worst <= slack:
      raise Violation(f'{msg}: exceeded by {worst:.3e} (slack {slack:.1e})')

  def finite(self, x, msg):
    if not np.isfinite(to_np(x)).all():
      raise Violation(f'{msg}: non-finite values')

  def raises(self, exc, fn, msg):
    """fn() must raise one of exc; anything else is a violation."""
    try:
      fn()
    except exc:
      return
    except Exception as e:  # pylint: disable=broad-except
      raise Violation(f'{msg}: raised {type(e).__name__} instead: {e}')
    raise Violation(f'{msg}: no error was raised')


def canonical(case) -> str:
  return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
  if isinstance(o, (np.integer,)):
    return int(o)
  if isinstance(o, (np.floating,)):
    return float(o)
  if isinstance(o, np.ndarray):
    return o.tolist()
  raise TypeError(type(o))


def prod(xs):
  return math.prod(xs)
