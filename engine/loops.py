"""Loop rule for Python `for` loops of driver code, on the running bytecode.

A loop `for k in range(lo, hi)` of the module under contract is cut: when the
loop asks for its first element, the contract

  1. sees the bounds and the variables at loop entry (base case),
  2. replaces every variable the loop carries from one iteration to the next
     by arbitrary values satisfying the invariant,
  3. hands out one arbitrary iteration number k;

when the loop asks for the next element the contract sees the variables after
that iteration (preservation of the invariant) and ends the loop there, so
that the code behind the loop runs from an arbitrary state satisfying the
invariant.  Which variables are carried is read off the bytecode of the loop:
those it assigns and (in program order) reads before assigning, plus every
list it can reach.
"""
import contextlib
import ctypes
import dis
import sys

from harness import ContractMismatch


def carried(code, lasti):
  """(assigned, live-in assigned) names of the loop whose FOR_ITER is being
  executed at offset lasti."""
  ins = list(dis.get_instructions(code))
  pos = [i for i, x in enumerate(ins) if x.offset >= lasti and
         x.opname == 'FOR_ITER']
  if not pos or ins[pos[0]].offset - lasti > 8:
    raise ContractMismatch('not driven by a for loop')
  start = pos[0]
  end = ins[start].argval
  body = [x for x in ins[start + 1:] if x.offset < end]
  first = {}
  stored = set()
  for j, x in enumerate(body):
    if x.opname.startswith('STORE_FAST'):
      n = x.argval
      if isinstance(n, tuple):
        for v in n:
          stored.add(v)
          first.setdefault(v, 'w')
      else:
        stored.add(n)
        first.setdefault(n, 'w')
    elif x.opname.startswith('LOAD_FAST') or x.opname.startswith('LOAD_DEREF'):
      n = x.argval
      for v in (n if isinstance(n, tuple) else (n,)):
        first.setdefault(v, 'r')
    elif x.opname.startswith('STORE_DEREF'):
      stored.add(x.argval)
      first.setdefault(x.argval, 'w')
  return stored, {v for v in stored if first[v] == 'r'}, set(first)


def write_locals(frame, new):
  frame.f_locals.update(new)
  ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame),
                                        ctypes.c_int(0))


class Cut:
  """one loop; `rule` implements enter(cut, locals, live) -> (new locals,
  iteration number) and leave(cut, locals)."""

  def __init__(self, lo, hi, rule):
    self.lo, self.hi, self.rule = lo, hi, rule
    self.n = 0

  def __iter__(self):
    return self

  def __next__(self):
    fr = sys._getframe(1)
    loc = dict(fr.f_locals)
    if self.n == 0:
      self.n = 1
      self.frame_code = fr.f_code
      stored, live, seen = carried(fr.f_code, fr.f_lasti)
      self.live, self.seen = live, seen
      new, k = self.rule.enter(self, loc)
      write_locals(fr, new)
      return k
    self.n += 1
    self.rule.leave(self, loc)
    raise StopIteration


@contextlib.contextmanager
def patched(mod, **attrs):
  """module globals shadowed for the duration of a run."""
  missing = object()
  old = {k: mod.__dict__.get(k, missing) for k in attrs}
  mod.__dict__.update(attrs)
  try:
    yield
  finally:
    for k, v in old.items():
      if v is missing:
        del mod.__dict__[k]
      else:
        mod.__dict__[k] = v
