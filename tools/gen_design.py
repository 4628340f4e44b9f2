#!/usr/bin/env python3-vt
"""Writes DESIGN.md: the fixed text below, and per property what its harness module says about itself."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

HEAD = '''# Design: solver-based checking of bentheiii/Records

One technique decides all 30 properties: **symbolic execution of the real source with an SMT solver** (z3, with cvc5 as a
second opinion).  `not_applicable` is empty.  Run `python3 check.py C07` (`--tier thorough`, `--units text`, `--verbose`).

## How a property is decided

1. *Encoding.*  `symx/instrument.py` reads `/repo/records/**/*.py` on every run, rewrites the AST in memory so that what CPython
   decides natively (`is`, `in`, `type()`, `isinstance`, `hash`, subscripts, formatting, calls into C) goes through the executor
   (`symx/proxies.py`), and imports the rewritten package; nothing is cached between runs and `/repo` is not touched.  The functions of
   the package run as they are written, on symbolic values.
2. *Symbolic inputs* (`symx/symctx.py`).  Arbitrary objects out of a universe of 18 runtime types (`symx/universe.py`: None, bool, int,
   float, complex, Fraction, str, bytes, list, tuple, set, dict, functions, types, user classes with subclasses ...) with symbolic type,
   identity, equality class, truth value and hash; unbounded integers, rationals, IEEE doubles, strings; callbacks (coercers, validators,
   hooks, parsers, factories, evaluators) with arbitrary outcome - any object, the argument itself, any of several exceptions; structural
   choices (which fields, options, histories of operations); preemption points of threads (C30).
3. *Exploration* (`symx/engine.py`, `symx/explore.py`).  Depth first, by re-execution: at each branch on a symbolic condition the solver
   says which sides are satisfiable under the path condition, and both are explored if both are.  A unit (one harness with fixed structural
   parameters) is complete when no side is left; `evidence/<id>.json` says for each unit whether it was.
4. *Decision.*  Each assertion of a harness becomes a query: is there a value on this path that breaks it?  `unsat` on every path means
   it holds for every value within the bounds.  `sat` gives a counterexample, which is replayed on the unmodified package in an interpreter of its own
   (`symx/replay.py`); it is a VIOLATION only if the real code breaks the same assertion there.  5 s incremental timeout, then a fresh z3 and
   cvc5; a query left open is counted as inconclusive, never as a violation.
5. *Trust in the models.*  Per unit up to 200 paths are sampled, their witnesses run on the real package, and the traces compared
   (`traces validated`, `diverged`): a wrong model of a builtin shows up as divergence, which makes the check refuse to claim coverage.
   Every unit names labels that some path must reach (vacuity guard).  Paths that leave what is modelled (`lost`) are counted in the evidence and
   a few concrete inputs that the solver gives for them are tried on the real code (this only ever adds violations; it is not counted as coverage).
6. *Known findings.*  `known-findings.txt`: `known:` entries (none at present) would be printed as KNOWN-FINDING and matched by unit, label and inputs; `fixed:`
   entries suppress nothing.

Cost: a quick check takes 5 to 90 s on 8 cores (C30: 150 s), a thorough one up to 7 minutes (C30: 20).

What the tests cannot do: they fix the types, identities, equalities, orders and callback outcomes; here these are variables.

### Threads (C30)

`symx/points.py` adds points at which a thread can be made to wait: around statements, and between the evaluation of a value and its being stored,
returned, tested or passed on.  The index of the point is a variable of the solver; two real threads run, one at a time, the first is stopped at that point
and the second runs to its end (or back to a second such variable).  Reduction: no point is placed where nothing since the last one writes an attribute,
item, container or outer variable, nor reads one that is written outside constructors (what only constructors call counts as
constructor; containers a function makes and does not store count as its own).  This is recomputed from the source each run, so that a new cache or scratch
attribute brings its own points.  The replay uses the real package with these points and nothing else changed.

## Properties

Statements and anchors are in `properties.jsonl`; the oracle of each is written in its harness (`props/cNN.py`) from the documentation, not from the code.
Every unit is explored exhaustively unless the evidence says otherwise.
'''

TAIL = '''
## Defects found and repaired

31 `fix:` commits in /repo, listed in `known-findings.txt`, each found by a counterexample of the check named there (or while writing it) and
confirmed on the real code.  No defect is left recorded but unrepaired.

Looked at and left as they are (documented or deliberate behaviour, or outside every property's statement):
blacklist_tags given as a list raises; fields named like attributes of RecordBase (`_hash`, `self`, `cls`); named tuples in Tuple fields; copies of
records whose fillers are not idempotent; cyclic structures through records; maybe_rename onto an existing key raises; `Type[Any]`, `Type[Annotated[..]]`, Callable
parameters, PEP 604 unions, PEP 695 aliases, `List[TypeVar]`; validators of a container field run before its elements are filled; from_instance drops
attributes equal to the default (the default object is used); the tolerance of Whole near integers; the name `__builtins__` in Eval; `(-1).to_bytes(0, signed=True)`;
an inherited pre_bind that adds tokens to inherited fields raises RuntimeError (a test of the project demands it); tags inside NewTypes; metadata whose
attribute access raises something else than AttributeError; a mapping that from_mapping and from_instance both parse (all fields optional) is ambiguous;
MapCoercion given an empty mapping uses a new one; values whose `==` and `!=` disagree.

## False alarms met and removed

Each was a harness or model that misrepresented the code, and was corrected: expected error types that the wrapping of field errors legitimately changes (C29's 14
exception types); hash collisions of distinct values (C13 now lets unequal records hash alike); equality of NaN-like values (assumed reflexive only where the statement says so);
Whole's rounding window (C23: 2e-9 on either side is left open); `Literal[1]` given True (types are part of the match); proxies that leaked into
reprs of error messages (now `realised` and counted).  Two sets of refactorings (helpers extracted, loops rewritten, statements reordered in every module) were run against all checks,
which stayed quiet.

## Seeded bugs

`seeded/<id>/` (never read by a check).  Each compiles, passes the 216 tests and breaks one property in an unusual circumstance; the property it breaks
is the prefix of its name, and the check of that property is the one that catches it.
'''

ORACLE = {
    'C01': 'identity of what is stored with what was given; objects whose every operation raises and is recorded must stay untouched',
    'C02': 'a table of membership per declared type over the universe, evaluated symbolically on the type of the argument',
    'C03': 'a reference fold over the outcomes of the coercers (first acceptable one wins, each is given the original argument)',
    'C04': 'a reference fold over the outcomes of the validators; call logs compared',
    'C05': 'membership by value and type in the list; subclass relation',
    'C06': 'a reference ranking of alternatives (strict match, match, coercion), ambiguity and errors',
    'C07': 'element-wise reference filling; type, order, length, aliasing of the container',
    'C08': 'pair-wise reference filling, collisions of filled keys, type and order of the mapping',
    'C09': 'set reasoning over names given, required and unknown; each field bound to its own value',
    'C10': 'a decision table over (field succeeds, parse succeeds, hook outcome)',
    'C11': 'number of parsers that succeed; each called once with the argument',
    'C12': 'what the hook sees, and what replaces the record',
    'C13': 'field-wise equality of the values; hash agreement under every history',
    'C14': 'state before and after each attempt',
    'C15': 'lexicographic comparison of the tuples of values',
    'C16': 'a reference selection of fields and order of keys',
    'C17': 'a reference application of the six lists, with the errors it must raise',
    'C18': 'the selects in sequence on a fresh mapping; every node keeps its own behaviour',
    'C19': 'the union of the inputs, later ones winning; the inputs unaltered',
    'C20': 'equality of the result, its class, independence of its parts, sharing',
    'C21': 'the interval, truth or match itself as a solver formula; errors and warnings counted',
    'C22': 'interval formulas over integers, rationals and doubles',
    'C23': 'arithmetic formulas (value kept exactly; bytes decode to the number)',
    'C24': 'call log of the target against the declared call',
    'C25': 'observations of the parent before and after; a stand-alone class with the same fields',
    'C26': 'either refused at class creation, or enforced on what is then given',
    'C27': 'sets of tags and defaults as declared',
    'C28': 'call log and namespace given to the evaluator',
    'C29': 'type, text, field name and cause chain of the error',
    'C30': 'the result each operation has alone; the shared record, the classes and their fields afterwards',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f if x.strip()]
    out = [HEAD]
    for p in props:
        m = importlib.import_module('props.' + p['id'].lower())
        out.append('### %s: %s\n' % (p['id'], p['title']))
        out.append('*Oracle*: %s.  \n*Bounds*: %s.  \n*Outside*: %s.' % (ORACLE[p['id']], m.BOUNDS, m.OUTSIDE))
        n = sum(u.tier == 'quick' for u in m.UNITS)
        more = len(m.UNITS) - n
        out.append('*Units*: %d in the quick tier%s.\n' % (n, ', %d more in the thorough one' % more if more else ''))
    out.append(TAIL)
    out.append('| bug | needs | breaks |\n|---|---|---|')
    missed = set()
    path = os.path.join(HERE, 'tools', 'missed.txt')
    if os.path.exists(path):
        with open(path) as f:
            missed = {x.split()[0] for x in f if x.strip()}
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        with open(d) as f:
            meta = json.load(f)
        name = os.path.basename(os.path.dirname(d))
        out.append('| %s%s | %s | %s |' % (name, ' (**missed**)' if name in missed else '', meta['needs'], meta['what_it_breaks']))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
