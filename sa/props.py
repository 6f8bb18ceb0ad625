"""The properties: what each check runs and how it judges the findings.

A property is decided by `comps` (components whose most-general-client analysis
is run; findings of the given `kinds`, all kinds when None) and by `extra`
(whole-program rules over the type-checked program, see rules.py).
"""
from collections import OrderedDict

P = OrderedDict()


def prop(id, title, statement, over, text, why, files, mech, comps=(), kinds=None, extra=(), technique='', note='', na=None, clone_diff=False, state=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, comps=comps, kinds=kinds,
                 extra=extra, technique=technique, note=note, na=na, clone_diff=clone_diff, state=state)


ALL = '*'

MGC = "typestate and provenance dataflow over rustc MIR under a most-general client, to a fixpoint"
TRUST = ("Trusted: the MIR extractor and interpreter (driver/, sa/engine.py), the contracts of std/tokio/futures/indexmap/hdrhistogram/pin-project primitives in sa/models.py, "
         "the contract of user services/futures/streams/policies. Bounds are on the configuration (live handles, in-flight futures, keys, inner services), "
         "never on the length of the history; operations on one object are sequential (&mut) and distinct handles interleave at operation granularity.")

from . import proptable  # noqa: E402,F401  (fills P)
