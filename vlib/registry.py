"""Everything that decides a property: id -> item with run(seed), kind, weight."""
from __future__ import annotations


def items(prop, tier):
    from . import e3
    from .e3 import known  # noqa: F401

    out = {}
    fam = e3.families()
    if prop in fam:
        for c in fam[prop](tier) + e3.known.cases(prop):
            assert c.id not in out, c.id
            out[c.id] = c
    try:
        from . import proofs
    except ImportError:
        proofs = None
    if proofs:
        for o in proofs.obligations(prop, tier):
            assert o.id not in out, o.id
            out[o.id] = o
    return out
