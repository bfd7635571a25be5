"""Deductive obligations of every property."""
from __future__ import annotations

import importlib

# property -> (module, function) pairs; each returns contracts for a tier
MODULES = {
    'C01': ['e1.main_contracts:c01'],
    'C02': ['e1.sparse_contracts:c02'],
    'C03': ['e1.contracts:c03', 'e1.sparse_contracts:elementwise'],
    'C04': ['e1.struct_contracts:c04'],
    'C05': ['e1.dot_contracts:c05'],
    'C06': ['e1.linalg_contracts:c06'],
    'C07': ['e1.complex_contracts:c07'],
    'C08': ['e1.main_contracts:c08'],
    'C09': ['e1.flow_contracts:c09'],
    'C10': ['e1.reg_contracts:c10', 'e2.registry:contracts'],
    'C11': ['e1.map_contracts:c11'],
    'C12': ['e1.prog_contracts:c12'],
    'C13': ['e1.prog_contracts:c13'],
    'C14': ['e2.interp:contracts'],
    'C15': ['e1.jac_contracts:c15'],
    'C16': ['e1.state_contracts:c16'],
    'C18': ['e2.memory:contracts'],
    'C17': ['e1.state_contracts:c17'],
}


def obligations(prop, tier):
    out = []
    for m in MODULES.get(prop, ()):
        mod, fn = m.split(':')
        try:
            out += list(getattr(importlib.import_module('.' + mod, __package__), fn)(tier))
        except (ImportError, AttributeError) as e:
            # an internal name moved: these contracts cannot be stated, the bounded cases remain
            print(f'{prop}: contracts of {mod} not available ({e})')
    return out
