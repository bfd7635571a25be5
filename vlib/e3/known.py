"""The open findings of known_findings.json, each pinned to one specific input."""
from __future__ import annotations

import json
import os

import jax.numpy as jnp
import numpy as np

from .. import env
from .base import Case, Fail, check_program

X = np.array([0.3, 1.0, 2.0, 0.7])
INPUTS = {
    'linear_solve under sparsity': lambda: check_program(lambda x: jnp.linalg.inv(3 * jnp.eye(2) + x.reshape(2, 2)), (X,), ths=(6,)),
    'empty intermediate under sparsity': lambda: check_program(lambda x: x[:0].sum() + x.sum(), (X,), ths=(6,)),
}


def cases(prop):
    with open(os.path.join(env.VERIF, 'known_findings.json')) as f:
        fs = json.load(f)['findings']

    def mk(e):
        def run(rng):
            try:
                INPUTS[e['id']]()
            except Fail as x:
                if e['expect'] not in str(x):
                    raise
                return dict(known=f"{e['what']} [{e['case']}]")

        return run

    return [Case(f"known finding/{e['id']}", mk(e)) for e in fs if e['property'] == prop]
