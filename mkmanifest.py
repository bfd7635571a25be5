"""Writes MANIFEST.json from vlib/meta.py (run by hand after changing meta)."""
import json

from vlib.meta import META

PY = '/opt/venv/bin/python'
json.dump(
    dict(
        version=1,
        setup_cmd=f'{PY} -c "import jax, numpy, sys; sys.path.insert(0, \'/repo\'); import folx"',
        checks=[
            dict(
                property=p,
                quick_cmd=f'{PY} check.py {p}',
                thorough_cmd=f'env VERIF_TIER=thorough {PY} check.py {p}',
                technique=m['technique'],
                level=m['level'],
                level_note=m['note'],
            )
            for p, m in META.items()
        ],
        not_applicable=[],
    ),
    open('MANIFEST.json', 'w'),
    indent=1,
)
