"""Writes MANIFEST.json from the contract modules (python -m vf.mkmanifest)."""
import importlib, json, os
from .core import VERIF
from .notes import note, N

IDS = [f'C{i:02d}' for i in range(1, 21)]


def main():
    checks = []
    for p in IDS:
        m = importlib.import_module(f'vf.props.{p.lower()}')
        proofs = getattr(m, 'PROOFS', None)
        lvl = getattr(m, 'LEVEL', 'other')
        checks.append(dict(
            property=p, quick_cmd=f'./check {p} --tier quick', thorough_cmd=f'./check {p} --tier thorough',
            evidence_file=f'evidence/{p}.json',
            technique=('contracts on the real functions, obligations generated from the current source and discharged by z3/cvc5 (PyVC); ' if proofs else '') +
            'the same contracts evaluated on the running code over enumerated inputs (bounded)',
            level=lvl, level_note=note(p)))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
                   notes='See DESIGN.md. No hooks in /repo; only fix: commits.'),
              open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)


def design():
    """the per-property table of DESIGN.md"""
    f = os.path.join(VERIF, 'DESIGN.md')
    s = open(f).read()
    a, b = '<!-- generated by vf.mkmanifest from vf/notes.py -->\n', '<!-- end -->'
    i, j = s.index(a) + len(a), s.index(b)
    rows = ['| id | level | proved | bounded | limits |', '|---|---|---|---|---|']
    for p in IDS:
        m = importlib.import_module(f'vf.props.{p.lower()}')
        x, y, z = N[p]
        rows.append(f'| {p} | {m.LEVEL} | {x} | {y} | {z} |')
    open(f, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])


main()
design()
