"""Writes the module lists of the two harness crates from props.MODULES."""
import json, re, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/bin')
from props import MODULES


def sub(f, pat, new):
    s = open(f).read()
    t = re.sub(pat, lambda _: new, s, flags=re.S)
    if s != t:
        open(f, 'w').write(t)


k = [m for m in MODULES if MODULES[m].get('kani')]
sub(V + '/proofs/src/lib.rs', r'modules! \{\n.*?\}\n', 'modules! {\n' + ''.join(f'    "{n}" {n} "../../harness/{n}.rs",\n' for n in k) + '}\n')
sub(V + '/proofs/Cargo.toml', r'\[features\]\n(\w+ = \[[^\n]*\]\n)*', '[features]\n' + ''.join(f'{n} = {json.dumps(MODULES[n].get("needs", []))}\n' for n in k))
sub(V + '/native/src/lib.rs', r'modules! \{\n.*?\}\n', 'modules! {\n' + ''.join(
    f'    {"hook" if MODULES[n].get("hook") else "open"} {n} "../../harness/{n}.rs",\n' for n in MODULES if MODULES[n].get('native', True)) + '}\n')
