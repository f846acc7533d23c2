#!/usr/bin/env python3
"""try1.py CRATE ENTRY [ints] DOC...: one concrete native run (debugging aid)."""
import subprocess, sys
import specs


def go(crate, entry, ints, docs):
    p = specs.job(entry, ints, docs)['params']
    p = [p] if isinstance(p, str) else list(map(str, p))
    r = subprocess.run([f'/verif/build/native/release/{crate}-native', 'h_' + entry, ','.join(p) or '-', '-'], capture_output=True, text=True, errors='replace')
    return r.stdout.strip()[:400] or r.stderr[:150]


if __name__ == '__main__':
    a = sys.argv[1:]
    print(go(a[0], a[1], eval('[' + a[2] + ']'), [x.encode().decode('unicode_escape') if '\\' in x else x for x in a[3:]]))
