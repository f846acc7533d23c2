#!/usr/bin/env python3
"""Runs one property's check:  run.py <PID> [--tier quick|thorough]

1. compiles the harness crate (a path dependency on /repo's crates) to wasm, the IR that is executed
   symbolically, and natively (for replay), from /repo's current working tree;
2. runs the symbolic executor (engine/) over the property's jobs;
3. replays every counterexample, and a sample of explored paths, on the native build of the real code;
4. writes evidence/<PID>.json; prints VIOLATION / KNOWN-FINDING lines.
Exit 0: no unlisted violation; 1: violation; 2: the check itself failed (no verdict).
"""
import argparse, concurrent.futures as cf, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
B = os.path.join(V, 'build')
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_TERM_COLOR='never')
ENV.pop('RUSTFLAGS', None)


def cargo(crate, native):
    d = os.path.join(V, 'harness', crate)
    if native:
        env = dict(ENV, CARGO_TARGET_DIR=f'{B}/native', RUSTFLAGS='--cfg tombi_verify')
        cmd = ['cargo', 'build', '--offline', '--release', '--bin', f'{crate}-native']
    else:
        env = dict(ENV, CARGO_TARGET_DIR=f'{B}/wasm', RUSTC_BOOTSTRAP='1',
                   RUSTFLAGS=f'-Zunstable-options --cfg tombi_verify --cfg getrandom_backend="custom" --sysroot {B}/sr/sysroot '
                             '-Clink-arg=-zstack-size=8388608')
        cmd = ['cargo', 'build', '--lib', '-Zjson-target-spec', '--offline', '--release', '--target', f'{B}/wasmx64.json']
    r = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:], file=sys.stderr)
        raise SystemExit(f'error: building {crate} ({"native" if native else "wasm"}) failed')
    # shared target directories: give each crate its own copy, so that parallel builds cannot mix
    return f'{B}/native/release/{crate}-native' if native else f'{B}/wasm/wasmx64/release/{crate}.wasm'


def native_run(binary, entry, params, model):
    try:
        r = subprocess.run([binary, entry, ','.join(map(str, params)) or '-', '-' + model], capture_output=True,
                           text=True, timeout=60, errors='replace')
    except subprocess.TimeoutExpired:
        return 'TIMEOUT', ''
    lines = [l for l in r.stdout.splitlines() if re.match(r'(OK|VIOL|PANIC|ASSUME|KNOWN|BADMODEL)\b', l)]
    if not lines:
        return f'CRASH rc={r.returncode}', r.stderr[-2000:]
    return lines[0], r.stderr[-2000:]


def demangle(names):
    out = []
    for n in names:
        # readable approximation of v0 mangling: keep the identifiers
        ids = re.findall(r'\d+_?([A-Za-z_][A-Za-z0-9_]*)', n)
        out.append(n)
    return out


def show(model):
    return bytes.fromhex(model).decode('latin1')


def render(params, model):
    """The concrete input(s) a job's templates and a model describe (for people reading the replay file)."""
    import struct
    p = list(params)
    if not p:
        return []
    i = 1 + p[0]
    m = bytes.fromhex(model)
    mi = 0
    docs = []
    while i < len(p):
        n = p[i]
        w = -(-n // 8)
        b = b''.join(struct.pack('<q', x) for x in p[i + 1:i + 1 + w])[:n]
        i += 1 + w
        o = b''
        spans = []
        k = 0
        while k < len(b):
            if b[k] == 2:
                v = m[mi:mi + 1] or b'?'
                mi += 1
                spans.append((len(o), len(o) + 1))
                o += v
                k += 2 + b[k + 1]
            elif b[k] == 3:
                n2 = b[k + 1]
                c = m[mi] if mi < len(m) else 0
                mi += 1
                k += 2
                st = len(o)
                for q in range(n2):
                    l = b[k]
                    if q == c:
                        o += b[k + 1:k + 1 + l]
                    k += 1 + l
                spans.append((st, len(o)))
            elif b[k] == 4:
                a, z = spans[b[k + 1]]
                o += o[a:z]
                k += 2
            else:
                o += b[k:k + 1]
                k += 1
        docs.append(o.decode('utf8', 'replace'))
    return docs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--build-all', action='store_true')
    ap.add_argument('--only', help='regex on job labels')
    ap.add_argument('--secs', type=float)
    ap.add_argument('--profile', action='store_true')
    ap.add_argument('--threads', type=int, default=os.cpu_count())
    a = ap.parse_args()
    import specs
    if a.build_all:
        for c in sorted({s['crate'] for s in specs.SPECS.values()}):
            t = time.time()
            with cf.ThreadPoolExecutor(2) as ex:
                list(ex.map(lambda n: cargo(c, n), [False, True]))
            print(f'built {c} in {time.time() - t:.0f}s', flush=True)
        return 0
    t0 = time.time()
    pid = a.pid
    spec = specs.SPECS[pid]
    crate = spec['crate']
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if not os.path.exists(f'{B}/engine/release/symw') or not os.path.exists(f'{B}/sr/ok'):
        subprocess.run([f'{V}/setup.sh', 'engine'], check=True, stdout=sys.stderr)
    ex = cf.ThreadPoolExecutor(2)
    fw, fn = ex.submit(cargo, crate, False), ex.submit(cargo, crate, True)
    wasm = fw.result()
    native = fn.result()
    t_build = time.time() - t0

    jobs = spec['jobs'](a.tier)
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j['label'])]
    work = f'{B}/run/{pid}'
    os.makedirs(work, exist_ok=True)
    with open(f'{work}/jobs', 'w') as f:
        for j in jobs:
            f.write(f"h_{j['entry']} {j.get('split', 1)} {j['params']}\n")
    secs = a.secs or (spec.get('secs', 400) if a.tier == 'quick' else spec.get('thorough_secs', 3000))
    cmd = [f'{B}/engine/release/symw', '--wasm', wasm, '--jobs', f'{work}/jobs', '--out', f'{work}/out.json',
           '--threads', str(a.threads), '--secs', str(secs), '--job-secs', str(secs), '--samples', str(spec.get('samples', 2)),
           '--seed', str(seed), '--stop-viol', str(spec.get('stop_viol', 400)), '--max-viol', '400']
    if a.profile:
        cmd.append('--profile')
    if os.path.exists(f'{work}/out.json'):
        os.remove(f'{work}/out.json')
    t1 = time.time()
    r = subprocess.run(cmd, stdout=sys.stderr)
    if r.returncode or not os.path.exists(f'{work}/out.json'):
        raise SystemExit(f'error: the symbolic executor failed (rc={r.returncode})')
    t_sym = time.time() - t1
    o = json.load(open(f'{work}/out.json'))

    known = {}
    with open(f'{V}/known-findings.json') as f:
        for k in json.load(f)['findings']:
            if k['property'] == pid:
                known[k['id']] = k
    rc = 0
    problems = []
    # --- replay of counterexamples on the native build
    groups = {}
    for v in o['violations']:
        groups.setdefault(v['id'], []).append(v)
    confirmed, spurious = [], []
    for gid, vs in sorted(groups.items()):
        hit = None
        for v in vs[:5]:
            line, err = native_run(native, v['entry'], v['params'], v['model'])
            ok = line.startswith('VIOL') or line.startswith('PANIC') or line.startswith('CRASH') or line == 'TIMEOUT'
            if ok:
                hit = (v, line, err)
                break
            spurious.append((gid, v, line))
        if hit:
            confirmed.append((gid, len(vs), *hit))
    rdir = f'{B}/replay'
    os.makedirs(rdir, exist_ok=True)
    for n, (gid, cnt, v, line, err) in enumerate(confirmed):
        path = f'{rdir}/{pid}-{n}.json'
        json.dump({'property': pid, 'id': gid, 'entry': v['entry'], 'params': v['params'], 'model': v['model'],
                   'inputs': render(v['params'], v['model']), 'native_result': line, 'stderr': err,
                   'command': [native, v['entry'], ','.join(map(str, v['params'])) or '-', '-' + v['model']],
                   'paths_with_this_violation': cnt}, open(path, 'w'), indent=1)
        print(f'VIOLATION property={pid} replay={path}')
        print(f'  {gid}: inputs={render(v["params"], v["model"])!r} native: {line}')
        rc = 1
    for gid, v, line in spurious[:5]:
        problems.append(f'counterexample for {gid} does not reproduce natively ({line}): {render(v["params"], v["model"])!r}')
    # --- known findings
    for kid, info in sorted(o['known'].items()):
        if kid in known:
            print(f'KNOWN-FINDING: property={pid} {kid}: {known[kid]["what"]}')
        else:
            print(f'VIOLATION property={pid} replay={work}/out.json')
            print(f'  unlisted finding {kid}: {info}')
            rc = 1
    # --- translator validation: sampled paths must behave the same natively
    samples = o['samples']
    cap = 160 if a.tier == 'quick' else 800
    if len(samples) > cap:
        step = len(samples) / cap
        samples = [samples[int(i * step)] for i in range(cap)]
    bad = 0

    def chk(s):
        line, _ = native_run(native, s['entry'], s['params'], s['model'])
        return s, line, f"OK checks={s['checks']} outs={s['outs']}"
    with cf.ThreadPoolExecutor(a.threads) as pool:
        for s, line, want in pool.map(chk, samples):
            if line != want:
                bad += 1
                if bad <= 3:
                    problems.append(f'sampled path differs natively: {s["entry"]} {render(s["params"], s["model"])!r}: native {line[:200]!r}, executor {want[:200]!r}')
    for e in list({str(e)[:600] for e in o['errors']})[:5]:
        problems.append(f'executor error: {e}')
    missing = [x for x in spec.get('reach', []) if x not in o['reach']]
    if missing and rc == 0 and not a.only and not o['not_exhausted'] and o['jobs_not_started'] == 0:
        problems.append(f'vacuous: never reached {missing}')
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': o['paths'], 'transitions': o['forks'],
            'traces_validated_against_impl': len(samples) - bad + len(confirmed),
            'samples': [{'inputs': render(s['params'], s['model']), 'entry': s['entry'], 'checks': s['checks']} for s in samples[:: max(1, len(samples) // 8)][:8]],
            'what_states_are': 'feasible execution paths of the compiled code; each stands for every input value satisfying its path condition',
            'explanation': spec['bounds'],
            'exhaustive': o['jobs_exhausted'] == o['jobs'] and o['jobs_not_started'] == 0,
            'jobs': o['jobs'], 'jobs_exhausted': o['jobs_exhausted'], 'jobs_not_started': o['jobs_not_started'],
            'not_exhausted': o['not_exhausted'][:10],
            'assertions_decided': o['checks'],
            'paths_cut_by_assumption': o['assumed_away'],
            'solver': 'z3 ' + o['z3'], 'solver_queries': o['queries'], 'sat': o['sat'], 'unsat': o['unsat'],
            'unknown': o['unknown'], 'memoised_verdicts': o['memo_hits'], 'solver_seconds': o['solver_seconds'],
            'max_symbolic_bytes': o['max_symbolic_bytes'], 'instructions': o['instrs'],
            'reached': o['reach'], 'known_findings_met': sorted(o['known']),
            'functions_encoded': len(o['functions_executed']),
            'functions_with_symbolic_data': pretty(o['functions_symbolic'], spec)[:150],
            'build_s': round(t_build, 1), 'symbolic_execution_s': round(t_sym, 1),
        },
        'assumptions': COMMON + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1),
        'violations': len(confirmed),
    }
    os.makedirs(f'{V}/evidence', exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev['coverage']['functions_with_symbolic_data'] = ev['coverage']['functions_with_symbolic_data'][:40]
        ev['coverage']['samples'] = ev['coverage']['samples'][:3]
        s = json.dumps(ev, indent=1)
    open(f'{V}/evidence/{pid}.json', 'w').write(s)
    c = ev['coverage']
    print(f"{pid} {a.tier}: {c['jobs_exhausted']}/{c['jobs']} jobs exhausted, {c['states']} paths, {c['assertions_decided']} assertions, "
          f"{c['solver_queries']} queries ({c['solver_seconds']:.1f}s solver), {len(samples)} paths replayed, "
          f"build {t_build:.0f}s, symbolic {t_sym:.0f}s, reach {o['reach']}")
    if o['not_exhausted']:
        print('  not exhausted:', [(x.get('entry'), render(x['params'], '')) if isinstance(x, dict) else x for x in o['not_exhausted'][:4]])
    for p in problems:
        print('problem:', p, file=sys.stderr)
    if rc == 0 and problems:
        rc = 2
    return rc


COMMON = [
    'the code is executed as the wasm the installed rustc emits for it (64-bit usize, opt-level 2, overflow checks on, panics reported); the native build replays counterexamples and sampled paths',
    'std DefaultHasher, ahash and rustc-hash are stubbed so that a string hash depends on its length only (real key comparison decides equality); the allocator is a size-class bump allocator that never fails',
    'bounds: documents are the listed templates with symbolic bytes over the listed alphabets; anything longer or outside the alphabets is not covered',
]


def pretty(names, spec):
    out = []
    for n in names:
        n = n[2:] if n.startswith('_R') else n
        if 'tombi' not in n:
            continue
        ids, i = [], 0
        # identifiers of a v0 mangled name: <len>[_]<name>
        for m in re.finditer(r'(?<![0-9])(\d{1,3})_?', n):
            if m.start() < i:
                continue
            l = int(m.group(1))
            w = n[m.end():m.end() + l]
            if len(w) == l and re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', w) and l > 1:
                ids.append(w)
                i = m.end() + l
        ids = [x for x in ids if x not in ('core', 'alloc')]
        s = '::'.join(ids[:5])
        if s and s not in out:
            out.append(s)
    return sorted(out, key=lambda s: (not s.startswith('tombi'), s))


if __name__ == '__main__':
    sys.exit(main())
