#!/usr/bin/env python3
"""Decide one property: check.py <property> [quick|thorough] [--only HARNESS] [--cfg N]

Builds the executor, the whole-program LLVM IR of the harnesses together with /repo's current
source, and the native replay binary; explores every job of the property symbolically; replays
counterexamples (and a sample of path witnesses) natively; writes evidence/<property>.json.
Exit 0: held. Exit 1 + VIOLATION line: broken, reproduced natively. Exit 2: no answer."""
import concurrent.futures as cf
import fcntl, json, os, re, subprocess, sys, threading, time
from spec import SPEC
V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, 'harness')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_BUILD_TARGET'): ENV.pop(k, None)
THREADS = os.cpu_count() or 8


class NoAnswer(Exception): pass


def sh(cmd, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        m = re.search(r'^error', r.stdout, re.M)
        raise NoAnswer(f'{what} failed:\n' + (r.stdout[m.start():][:4000] if m else r.stdout[-4000:]))


def build_symex(): sh(['cargo', 'build', '-q', '--release', '--offline'], os.path.join(V, 'symex'), 'building the executor')


def build_ir(fns=('all_harnesses',)):
    d = os.path.join(H, 'target/sym/deps')
    if os.path.isdir(d):
        for f in os.listdir(d):
            if re.match(r'harness-[0-9a-f]+\.(ll|d)$', f): os.remove(os.path.join(d, f))
    # a changed mtime makes cargo re-emit the IR
    os.utime(os.path.join(H, 'src/main.rs'))
    sh(['cargo', 'rustc', '-q', '--profile', 'sym', '--offline', '--bin', 'harness', '--', '--emit=llvm-ir', '-C', 'linker=/bin/true',
        '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp', *[a for f in fns for a in ('--cfg', f)]], H, 'translating /repo and the harnesses to LLVM IR')
    fs = [f for f in os.listdir(d) if re.match(r'harness-[0-9a-f]+\.ll$', f)]
    if len(fs) != 1: raise NoAnswer(f'expected one IR file, found {fs}')
    return os.path.join(d, fs[0])


def build_native():
    sh(['cargo', 'build', '-q', '--offline', '--features', 'replay', '--target-dir', os.path.join(H, 'target/replay')], H, 'building the native replay')
    return os.path.join(H, 'target/replay/debug/harness')


def native(binary, fn, cfg, inputs, timeout=20):
    """run the harness natively on one input vector -> (outcome, trace, output)"""
    d = os.path.join(V, 'replays', 'tmp'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f'{os.getpid()}-{threading.get_ident()}')
    with open(p, 'w') as f: f.write(' '.join(map(str, inputs)))
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -v 8000000; exec "$@"', 'x', binary, fn, str(cfg), p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors='replace')
        out = r.stdout
        m = re.search(r'^OUTCOME (.*)$', out, re.M); t = re.search(r'^TRACE (.*)$', out, re.M)
        oc = m.group(1).strip() if m else f'abort {r.returncode}'
        return oc, (t.group(1).strip() if t else ''), out + r.stderr
    except subprocess.TimeoutExpired: return 'hang', '', ''
    finally: os.remove(p)


def reproduced(v, oc):
    k = v['kind']
    if k == 'assert': return oc.startswith('assert') or oc.startswith('panic')
    if k == 'panic': return oc.startswith(('panic', 'assert', 'abort', 'hang'))
    if k == 'hang': return oc.startswith(('hang', 'panic', 'abort', 'alloc'))
    if k == 'alloc': return oc.startswith(('alloc', 'abort', 'hang', 'panic'))
    return False


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = next((a for a in sys.argv[2:] if a in ('quick', 'thorough')), os.environ.get('VERIF_TIER', 'quick'))
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    onlycfg = int(sys.argv[sys.argv.index('--cfg') + 1]) if '--cfg' in sys.argv else None
    verbose = '-v' in sys.argv
    spec = SPEC[prop]
    jobspec = {j['fn']: j for j in spec['jobs']}
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == prop]
    lock = open(os.path.join(V, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    ex = cf.ThreadPoolExecutor(8)
    fn_native = ex.submit(build_native)
    f_symex = ex.submit(build_symex)
    ll = ex.submit(build_ir, [j["fn"] for j in spec["jobs"] if only in (None, j["fn"])]).result(); f_symex.result()
    t_build = time.time() - t0
    jobs = []
    for j in spec['jobs']:
        if only and j['fn'] != only: continue
        cfgs = j.get(tier, j.get('quick', [0]))
        cfgs = [c for x in cfgs for c in ([x] if isinstance(x, int) else range(int(x.split('-')[0]), int(x.split('-')[1]) + 1))]
        for c in cfgs:
            if onlycfg is not None and c != onlycfg: continue
            jobs.append((j, c))
    os.makedirs(os.path.join(V, 'replays'), exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    jf = os.path.join(V, 'replays', f'{prop}.jobs')
    wall = 1500 if tier == 'thorough' else 600
    with open(jf, 'w') as f:
        for j, c in jobs: f.write(f"{j['fn']} {c} {j.get('steps', 20_000_000)} {j.get('paths', 2_000_000)} {j.get('wall', wall)} {j.get('query_ms', 60_000)} 300\n")
    p = subprocess.Popen([os.path.join(V, 'symex/target/release/symex'), ll, jf, str(THREADS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    results = []
    for line in p.stdout:
        try: r = json.loads(line)
        except Exception: continue
        results.append(r)
        if verbose or r['errors']: print(f"{r['fn']}/{r['cfg']}: paths {r['paths']} ok {r['ok']} rej {r['rejected']} pan {r['panics']} q {r['queries']} solver {r['solver_s']:.1f}s wall {r['wall_s']:.1f}s viol {len(r['violations'])} err {r['errors'][:2]}", flush=True)
    err = p.stderr.read(); p.wait()
    problems = []
    if p.returncode != 0: problems.append(f'executor ended with {p.returncode}: {err[-500:]}')
    if len(results) != len(jobs): problems.append(f'{len(jobs) - len(results)} of {len(jobs)} jobs gave no result')
    for r in results:
        for e in r['errors']: problems.append(f"{r['fn']}/{r['cfg']}: {e}")
    # vacuity guards
    if not only:
        for j in spec['jobs']:
            seen, ids = set(), set()
            for r in results:
                if r['fn'] == j['fn']: seen |= {int(k) for k in r['covers']}; ids |= {int(k) for k in r['assert_ids']}
            for r in results:
                if r['fn'] == j['fn'] and r['ok'] + r['panics'] == 0 and not r['violations'] and not r['errors']: problems.append(f"{r['fn']}/{r['cfg']}: vacuous, no path completed")
            miss = set(j.get('covers', [])) - seen
            if miss and not any(r['violations'] for r in results if r['fn'] == j['fn']): problems.append(f"{j['fn']}: required situations never reached: {sorted(miss)}")
    nat = fn_native.result()
    # violations
    lines, bad, kf, other = [], 0, set(), 0
    reported = set()
    for r in results:
        for n, v in enumerate(r['violations']):
            j = jobspec[r['fn']]
            # what this harness also decides, but for another property
            if v['kind'] not in j.get('kinds', [v['kind']]) or v['kind'] == 'assert' and v['id'] not in j.get('ids', [v['id']]): other += 1; continue
            k = next((k for k in known if k['harness'] == r['fn'] and k['kind'] == v['kind'] and (v['kind'] != 'assert' or k['id'] == v['id']) and (v['kind'] == 'assert' or re.search(k['site'], v['site'] + ' ' + ' < '.join(v['stack'])))
                      and ('cfgs' not in k or r['cfg'] in k['cfgs'])), None)
            if k:
                if k['what'] not in kf: kf.add(k['what']); lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
                continue
            key = (r['fn'], v['kind'], v['id'], v['site'])
            if key in reported and len(reported) > 3 and not verbose: continue
            oc, tr, out = native(nat, r['fn'], r['cfg'], v['inputs'])
            path = os.path.join(V, 'replays', f"{prop}-{r['fn']}-{r['cfg']}-{n}.txt")
            what = spec.get('asserts', {}).get(r['fn'], {}).get(str(v['id']), '') if v['kind'] == 'assert' else v['site']
            with open(path, 'w') as f:
                f.write(f"property {prop}\nharness {r['fn']} config {r['cfg']}\n{v['kind']} {v['id']} {what}\nsite {v['site']}\nstack {' < '.join(v['stack'])}\nnotes {v['notes']}\ninputs {' '.join(map(str, v['inputs']))}\nnative outcome: {oc}\n{out}\n"
                        f"replay: write the inputs to a file F and run {os.path.relpath(nat, V)} {r['fn']} {r['cfg']} F\n")
            if reproduced(v, oc):
                bad += 1
                if key not in reported: lines.append(f"VIOLATION property={prop} replay={path}\n  {r['fn']}/{r['cfg']} {v['kind']} {v['id']} {what} -> {oc}")
                reported.add(key)
            else: problems.append(f"{r['fn']}/{r['cfg']}: counterexample ({v['kind']} {v['id']} {v['site']}) not reproduced natively: {oc}, see {path}")
    # agreement of executor and implementation on path witnesses
    cand = [(r, s) for r in results for s in r['samples'] if not s['sha']]
    if len(cand) > 400: step = len(cand) / 400; cand = [cand[int(i * step)] for i in range(400)]
    def val(x):
        r, s = x; oc, tr, out = native(nat, r['fn'], r['cfg'], s['inputs'])
        return oc == s['outcome'] and tr == s['trace'], r, s, oc, tr
    validated = 0
    for ok, r, s, oc, tr in ex.map(val, cand):
        if ok: validated += 1
        else: problems.append(f"{r['fn']}/{r['cfg']}: native run of a path witness differs: {s} vs {oc} {tr}")
    tot = lambda k: sum(r[k] for r in results)
    funcs = sorted({re.sub(r'::<.*$', '', f) if f.startswith('strict_types') else f for r in results for f in r['funcs'] if re.match(r'(<&?)?strict_types::', f)})
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking', wall_s=round(time.time() - t0, 2), violations=bad,
              coverage=dict(states=tot('paths') + tot('forks'), transitions=tot('steps'), traces_validated_against_impl=validated,
                            jobs=len(results), paths=tot('paths'), paths_completed=tot('ok'), paths_outside_assumptions=tot('rejected'), paths_ending_in_tolerated_panic=tot('panics'),
                            assertions_reached=tot('asserts'), assertion_queries=tot('assert_queries'), solver_queries=tot('queries'), solver_sat=tot('sat'), solver_unsat=tot('unsat'), branches_decided_by_byte_domains=tot('byte_decisions'), solver_s=round(tot('solver_s'), 2), max_query_s=max([r['max_query_s'] for r in results] or [0]),
                            build_s=round(t_build, 1), functions_encoded=funcs, functions_encoded_total=max([r['functions'] for r in results] or [0]), bounds=spec['bounds'], outside=spec.get('outside', ''),
                            known_findings=sorted(kf), alarms_belonging_to_other_properties=other, unanswered=problems[:20],
                            samples=[dict(harness=r['fn'], config=r['cfg'], inputs=s['inputs'], trace=s['trace'], outcome=s['outcome']) for r in results for s in r['samples'][-1:]][:25]),
              assumptions=spec.get('assumptions', []) + COMMON)
    with open(os.path.join(V, 'evidence', f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1)
    for l in lines: print(l)
    print(f"{prop} {tier}: {len(results)} jobs, {tot('paths')} paths, {tot('asserts')} assertions, {tot('queries')} queries, solver {tot('solver_s'):.1f}s, {validated}/{len(cand)} witnesses validated, build {t_build:.0f}s, wall {time.time() - t0:.0f}s")
    if bad: return 1
    if problems:
        for x in problems[:20]: print('NO ANSWER:', x)
        return 2
    print('HELD'); return 0


COMMON = ['the LLVM IR that rustc emits for /repo (opt-level 1, overflow checks on, debug assertions of strict_types on) has the meaning the executor gives it; every run compares the executor with native runs on path witnesses',
          'z3 answers are right; its models are re-evaluated by the executor before use',
          'SHA-256 compression is collision free on symbolic inputs (concrete inputs are computed)',
          'where a harness says so (C08, C18), the digest of symbolic data is one arbitrary constant which differs from that of any different data, instead of all possible ones',
          'the base85 crate (armored text) is replaced with another text coding, harness/vendor/base85',
          'the text of error messages quoting a malformed identifier of symbolic characters is left blank (String::from_utf8_lossy)',
          'memory allocation succeeds; hash map keys are fixed in the symbolic build']

if __name__ == '__main__':
    try: sys.exit(main())
    except NoAnswer as e: print('NO ANSWER:', e); sys.exit(2)
