#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough

Builds the contract in /repo twice from its current working tree - once on symbolic integers
(symh) and once unmodified (conch) - explores the property's scenarios symbolically, replays every
counterexample and a sample of the passing paths on the unmodified build, and writes
evidence/PROPERTY.json.  Exit 0: held on everything explored; 1: violated (VIOLATION line);
2: the check itself could not give an answer."""
import hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.environ.get('VERIF_TARGET', os.path.join(V, '.target'))
BUDGET = {'quick': 420, 'thorough': 3000}


def build(which, toolchain, errs):
    env = dict(os.environ, RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=os.path.join(TARGET, which), CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        env.pop(k, None)
    if which == 'symh':
        # contract, cw-storage-plus and cosmwasm-std go through mirpass (raw integers become symbolic)
        pe = dict(env, CARGO_TARGET_DIR=os.path.join(TARGET, 'mirpass'))
        sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
        pe['RUSTFLAGS'] = f'-C link-args=-Wl,-rpath,{sysroot}/lib'
        p = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(V, 'mirpass'), env=pe,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            errs.append(f'mirpass: build failed\n{p.stdout[-4000:]}')
            return
        env['RUSTC_WRAPPER'] = os.path.join(TARGET, 'mirpass', 'release', 'mirpass')
        env['MIRPASS_NAMES'] = os.path.join(TARGET, 'functions.txt')
        h = hashlib.sha256(b''.join(open(os.path.join(V, 'mirpass', f), 'rb').read() for f in ('src/main.rs', 'Cargo.toml'))).hexdigest()[:16]
        env['RUSTFLAGS'] = f'-Zthreads=4 --cfg mirpass_{h} -Aunexpected_cfgs'
    p = subprocess.run((['nice', '-n', '15'] if which == 'conch' else []) + ['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(V, which), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errs.append(f'{which}: build failed\n{p.stdout[-4000:]}')


def binary(which):
    return os.path.join(TARGET, which, 'release', which)


def replay(traces):
    if not traces:
        return []
    p = subprocess.run([binary('conch'), 'replay'], input=json.dumps(traces), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode != 0:
        raise RuntimeError('replay failed: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def known(prop):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def matches(k, v, why):
    return (k.get('harness') in (None, v['harness'])
            and re.fullmatch(k['label'], why) is not None
            and re.search(k.get('history', ''), '\n'.join(v['notes'])) is not None)


def main():
    if sys.argv[1:] == ['--build-only']:
        errs = []
        ths = [threading.Thread(target=build, args=a) for a in (('symh', 'nightly', errs), ('conch', 'stable', errs))]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        print('\n'.join(errs) or 'built')
        return 1 if errs else 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = float(os.environ.get('VERIF_BUDGET', BUDGET[tier]))
    t0 = time.time()
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    errs = []
    ths = [threading.Thread(target=build, args=a) for a in (('symh', 'nightly', errs), ('conch', 'stable', errs))]
    for t in ths:
        t.start()
    ths[0].join()
    if errs:
        ths[1].join()
        print('\n'.join(errs))
        return 2
    t_build = time.time() - t0
    outf = os.path.join(V, 'evidence', f'.{prop}.run.json')
    sym = subprocess.run([binary('symh'), 'run', prop, '--tier', tier, '--budget', str(budget), '--seed', str(seed), '--out', outf],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(sym.stdout, end='')
    ths[1].join()
    if errs or sym.returncode != 0 or not os.path.exists(outf):
        print('\n'.join(errs) or 'symbolic run failed')
        return 2
    runs = json.load(open(outf))
    os.unlink(outf)
    if not runs:
        print('no harness for', prop)
        return 2

    # counterexamples
    bad, finding, spurious = [], {}, []
    for r in runs:
        vs = r['violations']
        for v, c in zip(vs, replay(vs)):
            if c['outcome'] == 'violated':
                ks = [k for k in known(prop) if matches(k, v, c['why'])]
                if ks:
                    finding.setdefault(ks[0]['what'], (v, c))
                else:
                    bad.append((v, c))
            else:
                spurious.append((v, c))
    # paths the engine could not follow to their end: what the unmodified build does there still counts
    for r in runs:
        vs = r['error_traces']
        for v, c in zip(vs, replay(vs)):
            if c['outcome'] == 'violated' and not [k for k in known(prop) if matches(k, v, c['why'])]:
                bad.append((v, c))
    # passing paths: the unmodified build must behave exactly as the symbolic run predicted
    validated, mism = 0, []
    samples = []
    for r in runs:
        ss = r['samples']
        for s, c in zip(ss, replay(ss)):
            if c['outcome'] == 'ok' and c['obs'] == s['obs']:
                validated += 1
                if len(samples) < 6 and len(s['notes']) > 1 or not samples:
                    samples.append({'harness': s['harness'], 'inputs': s['vars'], 'choices': s['choices'], 'history': s['notes'], 'observed': s['obs']})
            else:
                mism.append((s, c))
    errors = sum(len(r['errors']) for r in runs)
    paths = sum(r['paths'] for r in runs)
    missing = [f"{r['harness']}: {w}" for r in runs for w in r['missing_witnesses']]
    pins = sorted({p for r in runs for p in r['pins']})
    incomplete = [r['harness'] for r in runs if not r['complete']]

    n = 0
    for v, c in bad:
        n += 1
        f = os.path.join(V, 'evidence', 'replay', f'{prop}-{n}.json')
        json.dump({'property': prop, 'violated': c['why'], 'harness': v['harness'], 'label': v['label'], 'vars': v['vars'],
                   'choices': v['choices'], 'history': c['notes'], 'observed': c['obs'],
                   'how': 'tools/replay.sh THIS_FILE re-runs this history on the unmodified contract'}, open(f, 'w'), indent=1)
        print(f"  {c['why']}")
        for l in c['notes']:
            print('     ', l)
        print('     ', v['vars'])
        print(f'VIOLATION property={prop} replay={f}')
    for what, (v, c) in finding.items():
        print(f'KNOWN-FINDING: property={prop} {what}')

    status = 0
    why = []
    if bad:
        status = 1
    else:
        if spurious:
            status = 2
            for v, c in spurious[:3]:
                why.append(f"counterexample not reproduced by the unmodified build ({c['outcome']} {c['why']}): {v['label']} {v['vars']} {v['notes']}")
        if mism:
            status = 2
            for s, c in mism[:3]:
                why.append(f"a symbolic path and the unmodified build disagree ({c['outcome']} {c['why']}): {s['vars']} {s['choices']} sym {s['obs']} real {c['obs']}")
        if missing:
            status = 2
            why.append('vacuous: never reached ' + '; '.join(missing))
        if errors and (tier == 'quick' or errors * 20 > paths) and not bad:
            status = 2
            why.append(f'{errors} path(s) could not be analysed: ' + '; '.join(sum((r['errors'] for r in runs), [])[:3]))
        if paths == 0:
            status = 2
            why.append('no path explored')
        if validated == 0:
            status = 2
            why.append('no passing path was validated')
    for w in why:
        print('INCONCLUSIVE', w)
    if incomplete:
        print('note: time budget reached before every path was explored in:', ', '.join(incomplete))

    if pins:
        print('note: beyond these operations only single values were explored:', '; '.join(pins))

    tot = lambda k: sum(r[k] for r in runs)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': paths,
            'transitions': tot('forks') + tot('choices') + tot('decided_interval'),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'exhaustive': not incomplete and not errors and not pins,
            'meaning': 'states: complete symbolic paths through the compiled contract, each covering every value of its symbolic inputs; transitions: branches taken on symbolic conditions and scenario choices',
            'bounds': {r['harness']: r['bounds'] for r in runs},
            'solver': {
                'queries_sat': tot('queries_sat'), 'queries_unsat': tot('queries_unsat'), 'queries_unknown': tot('queries_unknown'),
                'fallback_queries': tot('queries_fallback'), 'solver_seconds': round(tot('solver_s'), 2),
                'slowest_query_seconds': round(max(r['slowest_query_s'] for r in runs), 3),
                'branches_decided_by_interval_reasoning': tot('decided_interval'),
                'command': 'z3-new -in -smt2 (fallbacks z3-new one-shot, cvc5)'},
            'assertions': {'evaluated': tot('checks'), 'needing_the_solver': tot('checks_by_solver'),
                           'by_label': merge([r['labels'] for r in runs])},
            'reached': merge([r['reached'] for r in runs]),
            'functions_encoded': functions(runs),
            'per_harness': [{k: r[k] for k in ('harness', 'paths', 'infeasible', 'queries_sat', 'queries_unsat', 'queries_unknown', 'checks', 'solver_s', 'wall_s', 'complete', 'paths_left')} for r in runs],
            'inconclusive': why,
            'operations_continued_with_single_values': pins,
            'known_findings': sorted(finding),
        },
        'assumptions': ASSUME,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(bad),
    }
    json.dump(ev, open(os.path.join(V, 'evidence', f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {"held" if status == 0 else "VIOLATED" if status == 1 else "INCONCLUSIVE"}; {paths} paths, {tot("queries_unsat")} unsat + {tot("queries_sat")} sat queries, '
          f'{validated} paths validated on the unmodified build; build {t_build:.0f}s, total {time.time()-t0:.0f}s')
    return status


def functions(runs):
    names = open(os.path.join(TARGET, 'functions.txt')).read().splitlines()
    got = {names[int(c[1:])] for r in runs for c in r['counters'] if re.fullmatch(r'f\d+', c)}
    return sorted(n for n in got if 'serde' not in n)


def merge(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return o


ASSUME = [
    'amounts per placement or swap within the stated ranges (up to 10^30 base units), so that totals per denom fit 128 bits, as bank supplies on chain do',
    'the chain is modelled by harness/src/chain.rs: atomic transactions, a bank that rejects non-positive amounts, replies as CosmWasm delivers them; gas is not modelled',
    'the symbolic build replaces the integers under Uint128/Uint256/Decimal of cosmwasm-std 1.5.5; every counterexample and a sample of the passing paths is replayed on the unmodified build',
    'ticks are taken from the stated finite sets unless the bounds say otherwise; z3 answers are trusted',
]

sys.exit(main())
