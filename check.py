#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--list]

Decides one property of /repo's current working tree by static analysis (see DESIGN.md).
exit 0: no violation; exit 1: VIOLATION line; exit 2: the analysis itself is broken."""
import importlib
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

START = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'specs'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import spec                                    # noqa: E402
from props import PROPS, KIND_SETS             # noqa: E402


def findings():
    """the committed known findings: (property, scenario regex, text regex, description)"""
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) scenario=(\S+) match=/(.*)/ :: (.*)$', l.strip())
            if m:
                out.append(m.groups())
    return out


def job(a):
    prop, modname, std, tier, tmp, shard = a
    t0 = time.time()
    out = {'module': modname, 'std': std, 'viol': [], 'undecided': [], 'scen': [], 'error': None, 'functions': [],
           'proved': 0, 'bounded': 0, 'inst': 0, 'oblig': 0, 'loops': 0, 'phases': 0, 'steps': 0, 'samples': []}
    try:
        M = importlib.import_module(modname)
        if hasattr(M, 'run_module'):
            M.run_module(prop, std, tier, tmp, out)
        else:
            ir_module(M, prop, std, tier, tmp, out, shard)
    except spec.BuildError as e:
        out['error'] = ('build', str(e))
    except Exception as e:                      # noqa: BLE001
        import traceback
        out['error'] = ('internal', traceback.format_exc())
    out['wall'] = round(time.time() - t0, 2)
    return out


def ir_module(M, prop, std, tier, tmp, out, shard=(0, 1)):
    tmp = tempfile.mkdtemp(dir=tmp)
    bc = os.path.join(tmp, f"{M.__name__}.{std.replace('+', 'x')}.bc")
    mod = spec.compile_ir(spec.driver_source(M, tmp, tier), bc, std)
    P = PROPS[prop]
    sel = [s for s in M.SC if prop in s.props or (P.get('all') and set(P['all']) & set(s.props))]
    sel = [s for s in sel if tier == 'thorough' or s.tier == 'quick']
    sel = sel[shard[0]::shard[1]]
    eng = spec.Engine(mod, M.TYPES, getattr(M, 'HOOKS', None))
    eng.tier = tier
    if tier == 'thorough':
        spec.Interp.MAX_STEPS = 20000000
    else:
        spec.Interp.DEADLINE = START + 720
    if getattr(M, 'SPARE', False):
        # invariant "an allocated buffer keeps a spare slot": established over all operations of the module
        for s in M.SC:
            if s not in sel:
                spec.run_scenario(eng, s)
    fns = set()
    passes = 0
    while True:
        passes += 1
        res = [(s, spec.run_scenario(eng, s, budget=600 if tier == 'thorough' else 240)) for s in sel]
        new = [t for t in eng.tight if eng.spare.get(t, 1) == 1] if getattr(M, 'SPARE', False) else []
        if not new or passes > 1:
            break
        for t in new:
            eng.spare[t] = 0
    kinds = KIND_SETS.get(P.get('kinds'))
    for s, r in res:
        v = [x for x in r.viol if kinds is None or x.kind in kinds]
        out['scen'].append({'name': s.name, 'instances': r.inst, 'proved': r.proved, 'bounded': r.bounded,
                            'undecided': len(r.undecided), 'violated': len(v)})
        for x in v:
            out['viol'].append((s.name, x.kind, x.text()))
        out['undecided'] += r.undecided
        for k in ('proved', 'bounded', 'inst', 'oblig', 'loops', 'phases', 'steps'):
            out[k] += getattr(r, k)
        fns |= r.functions
    out['functions'] = sorted(fns)
    inv = {t: (0 if t in eng.tight else 1) for t in eng.lays if eng.lays[t].owner}
    if inv:
        out['spare_slot_invariant'] = inv


def header_alone(std, tmp):
    src = os.path.join(tmp, 'alone.cpp')
    with open(src, 'w') as f:
        f.write('#include "efp.hpp"\nint main() { return 0; }\n')
    return subprocess.run([spec.CLANG, f'-std={std}', '-w', '-fsyntax-only', '-I', os.path.join(spec.REPO, 'include'), src],
                          capture_output=True, text=True).returncode == 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[prop]
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vp-')
    try:
        jobs = []
        for m in P['modules']:
            M = importlib.import_module(m)
            stds = getattr(M, 'STDS', {}).get(tier) or (['c++11', 'c++17'] if tier == 'quick' else ['c++11', 'c++14', 'c++17', 'c++20'])
            for std in stds:
                k = getattr(M, 'SHARDS', 1)
                jobs += [(prop, m, std, tier, tmp, (i, k)) for i in range(k)]
        with multiprocessing.Pool(min(8, len(jobs))) as pool:
            outs = pool.map(job, jobs, chunksize=1)
        rc = report(prop, P, tier, seed, outs, t0, ev, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def report(prop, P, tier, seed, outs, t0, ev, tmp):
    known = [k for k in findings() if k[0] == prop]
    viol, hit, errors = [], {}, []
    for o in outs:
        if o['error']:
            kind, txt = o['error']
            if kind == 'build' and header_alone(o['std'], tmp):
                lines = [l for l in txt.splitlines() if 'error' in l] or txt.splitlines()[:1]
                viol.append((o['module'] + '.build', 'build',
                             f"[build] an operation of the public interface no longer compiles with -std={o['std']}\n    "
                             + '\n    '.join(spec.short(l) for l in lines[:6])))
            else:
                errors.append(f"{o['module']} ({o['std']}): {kind}: {txt}")
        for sc, kind, txt in o['viol']:
            k = next((k for k in known if re.search(k[1], sc) and re.search(k[2], txt, re.S)), None)
            if k:
                hit[k] = hit.get(k, 0) + 1
            else:
                viol.append((sc, kind, txt + f"\n    standard -std={o['std']}"))
    seen, uniq = set(), []
    for v in viol:
        key = (v[0], v[1], re.sub(r'[#\d]+', '', v[2].split('\n')[0]))
        if key not in seen:
            seen.add(key)
            uniq.append(v)
    tot = {k: sum(o[k] for o in outs) for k in ('proved', 'bounded', 'inst', 'oblig', 'loops', 'phases', 'steps')}
    und = [u for o in outs for u in o['undecided']]
    fns = sorted({f for o in outs for f in o['functions']})
    scen = {}
    for o in outs:
        for s in o['scen']:
            scen.setdefault(o['module'] + '/' + s['name'], []).append(
                {'std': o['std'], **{k: s[k] for k in s if k != 'name'}})
    cov = {
        'explanation': P['explanation'],
        'rule': P['rule'],
        'units_analysed': [{'module': o['module'], 'std': o['std'], 'wall_s': o['wall'],
                            **({'spare_slot_invariant': o['spare_slot_invariant']} if 'spare_slot_invariant' in o else {})} for o in outs],
        'functions_analysed': len(fns),
        'functions_sample': [spec.demangle(f) for f in fns if 'efp' in f][:12],
        'scenarios': len(scen),
        'instances': tot['inst'],
        'instances_proved_for_all_sizes': tot['proved'],
        'instances_decided_for_enumerated_sizes': tot['bounded'],
        'instances_undecided': len(und),
        'obligations_checked': tot['oblig'],
        'loops_summarised': tot['loops'],
        'loop_phases': tot['phases'],
        'instructions_interpreted': tot['steps'],
        'undecided': und[:40],
        'scenario_table': scen,
        'samples': [x for o in outs for x in o['samples']][:8],
        'known_findings_matched': [k[3] for k in hit],
    }
    E = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'other'), 'coverage': cov,
         'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(uniq)}
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(E, f, indent=1, default=str)
    for k in hit:
        print(f"KNOWN-FINDING: property={prop} {k[3]}")
    print(f"{prop}: {len(scen)} scenarios, {tot['inst']} instances: {tot['proved']} for all sizes, "
          f"{tot['bounded']} for enumerated sizes, {len(und)} undecided; {tot['oblig']} obligations, "
          f"{len(fns)} functions, {E['wall_s']} s")
    for u in und[:10]:
        print('  undecided:', u[:300])
    if uniq:
        rp = os.path.join(ev, prop + '.violation.txt')
        with open(rp, 'w') as f:
            f.write(f"property {prop}: {len(uniq)} violation(s)\nreproduce: python3 /verif/check.py {prop} --tier {tier}\n\n")
            for v in uniq:
                f.write(f"{v[0]}\n  {v[2]}\n\n")
        for v in uniq[:6]:
            print(f"{v[0]}\n  {v[2]}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    for e in errors:
        print('ANALYSIS-ERROR', e, file=sys.stderr)
    if errors:
        return 2
    if tot['proved'] + tot['bounded'] < P.get('floor', 1):
        print(f"ANALYSIS-ERROR nothing decided for {prop}", file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    main()
