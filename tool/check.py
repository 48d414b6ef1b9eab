#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree.

1. deductive core: extracts the functions under contract from /repo, generates the Verus file(s), discharges all obligations
2. native contract harness on the compiled code of /repo: supplies concrete failing inputs (replay) and the bounded checks
exit 0: property held on everything explored;  exit 1 + VIOLATION line: it is broken."""
import os, sys, re, json, time, subprocess, shutil, threading, traceback
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('LEARNTA_REPO', '/repo')
from props import PROPS

ASSUMPTIONS = [
 'double arithmetic is modelled as exact real arithmetic; DBL_MAX and the infinities are separate absorbing values (rounding is not modelled)',
 'machine integers are mathematical integers, except that conversions to 8-bit clock indices wrap (overflow of wider integers is not modelled)',
 'std::vector, std::deque, std::pair, std::optional, std::variant, std::unordered_map, Eigen::Matrix and the std algorithms follow the models in tool/stdlib.py, tool/expr.py and contracts/prelude.rs',
 'distinct parameters and locals do not alias unless the C++ text binds a reference (Eigen expressions that read the assigned block are rejected)',
 'assert() statements of the code become proof obligations; logging, reserve() and destructors are dropped by the extraction',
 'allocation succeeds; execution is single threaded']
TRUSTED = ['Verus 0.2026.09.13 and Z3 (back end that discharges every obligation)', 'clang 18 AST (front end of the extraction)',
           'tool/*.py (mechanical translation of the AST into Verus)', 'contracts/prelude.rs (definitions of the number, matrix and sequence models)']

def compile_harness(cfg, work):
    src = os.path.join(VERIF, 'harness', cfg['harness']); out = os.path.join(work, 'harness')
    cmd = ['g++', '-std=c++17', '-O1', '-w', '-I' + REPO + '/include', '-I/usr/include/eigen3', '-I' + os.path.join(VERIF, 'harness'), '-DBOOST_LOG_DYN_LINK', src]
    cmd += [os.path.join(REPO, 'src', f) for f in cfg.get('sources', [])]
    cmd += ['-o', out, '-lboost_log', '-lboost_log_setup', '-lboost_thread', '-lboost_system', '-lpthread']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return (out if r.returncode == 0 else None), r.stdout[-3000:]

def run_harness(exe, prop, seed, budget, extra=()):
    cmd = [exe, '--prop', prop, '--seed', str(seed), '--budget', str(budget)] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=budget * 4 + 200)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace')
    return r.returncode, r.stdout.decode(errors='replace')

def parse_fails(out):
    fails = []
    for m in re.finditer(r'(?ms)^FAIL test=(\S+) index=(-?\d+)\nMESSAGE (.*?)\nINPUT\n(.*?)^END$', out):
        fails.append(dict(test=m.group(1), index=int(m.group(2)), message=m.group(3), input=m.group(4)))
    return fails

def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]

def deductive(prop, cfg, work):
    """-> dict(units=[...], decided failures, undecided)"""
    from verify import load_index, load_contracts, Unit
    from translator import Unsupported
    res = dict(units=[], failed=[], undecided=[], obligations=0, discharged=0, functions=[], solver_s=0.0, lemmas=0, cmds=[], vacuous=[], outputs=[])
    try:
        idx = load_index(work)
        contracts = load_contracts()
    except Exception as e:
        res['undecided'].append('extraction: %s' % e); return res
    units = []
    for k, fns in enumerate(cfg['units']):
        u = Unit('%s_u%d' % (prop, k), fns, idx, work, load_contracts())
        try:
            u.build()
        except Exception as e:
            res['undecided'].append('extraction of unit %d: %s' % (k, e)); 
            if os.environ.get('TRACE'): traceback.print_exc()
            continue
        for e in u.errors: res['undecided'].append('extraction: ' + e)
        if u.infos: units.append(u)
    nthr = max(1, 8 // max(1, len(units)))
    def go(u):
        u.run(timeout=420, threads=nthr)
        if u.outcome in ('rlimit', 'timeout') :
            pass
        return u
    with ThreadPoolExecutor(max_workers=4) as ex: list(ex.map(go, units))
    seen = set()
    for u in units:
        nob = u.obligations()
        res['cmds'].append(u.cmd); res['solver_s'] += getattr(u, 'wall', 0)
        names = [i['name'] for i in u.infos]
        res['functions'] += [dict(function=i['name'], cxx=u.T.idx.qual.get(i['node']['id'], '?'), file=i.get('file'), contract=bool(i['contract'])) for i in u.infos if i['name'] not in seen]
        seen |= set(names)
        lem = len(re.findall(r'(?m)^pub (?:broadcast )?proof fn lem_', u.text))
        res['lemmas'] = max(res['lemmas'], lem)
        res['obligations'] += nob
        if u.outcome == 'verified': res['discharged'] += nob
        elif u.outcome == 'failed':
            hard = [f for f in u.real if not f['rlimit']]
            soft = [f for f in u.real if f['rlimit']]
            res['discharged'] += max(0, nob - len(u.real))
            unm = [f for f in hard if any('UNMODELLED' in l for l in f['labels'])]
            for f in unm: res['undecided'].append('%s may enter a branch outside the modelled subset: %s' % (f['fn'], '; '.join(f['labels'])[:200]))
            hard = [f for f in hard if f not in unm]
            # a library lemma speaks about specifications only; it does not depend on the source
            lib = [f for f in hard if (f['fn'] or '').startswith('lem_') and not f['labels']]
            for f in lib: res['undecided'].append('lemma %s was not proved within the resources' % f['fn'])
            hard = [f for f in hard if f not in lib]
            for f in hard: res['failed'].append(dict(function=f['fn'], message=f['msg'], obligations=f['labels'], text=f['text']))
            for f in soft: res['undecided'].append('resource limit in %s' % f['fn'])
        elif u.outcome == 'vacuous': res['undecided'].append('vacuous contract: %s' % u.vacuous); res['vacuous'] += u.vacuous
        elif u.outcome == 'compile-error':
            er = [x for x in re.split(r'(?m)^(?=(?:error|warning|note)(?:\[|:))', u.stderr) if x.startswith('error')]
            res['undecided'].append('the extracted text does not fit the contracts any more: %s' % (er[0][:400] if er else u.stderr[-300:]))
        else: res['undecided'].append('%s: %s' % (u.name, u.outcome))
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    cfg = PROPS[prop]
    work = os.path.join(os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build')), prop)
    shutil.rmtree(work, ignore_errors=True); os.makedirs(work, exist_ok=True)
    t0 = time.time()
    if '--replay' in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        exe, log = compile_harness(cfg, work)
        if exe is None: print(log); return 2
        for f in rp.get('inputs', []):
            rc, out = run_harness(exe, prop, f['seed'], 60, ['--test', f['test'], '--index', str(f['index'])]); print(out)
        return 0
    budget = cfg.get('budget', 20) if tier == 'quick' else cfg.get('thorough_budget', 300)
    hres = {}
    def hjob():
        if not cfg.get('harness'): return
        exe, log = compile_harness(cfg, work)
        hres['exe'] = exe; hres['log'] = log
        if exe is None: return
        n = 4 if tier == 'quick' else 6
        with ThreadPoolExecutor(max_workers=n) as ex:
            hres['runs'] = list(ex.map(lambda k: (seed + 7919 * k, *run_harness(exe, prop, seed + 7919 * k, budget)), range(n)))
    th = threading.Thread(target=hjob); th.start()
    ded = dict(units=[], failed=[], undecided=[], obligations=0, discharged=0, functions=[], solver_s=0, lemmas=0, cmds=[])
    try: ded = deductive(prop, cfg, work)
    except Exception as e:
        ded['undecided'].append('internal: %r' % e)
        if os.environ.get('TRACE'): traceback.print_exc()
    th.join()
    # a longer search for a concrete input when the proof does not go through
    if (ded['failed'] or ded['undecided']) and hres.get('exe') and not any(parse_fails(o) for _, _, o in hres.get('runs', [])):
        with ThreadPoolExecutor(max_workers=8) as ex:
            hres['runs'] += list(ex.map(lambda k: (seed + 104729 * (k + 1), *run_harness(hres['exe'], prop, seed + 104729 * (k + 1), max(60, budget * 3))), range(8)))
    fails = []; cases = 0; testlines = {}
    for s, rc, out in hres.get('runs', []):
        for f in parse_fails(out): f['seed'] = s; fails.append(f)
        for m in re.finditer(r'(?m)^TEST (\S+) (\S+) cases=(\d+) skipped=(\d+)', out):
            cases += int(m.group(3)); testlines[m.group(2)] = testlines.get(m.group(2), 0) + int(m.group(3))
        if rc is None: ded['undecided'].append('the native harness did not end in time')
        elif rc != 0 and not parse_fails(out): ded['undecided'].append('the native harness ended with %s without a report' % rc)
    if cfg.get('harness') and hres.get('exe') is None: ded['undecided'].append('the native harness does not compile: ' + hres.get('log', '')[-600:])
    kf = known_findings(prop); hits = {}
    new = []
    for f in fails:
        k = next((k for k in kf if k.get('test') == f['test'] and re.search(k.get('match', '$^'), f['input'] + '\n' + f['message'])), None)
        if k: hits[k['id']] = k
        else: new.append(f)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    uniq = {}
    for f in new: uniq.setdefault(f['test'], f)
    new = list(uniq.values())
    viol = 0; code = 0
    rdir = os.path.join(VERIF, 'replay'); os.makedirs(rdir, exist_ok=True)
    if new or ded['failed']:
        viol = len(new) or 1; code = 1
        path = os.path.join('replay', '%s.json' % prop)
        json.dump(dict(property=prop, inputs=new, failed_obligations=ded['failed'], undecided=ded['undecided'],
                       replay_cmd='python3 tool/check.py %s --replay %s' % (prop, path)), open(os.path.join(VERIF, path), 'w'), indent=1)
        for f in new[:5]: print('-- %s: %s\n%s' % (f['test'], f['message'], f['input']))
        for f in ded['failed'][:10]: print('-- obligation not discharged in %s: %s %s' % (f['function'], f['message'], '; '.join(f['obligations'])[:300]))
    for x in ded['undecided']: print('UNDECIDED property=%s %s' % (prop, x[:600]))
    level = cfg.get('level', 'proof')
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(**({'explanation': cfg['note']} if level == 'other' else {}), obligations=ded['obligations'], discharged=ded['discharged'],
                            checker_cmd=(ded['cmds'] or ['verus'])[0] + (' (+%d more units)' % (len(ded['cmds']) - 1) if len(ded['cmds']) > 1 else ''),
                            trusted_base=TRUSTED + cfg.get('trusted', []),
                            functions_under_contract=ded['functions'], lemmas_proved=ded['lemmas'], solver_wall_s=round(ded['solver_s'], 1), back_end='Verus/Z3',
                            undecided=ded['undecided'],
                            bounded_stand_ins=cfg.get('bounded', []),
                            bounded_native_harness=dict(label='bounded, not counted as proved', cases=cases, per_test=testlines,
                                                        rule='random small inputs (see harness/%s), contract evaluated on the compiled code of /repo' % cfg.get('harness'))),
              assumptions=ASSUMPTIONS + cfg.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=viol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions, %d native cases, %.0f s' % (prop, ded['discharged'], ded['obligations'], len(ded['functions']), cases, time.time() - t0))
    if code: print('VIOLATION property=%s replay=%s%s' % (prop, 'replay/%s.json' % prop, '' if new else ' no-failing-input-found'))
    sys.stdout.flush()
    shutil.rmtree(work, ignore_errors=True) if not os.environ.get('KEEP') else None
    return code
if __name__ == '__main__': sys.exit(main())
