"""Deductive core: extracts functions of /repo, emits Verus, runs the verifier, maps the outcome to obligations."""
import os, re, sys, glob, json, time, subprocess, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cxx import *
from translator import Translator, Unsupported, parse_contracts

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CON = os.path.join(VERIF, 'contracts')
VERUS = os.environ.get('VERUS', 'verus')

TU = '#include "timed_automata_equivalence_oracle.hh"\n#include "learner.hh"\n#include "elementary_language.hh"\n#include "symbolic_membership_oracle.hh"\n#include "equivalence_oracle_memo.hh"\n#include "equivalence_oracle_by_random_test.hh"\n#include "equivalance_oracle_chain.hh"\n#include "counterexample_analyzer.hh"\n#include "%s/src/intersection.cc"\n#include "%s/src/timed_automaton.cc"\n' % (REPO, REPO)

def load_index(work, headers=None, flt='learnta'):
    idx = Index()
    src = TU if headers is None else ''.join('#include "%s"\n' % h for h in headers)
    idx.add_docs(dump(src, flt, work))
    for o in '+-':
        for d in dump('#include "bounds.hh"\n', 'operator' + o, work):
            if d.get('kind') == 'FunctionDecl' and 'Bounds' in d.get('type', {}).get('qualType', ''):
                idx.add_docs([d])
    return idx

def load_contracts():
    out = []
    for f in sorted(glob.glob(CON + '/*.vc')):
        out += parse_contracts(open(f).read(), os.path.basename(f))
    return out

def libs_for(text, libs):
    """library files whose items are mentioned (transitively)"""
    defs = {}
    for n, s in libs.items():
        for m in re.finditer(r'\b(?:proof|spec|struct|enum|const)\b(?:\s+fn)?\s+(\w+)', s): defs.setdefault(m.group(1), n)
    need = set(); todo = [text]
    while todo:
        t = re.sub(r'//[^\n]*', '', todo.pop())
        for w in set(re.findall(r'\w+', t)):
            l = defs.get(w)
            if l and l not in need:
                need.add(l); todo.append(libs[l])
    return [n for n in sorted(libs) if n in need]

class Unit:
    """one Verus file"""
    def __init__(self, name, fns, idx, work, contracts=None):
        self.name = name; self.work = work
        os.makedirs(work, exist_ok=True)
        self.T = Translator(idx, contracts if contracts is not None else load_contracts())
        self.T.bind()
        self.fns = fns
        self.errors = []     # extraction problems
        self.infos = []
        self.text = ''

    def build(self, probes=True):
        T = self.T
        ids = []
        for f in self.fns:
            c = T.byname.get(f)
            if c is None: raise Unsupported('no contract named ' + f)
            if c.node is None: self.errors.append('%s: %s' % (f, c.bind_error)); continue
            ids.append(c.node['id'])
        done = {}; todo = list(ids)
        items = []
        while todo:
            i = todo.pop(0)
            if i in done: continue
            done[i] = None
            n = T.idx.decl[i]
            try:
                info = T.translate_fn(n)
                info['file'] = os.path.basename(file_of(n) or '')
                items.append((info, T.emit_item(info)))
                done[i] = info
                todo += sorted(info['used'])
            except Unsupported as e:
                self.errors.append('%s: %s' % (T.idx.qual.get(i, i), e))
        self.infos = [x for x, _ in items]
        body = '\n'.join(list(T.static_fns.values()) + [x for _, x in items])
        # vacuity probes: the precondition of each contract is satisfiable as far as the prover can tell
        self.probes = []
        if probes:
            for info, _ in items:
                c = info['contract']
                if c is None: continue
                ps = ', '.join('%s: %s' % (n, T.vt(t)) for n, t in info['sig'])
                nm = 'probe_%s' % info['name']
                body += '\npub proof fn %s(%s)\n  %s ensures false,\n{ }\n' % (nm, ps, ('requires %s,' % ', '.join('(%s)' % r for r in c.requires)) if c.requires else '')
                self.probes.append(nm)
        recs = '\n'.join(v for v in T.records_out.values() if v) + '\n' + '\n'.join(T.enums_out.values())
        libs = {os.path.basename(f): open(f).read() for f in glob.glob(CON + '/lib_*.rs')}
        # records mentioned only by libraries are needed as well
        need = libs_for(body, libs)
        lib = '\n'.join('// ==== %s\n%s' % (n, libs[n]) for n in need)
        for q in list(T.idx.records):
            rn = T.rname(q)
            if q.startswith('learnta::') and re.search(r'\b%s\b' % re.escape(rn), lib) and q not in T.records_out:
                try: T.need_record(q)
                except Exception: pass
        for q in list(T.idx.enums):
            if q.startswith('learnta::') and re.search(r'\b%s\b' % re.escape(T.rname(q)), lib): T.need_enum(q)
        recs = '\n'.join(v for v in T.records_out.values() if v) + '\n' + '\n'.join(T.enums_out.values())
        pre = open(CON + '/prelude.rs').read()
        self.libs = need
        self.text = '#![allow(unused, nonstandard_style)]\nuse vstd::prelude::*;\nuse vstd::seq_lib::*;\nuse vstd::set_lib::*;\nuse vstd::map_lib::*;\nverus! {\n%s\n%s\n%s\n%s\nfn main() {}\n}\n' % (pre, recs, lib, body)
        self.file = os.path.join(self.work, self.name + '.rs')
        open(self.file, 'w').write(self.text)
        for w in ('assume', 'admit', 'external_body', 'external'):
            if re.search(r'\b%s\s*(\(|\])' % w, self.text): raise Unsupported('forbidden construct %s in the verified text' % w)
        return not self.errors

    def run(self, timeout=600, extra=(), threads=4):
        cmd = [VERUS, self.file, '--num-threads', str(threads), '--multiple-errors', '40', '--output-json', '--time-expanded', '--rlimit', '30', '--no-report-long-running'] + list(extra)
        self.cmd = ' '.join(cmd)
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            self.outcome = 'timeout'; self.wall = time.time() - t; self.failures = []; self.stderr = ''; return self
        self.wall = time.time() - t
        self.stderr = r.stderr; self.stdout = r.stdout
        self.parse()
        if self.outcome in ('failed', 'rlimit') and not extra: self.recheck(threads)
        return self

    def recheck(self, threads):
        """an obligation counts as failed only when it also fails on its own, with other solver seeds and more resources"""
        fns = []
        for f in self.real:
            if f['fn'] and f['fn'] not in fns: fns.append(f['fn'])
        ok = set()
        for fn in fns[:8]:
            for sd in (3, 11):
                cmd = [VERUS, self.file, '--num-threads', str(threads), '--rlimit', '60', '--no-report-long-running', '--output-json', '--verify-root', '--verify-function', fn, '--smt-option', 'smt.random_seed=%d' % sd]
                try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=150, cwd=self.work)
                except subprocess.TimeoutExpired: break
                try: vr = json.loads(r.stdout).get('verification-results', {})
                except Exception: break
                if vr.get('errors') == 0 and vr.get('verified', 0) > 0 and not vr.get('encountered-vir-error', True): ok.add(fn); break
        if not ok: return
        self.rechecked = sorted(ok)
        self.real = [f for f in self.real if f['fn'] not in ok]
        self.failures = [f for f in self.failures if f['fn'] not in ok]
        if not self.real: self.outcome = 'verified' if not self.vacuous else 'vacuous'
        elif all(f['rlimit'] for f in self.real): self.outcome = 'rlimit'

    def parse(self):
        try: js = json.loads(self.stdout)
        except Exception: js = {}
        vr = js.get('verification-results', {})
        self.js = js
        self.verified = vr.get('verified', 0); self.nerr = vr.get('errors', 0)
        self.failures = []
        lines = self.text.split('\n')
        # split diagnostics
        diags = re.split(r'(?m)^(?=(?:error|warning|note)(?:\[|:))', self.stderr)
        compile_error = vr.get('encountered-vir-error', True) or not vr or bool(re.search(r'(?m)^error\[E', self.stderr))
        starts = []
        for i, l in enumerate(lines):
            m = re.match(r'\s*pub (?:open )?(?:broadcast )?(?:proof|spec) fn (\w+)', l)
            if m: starts.append((i + 1, m.group(1)))
        def fn_at(ln):
            cur = None
            for s, n in starts:
                if s <= ln: cur = n
                else: break
            return cur
        for d in diags:
            if not d.startswith('error'): continue
            head = d.split('\n')[0]
            if head.startswith('error: aborting'): continue
            locs = [int(x) for x in re.findall(r'-->\s*\S+?:(\d+):', d)] + [int(x) for x in re.findall(r'(?m)^(\d+)\s*\|', d)]
            if not locs:
                continue
            ln = locs[0]
            labels = []
            for x in sorted(set(locs)):
                if x <= len(lines):
                    labels += re.findall(r'/\*@OB (.*?) @\*/', lines[x - 1])
            self.failures.append({'msg': head, 'line': ln, 'fn': fn_at(ln), 'labels': labels, 'text': d[:1500],
                                  'rlimit': 'rlimit' in head.lower() or 'resource limit' in d.lower()})
        pf = set(f['fn'] for f in self.failures)
        self.vacuous = [p for p in self.probes if p not in pf]
        real = [f for f in self.failures if f['fn'] not in self.probes]
        self.real = real
        if compile_error: self.outcome = 'compile-error'
        elif not real and not self.vacuous: self.outcome = 'verified'
        elif self.vacuous: self.outcome = 'vacuous'
        elif all(f['rlimit'] for f in real): self.outcome = 'rlimit'
        else: self.outcome = 'failed'

    def obligations(self):
        """number of labelled obligations: assertions, pre- and postconditions, loop invariants, termination"""
        return len(re.findall(r'/\*@OB ', self.text))

if __name__ == '__main__':
    import pickle
    work = os.environ.get('VW', '/tmp/w/v')
    p = '/tmp/w/idx3.pkl'
    if os.path.exists(p) and os.environ.get('FRESH') is None: idx = pickle.load(open(p, 'rb'))
    else: idx = load_index(work); pickle.dump(idx, open(p, 'wb'))
    u = Unit('try', sys.argv[1:], idx, work)
    ok = u.build()
    print('extraction:', u.errors, 'libs', u.libs)
    if u.infos:
        u.run()
        print(u.outcome, 'verified', u.verified, 'errors', u.nerr, 'obl', u.obligations(), 'wall %.1f' % u.wall, 'vacuous', u.vacuous)
        if u.outcome == 'compile-error': print('\n'.join(x[:700] for x in re.split(r'(?m)^(?=(?:error|warning|note)(?:\[|:))', u.stderr) if x.startswith('error')))
        for f in u.real if u.outcome != 'compile-error' else []: print('  FAIL', f['fn'], f['msg'], 'line', f['line'], f['labels']); print('     ', '\n      '.join(f['text'].split('\n')[1:12]) if os.environ.get('LONG') else '')
