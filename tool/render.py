"""IR -> Verus text (mixin of Translator)."""
import re, copy
from trans import Unsupported, san

def assigned(ir):
    """names assigned in ir that are declared outside of it"""
    out = []; local = set()
    for s in ir:
        if s[0] == 'let': local.add(s[1])
        elif s[0] == 'set':
            if s[1] not in local and s[1] not in out: out.append(s[1])
        elif s[0] == 'call':
            for nm, t in s[1]: local.add(nm)
        elif s[0] == 'if':
            for b in (s[2], s[3]):
                for x in assigned(b):
                    if x not in local and x not in out: out.append(x)
        elif s[0] == 'loop':
            L = s[1]
            for x in assigned(L['pre']) + assigned(L['body']) + assigned(L['inc']):
                if x not in local and x not in out: out.append(x)
    return out

def constants(ir, params, words):
    """locals that keep their definition: set once, from such locals, parameters that are never assigned, and variables only stepped at the end of an enclosing loop"""
    lets = {}; asg = {}; order = []; where = {}; sets = {}
    def walk(b, st, inc=None):
        for s in b:
            if s[0] == 'set': asg.setdefault(s[1], []).append(inc); sets.setdefault(s[1], []).append(s[2])
            elif s[0] == 'let':
                order.append(s[1]); lets.setdefault(s[1], []).append(s); where[s[1]] = st
            elif s[0] == 'if': walk(s[2], st, inc); walk(s[3] or [], st, inc)
            elif s[0] == 'call':
                for x in s[1]: order.append(x[0])
            elif s[0] == 'loop':
                L = s[1]; k = id(L); walk(L['pre'], st + [k]); walk(L['body'], st + [k]); walk(L['inc'], st + [k], k)
    def kept(w, e):
        # only fields of w that no assignment to w replaces
        fs = re.findall(r'(?<![\w.])%s\b(?:\.([A-Za-z_]\w*))?' % w, e)
        if w not in params or order.count(w) or not all(fs): return False
        for t in sets.get(w, []):
            m = re.match(r'\(?\w+ \{ (\w+): .*, \.\.%s \}\)?$' % w, t)
            if not m or m.group(1) in fs: return False
        return True
    walk(ir, []); locs = set(order) | set(params); out = {}
    changed = True
    while changed:
        changed = False
        for n, ss in lets.items():
            if n in out or n in asg or len(ss) != 1 or order.count(n) != 1 or n in params: continue
            s = ss[0]
            if s[3][0] in ('spec_fn_bool', 'iter', 'tuple', 'mexpr', 'lambda', 'other', 'void') or '|' in s[2].replace('||', '') or 'choose' in s[2]: continue
            if all(w in out or w not in locs or (w in params and w not in asg) or kept(w, s[2]) or (w in asg and order.count(w) == 1 and all(k is not None and k in where[n] for k in asg[w])) for w in words(s[2])): out[n] = s[2]; changed = True
    return out, locs
def contract_text(c):
    out = c.requires + c.ensures + [c.entry, c.ret] + list(c.anch.values())
    for l in c.loops.values(): out += l.invariant + [l.decreases, l.begin, l.end, l.exit, l.before, l.atbreak] + (l.brk or []) + l.onret + l.until
    return ' '.join(out)

class RenderMixin:
    # ------------------------------------------------------------ pure
    def r_spec(self, ir, tail=None):
        if not ir:
            if tail is None: raise Unsupported('control reaches the end of a pure block')
            return tail
        s, rest = ir[0], ir[1:]
        if s[0] in ('let', 'set'):
            return '{ let %s = %s; %s }' % (s[1], s[2], self.r_spec(rest, tail))
        if s[0] in ('ob', 'ghost', 'gcall'): return self.r_spec(rest, tail)
        if s[0] == 'ret': return s[1][0] if len(s[1]) == 1 else '(%s)' % ', '.join(s[1])
        if s[0] == 'if':
            if self.has_ret(s[2]) or self.has_ret(s[3]):
                return '(if %s { %s } else { %s })' % (s[1], self.r_spec(s[2] + ([] if self.ends(s[2]) else rest), tail), self.r_spec(s[3] + ([] if self.ends(s[3]) else rest), tail))
            vs = assigned([s])
            if not vs: return self.r_spec(rest, tail)
            tup = vs[0] if len(vs) == 1 else '(%s)' % ', '.join(vs)
            return '{ let %s = (if %s { %s } else { %s }); %s }' % (tup, s[1], self.r_spec(s[2], tup), self.r_spec(s[3], tup), self.r_spec(rest, tail))
        raise Unsupported('pure rendering of ' + s[0])

    def r_wd(self, ir):
        """well-definedness of a pure block"""
        if not any(self.has_ob(s) for s in ir): return 'true'
        s, rest = ir[0], ir[1:]
        if s[0] in ('let', 'set'):
            return '({ let %s = %s; %s })' % (s[1], s[2], self.r_wd(rest))
        if s[0] == 'ob':
            r = self.r_wd(rest)
            return '(%s)' % s[1] if r == 'true' else '((%s) && %s)' % (s[1], r)
        if s[0] in ('ghost', 'gcall'): return self.r_wd(rest)
        if s[0] == 'ret': return 'true'
        if s[0] == 'if':
            if self.has_ret(s[2]) or self.has_ret(s[3]):
                return '(if %s { %s } else { %s })' % (s[1], self.r_wd(s[2] + ([] if self.ends(s[2]) else rest)), self.r_wd(s[3] + ([] if self.ends(s[3]) else rest)))
            a = '(if %s { %s } else { %s })' % (s[1], self.r_wd(s[2]), self.r_wd(s[3])) if self.has_ob(s) else 'true'
            r = self.r_wd(rest)
            if r == 'true': return a
            vs = assigned([s])
            if not vs: return '(%s && %s)' % (a, r)
            tup = vs[0] if len(vs) == 1 else '(%s)' % ', '.join(vs)
            return '(%s && ({ let %s = (if %s { %s } else { %s }); %s }))' % (a, tup, s[1], self.r_spec(s[2], tup), self.r_spec(s[3], tup), r)
        raise Unsupported('pure rendering of ' + s[0])

    def has_ob(self, s):
        if s[0] == 'ob': return True
        if s[0] == 'if': return any(self.has_ob(x) for x in s[2] + s[3])
        return False

    # ------------------------------------------------------------ proof
    def line(self, s): self.txt.append(s)

    def labelled(self, what):
        self.line('/*@OB %s @*/' % what.replace('*/', '* /'))

    def r_proof(self, ir, ind, F, loops=()):
        """F: rendering context of the enclosing proof fn: dict(kind, fn, outs...)"""
        P = '  ' * ind
        pend = None      # anchor after a call, once its results are stored
        for s in list(ir) + [None]:
            if pend is not None and not (s is not None and s[0] == 'set' and set(re.findall(r'\w+', s[2])) & pend[1]):
                self.anchor('after', pend[0], P, F); pend = None
            if s is None: break
            k = s[0]
            if k == 'let':
                t = ''
                if s[3][0] not in ('spec_fn_bool', 'iter', 'tuple', 'mexpr', 'lambda', 'other'): t = ': ' + self.vt(s[3])
                self.line('%slet %s%s%s = %s;' % (P, 'mut ' if s[4] else '', s[1], t, s[2]))
                self.anchor('after', s[1], P, F)
            elif k == 'set':
                self.anchor('before', s[1], P, F)
                self.line('%s%s = %s;' % (P, s[1], s[2]))
                self.anchor('after', s[1], P, F)
            elif k == 'ob':
                self.line('%sassert(%s); /*@OB %s @*/' % (P, s[1], s[2].replace('*/', '')))
                self.nob += 1
            elif k == 'ghost':
                self.line('\n'.join(P + l.strip() for l in s[1].strip().split('\n')))
            elif k == 'gcall':
                c = ' && '.join('(%s)' % p for p in s[2])
                self.line('%s%s%s;%s /*@OB requirements of %s @*/' % (P, 'if %s { ' % c if c else '', s[1], ' }' if c else '', s[1].split('(')[0]))
            elif k == 'call':
                names = [x[0] for x in s[1]]
                self.anchor('before', 'call_' + san(s[3]), P, F)
                lhs = 'let %s = ' % (names[0] if len(names) == 1 else '(%s)' % ', '.join(names)) if names else ''
                self.line('%s%s%s; /*@OB precondition of %s%s @*/' % (P, lhs, s[2], s[3], ' (line %s)' % s[4] if s[4] else ''))
                pend = ('call_' + san(s[3]), set(names))
            elif k == 'if':
                self.line('%sif %s {' % (P, s[1]))
                self.r_proof(s[2], ind + 1, F, loops)
                if s[3]:
                    self.line('%s} else {' % P)
                    self.r_proof(s[3], ind + 1, F, loops)
                self.line('%s}' % P)
            elif k == 'ret':
                self.r_return(s[1], P, F)
            elif k == 'loop': self.r_loopcall(s[1], ind, F)
            elif k == 'brk':
                L = F['loop']
                c = L['contract']
                if c.atbreak: self.line(c.atbreak)
                self.line('%sreturn %s;' % (P, self.loop_out(F, None)))
            elif k == 'cont':
                L = F['loop']
                self.r_proof(L['inc'], ind, F)
                self.line('%sreturn %s; /*@OB loop invariant and termination measure of loop %s (line %s) @*/' % (P, self.loop_recall(F), L['k'], L['line']))
            else: raise Unsupported('rendering ' + k)

    def anchor(self, which, name, P, F):
        c = F['contract']
        if not c or not c.anch: return
        cnt = F['top'].setdefault('cnt_' + which, {})
        cnt[name] = cnt.get(name, 0) + 1
        for key in ('%s %s#%d' % (which, name, cnt[name]), '%s %s' % (which, name)):
            if key in c.anch:
                F['top'].setdefault('anch_used', set()).add(key)
                self.line('\n'.join(P + l.strip() for l in c.anch[key].strip().split('\n')))

    def tup(self, xs):
        return '()' if not xs else xs[0] if len(xs) == 1 else '(%s)' % ', '.join(xs)

    def r_return(self, comps, P, F):
        if F['kind'] == 'fn':
            self.line('%sreturn %s; /*@OB postcondition of %s @*/' % (P, self.tup(comps), F['name']))
        else:
            self.line('%sreturn %s; /*@OB postcondition of %s, returning from loop %s @*/' % (P, self.loop_out(F, comps), F['name'], F['loop']['k']))

    def loop_out(self, F, comps):
        L = F['loop']
        outs = list(L['outs'])
        if L['hasret']:
            outs = outs + (['Some(%s)' % self.tup(comps)] if comps is not None else ['None'])
        return self.tup(outs)

    def loop_recall(self, F):
        L = F['loop']
        return '%s(%s)' % (L['name'], ', '.join([n for n, t in L['params']] + L['extra']))

    def words(self, s): return set(re.findall(r'[A-Za-z_]\w*', s))

    def ir_text(self, ir):
        out = []
        for s in ir:
            for x in s[1:]:
                if isinstance(x, str): out.append(x)
                elif isinstance(x, list):
                    if x and isinstance(x[0], tuple) and s[0] == 'if': out.append(self.ir_text(x))
                    else: out += [str(y[0]) if isinstance(y, tuple) else str(y) for y in x]
                elif isinstance(x, dict):
                    L = x
                    out += [self.ir_text(L['pre']), L['cond'], self.ir_text(L['body']), self.ir_text(L['inc']), self.loopc_text(L)]
        return ' '.join(out)

    def loopc_text(self, L):
        c = L['contract']
        return ' '.join(c.invariant + [c.decreases, c.begin, c.end, c.exit, c.before, c.atbreak] + (c.brk or []) + c.onret + c.until)

    def r_loopcall(self, L, ind, F):
        P = '  ' * ind
        c = L['contract']
        self.prepare_loop(L, F)
        # values at loop entry
        for x in L['pres']:
            self.line('%slet pre%d_%s = %s;' % (P, L['k'], x, x))
        ret_names = list(L['outs'])
        call = '%s(%s)' % (L['name'], ', '.join([n for n, t in L['params']] + [('pre%d_%s' % (L['k'], e[4:]) if e[4:] in L['pres'] and e.startswith('pre_') else e) for e in L['extra']]))
        tn = 'lp%d' % L['k']
        self.line('%slet %s = %s; /*@OB loop invariant of loop %s holds on entry (line %s) @*/' % (P, tn, call, L['k'], L['line']))
        n = len(ret_names) + (1 if L['hasret'] else 0)
        if n == 1 and ret_names: self.line('%s%s = %s;' % (P, ret_names[0], tn))
        else:
            for i, x in enumerate(ret_names): self.line('%s%s = %s.%d;' % (P, x, tn, i))
        if L['hasret']:
            rt = tn if n == 1 else '%s.%d' % (tn, n - 1)
            self.line('%sif %s is Some {' % (P, rt))
            if F['kind'] == 'fn':
                self.line('%s  return %s->Some_0; /*@OB postcondition of %s (returned from a loop) @*/' % (P, rt, F['name']))
            else:
                LL = F['loop']
                self.line('%s  return %s; /*@OB postcondition of %s (returned from a loop) @*/' % (P, self.tup(list(LL['outs']) + ['Some(%s->Some_0)' % rt]), F['name']))
            self.line('%s}' % P)
        self.loopq.append((L, F))

    def prepare_loop(self, L, F):
        top = F['top']
        c = L['contract']
        L['name'] = '%s_loop%d' % (top['name'], L['k'])
        L['hasret'] = self.has_ret(L['body']) or self.has_ret(L['pre'])
        if L.get('keep'):
            a0 = assigned(L['pre'] + L['body'] + L['inc'])
            k0 = [c for root, c in L.pop('keep') if root in a0]
            if k0:
                L['contract'] = c = copy.copy(c); c.invariant = k0 + c.invariant
        text = ' '.join([self.ir_text(L['pre']), L['cond'], self.ir_text(L['body']), self.ir_text(L['inc']), self.loopc_text(L)])
        # constants of the function that the contract does not mention keep their definition
        defs = top.get('defs', {}); known = set(re.findall(r'(?<![\w.])[A-Za-z_]\w*', top['ctext'])); todo = sorted(self.words(text)); facts = []; done = set(); names = dict(L['scope'])
        while todo:
            x = todo.pop(0)
            if x in done or x not in defs or x not in names or x in known: continue
            done.add(x); e = defs[x]; ws = self.words(e)
            if not all(y in names or y not in top['locals'] for y in ws): continue
            facts.append('%s == (%s)' % (x, e)); text += ' ' + e; todo += sorted(ws)
        if facts:
            L['contract'] = c = copy.copy(c); c.invariant = facts + c.invariant
        w = self.words(text)
        entry = [(n, t) for n, t in top['sig']]
        if L['hasret']:
            for n, t in entry: w.add('old_' + n)
            for k, nm, t in top['comps']:
                w.add(nm)
        scope = []
        seen = set()
        for n, t in L['scope']:
            if n in seen or n not in w: continue
            if t[0] in ('lambda', 'mexpr', 'void'): continue
            seen.add(n); scope.append((n, t))
        L['params'] = scope
        asg = assigned(L['pre'] + L['body'] + L['inc'])
        L['outs'] = [n for n, t in scope if n in asg]
        for n in asg:
            if n not in [x for x, t in scope]: raise Unsupported('assignment to %s which is not in scope of loop %d' % (n, L['k']))
        L['pres'] = [n for n, t in scope if ('pre_' + n) in w]
        L['extra'] = ['pre_' + n for n in L['pres']] + ['old_' + n for n, t in entry if 'old_' + n in w]
        # values at the entry of an enclosing loop are named pre<k>_x
        L['extra_t'] = [dict(scope)[n] for n in L['pres']] + [t for n, t in entry if 'old_' + n in w]
        enc = F.get('loop')
        while enc is not None:
            for n in enc['pres']:
                nm = 'pre%d_%s' % (enc['k'], n)
                if nm in w:
                    L['extra'].append(nm); L['extra_t'].append(dict(enc['params'])[n])
            enc = enc.get('outer')
        L['outer'] = F.get('loop')

    def r_loopfn(self, L, F):
        top = F['top']; c = L['contract']
        ty = dict(L['params'])
        outs_t = [self.vt(ty[n]) for n in L['outs']]
        if L['hasret']: outs_t.append('Option<%s>' % self.tup([self.vt(t) for _, _, t in top['comps']]))
        ps = ['%s: %s' % (n, self.vt(t)) for n, t in L['params']] + ['%s: %s' % (n, self.vt(t)) for n, t in zip(L['extra'], L['extra_t'])]
        self.line('%spub proof fn %s(%s) -> (out: %s)' % ((c.attrs + '\n') if c.attrs else '', L['name'], ', '.join(ps), self.tup(outs_t)))
        if c.invariant:
            self.line('  requires')
            for x in c.invariant: self.line('    (%s), /*@OB loop invariant "%s" @*/' % (x, x.replace('\n', ' ').replace('*/', '')[:160]))
        n = len(outs_t)
        def unpack():
            if n == 1 and L['outs']: return 'let %s = out; ' % L['outs'][0]
            return ''.join('let %s = out.%d; ' % (x, i) for i, x in enumerate(L['outs']))
        ro = 'out' if n == 1 else 'out.%d' % (n - 1)
        nr = '%s is None ==> ' % ro if L['hasret'] else ''
        has_brk = self.has_brk(L['body'])
        U = unpack()
        self.line('  ensures')
        for x in c.invariant:
            if has_brk and c.brk is not None:
                b = ' && '.join('(%s)' % y for y in c.brk)
                self.line('    %s({ %s (%s) || (%s) }), /*@OB after the loop: "%s" @*/' % (nr, U, x, b, x.replace('\n', ' ')[:160]))
            else:
                self.line('    %s({ %s %s }), /*@OB after the loop: "%s" @*/' % (nr, U, x, x.replace('\n', ' ')[:160]))
        if self.is_pure(L['pre']):
            cond = self.r_spec([s for s in L['pre']] + [('ret', [L['cond']])])
            if has_brk:
                b = ' && '.join('(%s)' % y for y in (c.brk or []))
                if c.brk is not None: self.line('    %s({ %s !(%s) || (%s) }),' % (nr, U, cond, b))
            else: self.line('    %s({ %s !(%s) }),' % (nr, U, cond))
        for x in c.until:
            b = ' || (%s)' % ' && '.join('(%s)' % y for y in c.brk) if has_brk and c.brk is not None else ''
            self.line('    %s({ %s (%s)%s }), /*@OB when the loop ends: "%s" @*/' % (nr, U, x, b, x.replace('\n', ' ')[:160]))
        if L['hasret']:
            args = ['old_' + nm for nm, t in top['sig']]
            cs = top['comps']
            post = '%s_post(%s)' % (top['name'], ', '.join(args + (['%s->Some_0' % ro] if len(cs) == 1 else ['(%s->Some_0).%d' % (ro, i) for i in range(len(cs))])))
            self.line('    %s is Some ==> %s,' % (ro, post))
        self.line('  decreases %s,' % (c.decreases or 'Error_missing_decreases'))
        self.line('{')
        for nme in L['outs']: self.line('  let mut %s = %s;' % (nme, nme))
        F2 = {'kind': 'loop', 'name': top['name'], 'loop': L, 'top': top, 'contract': top['contract']}
        self.r_proof(L['pre'], 1, F2)
        self.line('  if %s {' % L['cond'])
        self.r_proof(L['body'], 2, F2)
        if not self.ends(L['body']):
            self.r_proof(L['inc'], 2, F2)
            self.line('    return %s; /*@OB loop invariant is preserved and the measure decreases, loop %s (line %s) @*/' % (self.loop_recall(F2), L['k'], L['line']))
        self.line('  }')
        self.line('  %s' % self.loop_out(F2, None))
        self.line('}')

    def has_brk(self, ir):
        for s in ir:
            if s[0] == 'brk': return True
            if s[0] == 'if' and (self.has_brk(s[2]) or self.has_brk(s[3])): return True
        return False

    # ------------------------------------------------------------ items
    def comp_names(self, comps):
        out = []
        for k, nm, t in comps:
            out.append('r' if k == 'ret' else nm + '1')
        return out

    def emit_item(self, info):
        """Verus items of one function"""
        c = info['contract']
        self.txt = []; self.nob = 0; self.loopq = []
        name = info['name']; sig = info['sig']; comps = info['comps']
        ps = ['%s: %s' % (n, self.vt(t)) for n, t in sig]
        cts = [self.vt(t) for _, _, t in comps]
        ir = info['ir']
        args = ', '.join(n for n, _ in sig)
        loc = info['node'].get('loc', {})
        src = '%s:%s' % (info.get('file', ''), loc.get('line', ''))
        self.line('// ---- %s  [%s]' % (self.idx.qual.get(info['node']['id'], name), src))
        pure = info['pure'] and (c is None or c.mode == 'pure')
        if c is not None and c.mode == 'pure' and not info['pure']:
            raise Unsupported('%s is no longer a pure function' % name)
        cn = self.comp_names(comps)
        if pure:
            self.line('%spub open spec fn %s(%s) -> %s {\n  %s\n}' % (c.attrs + '\n' if c and c.attrs else '', name, ', '.join(ps), self.tup(cts), self.r_spec(ir)))
            self.line('pub open spec fn %s_wd(%s) -> bool {\n  %s\n}' % (name, ', '.join(ps), self.r_wd(ir)))
            if c is not None:
                self.line('pub proof fn %s_contract(%s)' % (name, ', '.join(ps)))
                if c.requires: self.line('  requires %s,' % ',\n    '.join('(%s)' % x for x in c.requires))
                self.line('  ensures')
                self.line('    %s_wd(%s), /*@OB %s never reads out of range, never violates an assertion @*/' % (name, args, name))
                if len(cn) == 1: un = 'let %s = %s(%s);' % (cn[0], name, args)
                else: un = 'let t_ = %s(%s); ' % (name, args) + ' '.join('let %s = t_.%d;' % (x, i) for i, x in enumerate(cn))
                for x in c.ensures:
                    self.line('    ({ %s %s }), /*@OB ensures "%s" @*/' % (un, x, x.replace('\n', ' ')[:200]))
                self.line('{')
                if c.attrs and 'opaque' in c.attrs: self.line('  reveal(%s);' % name)
                self.line(c.entry)
                self.line('}')
            return '\n'.join(self.txt)
        # contracted proof fn
        if c is None: raise Unsupported('%s has no contract' % name)
        hasretloop = True
        post_ps = ps + ['%s: %s' % (n, t) for n, t in zip(cn, cts)]
        self.line('pub open spec fn %s_post(%s) -> bool {\n  %s\n}' % (name, ', '.join(post_ps), ' && '.join('(%s)' % x for x in c.ensures) or 'true'))
        self.line('%spub proof fn %s(%s) -> (out: %s)' % (c.attrs + '\n' if c.attrs else '', name, ', '.join(ps), self.tup(cts)))
        if c.requires:
            self.line('  requires')
            for x in c.requires: self.line('    (%s), /*@OB requires "%s" @*/' % (x, x.replace('\n', ' ')[:160]))
        if c.ensures:
            self.line('  ensures')
            if len(cn) == 1: un = 'let %s = out;' % cn[0]
            else: un = ' '.join('let %s = out.%d;' % (x, i) for i, x in enumerate(cn))
            for x in c.ensures: self.line('    ({ %s %s }), /*@OB ensures "%s" @*/' % (un, x, x.replace('\n', ' ')[:200]))
        self.line('{')
        for n, t in sig:
            self.line('  let old_%s = %s; let mut %s = %s;' % (n, n, n, n))
        top = {'name': name, 'sig': sig, 'comps': comps, 'contract': c}
        top['defs'], top['locals'] = constants(ir, [n for n, t in sig], self.words); top['ctext'] = contract_text(c)
        F = {'kind': 'fn', 'name': name, 'top': top, 'contract': c, 'loop': None}
        self.r_proof(ir, 1, F)
        self.line('}')
        main = self.txt; self.txt = []
        while self.loopq:
            L, FF = self.loopq.pop(0)
            self.r_loopfn(L, FF)
        un = set(c.anch) - top.get('anch_used', set())
        if un: raise Unsupported('anchors not found in %s: %s' % (name, ', '.join(sorted(un))))
        return '\n'.join(main + self.txt)

    def closure(self, ids):
        """translates the functions and everything they use; -> list of infos"""
        done = []; seen = set(); todo = list(ids)
        while todo:
            i = todo.pop(0)
            if i in seen: continue
            seen.add(i)
            n = self.idx.decl[i]
            info = self.translate_fn(n)
            done.append(info)
            todo += sorted(info['used'])
        return done
