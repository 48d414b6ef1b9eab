"""Translates C++ functions (clang AST) into Verus proof functions, in functional state-passing form.

Everything that is not understood raises Unsupported: nothing is silently skipped, except the things listed in
DROPS (logging statements, reserve(), object destruction, noexcept/move annotations)."""
import re, os
from cxx import *

DROPS = ['BOOST_LOG_* statements', 'reserve() calls', 'std::move / std::forward (treated as copies; moved-from values are not reused)',
         'static_assert', 'destructors']

def isconst(q):
    return bool(re.match(r'^\s*const\b', q) or re.search(r'\bconst\s*&{0,2}\s*$', q))

class Unsupported(Exception):
    pass

KEYWORDS = set('''as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref
return self Self static struct super trait true type unsafe use where while async await dyn box try yield proof spec exec
assert assume requires ensures invariant decreases forall exists choose open closed ghost tracked nat int real is has matches out final abstract become override priv typeof unsized virtual macro via'''.split())

def san(n):
    n = re.sub(r'\W', '_', n)
    if n in KEYWORDS: n += '_'
    return n

OPN = {'operator&&': 'op_and', 'operator&=': 'op_andassign', 'operator==': 'op_eq', 'operator!=': 'op_ne', 'operator+': 'op_plus',
       'operator-': 'op_minus', 'operator+=': 'op_plusassign', 'operator^': 'op_xor', 'operator()': 'op_call', 'operator<': 'op_lt',
       'operator<=': 'op_le', 'operator>': 'op_gt', 'operator>=': 'op_ge', 'operator bool': 'op_bool', 'operator=': 'op_assign',
       'operator||': 'op_or', 'operator[]': 'op_index', 'operator*': 'op_star'}

class V:
    """A value: text is a Verus expression without side effects."""
    __slots__ = ('text', 'type', 'path', 'x')
    def __init__(self, text, type, path=None, x=None):
        self.text = text; self.type = type; self.path = path; self.x = x

class Path:
    """An lvalue: root variable, then accessors ('f', field) | ('i', index) | ('m', i, j)."""
    def __init__(self, root, acc=(), types=()):
        self.root = root; self.acc = tuple(acc)
    def text(self):
        t = self.root
        for a in self.acc:
            if a[0] == 'f': t = '%s.%s' % (t, a[1])
            elif a[0] == 'i': t = '%s[%s]' % (t, a[1])
            elif a[0] == 'm': t = '%s.at(%s, %s)' % (t, a[1], a[2])
            elif a[0] == 'k': t = '%s[%s]' % (t, a[1])
            elif a[0] == 'v': t = '%s->%s_0' % (t, a[1])
        return t
    def add(self, *a): return Path(self.root, self.acc + (a,))
    def update(self, newtext):
        """text of the root after storing newtext"""
        def go(cur, acc):
            if not acc: return newtext
            a = acc[0]
            if a[0] == 'f':
                return '(%s { %s: %s, ..%s })' % (a[2], a[1], go('%s.%s' % (cur, a[1]), acc[1:]), cur)
            if a[0] == 'i':
                return '%s.update(%s, %s)' % (cur, a[1], go('%s[%s]' % (cur, a[1]), acc[1:]))
            if a[0] == 'k':
                return '%s.insert(%s, %s)' % (cur, a[1], go('%s[%s]' % (cur, a[1]), acc[1:]))
            if a[0] == 'v':
                return 'VarDC::%s(%s)' % (a[1], go('%s->%s_0' % (cur, a[1]), acc[1:]))
            if a[0] == 'm':
                return 'mset(%s, %s, %s, %s)' % (cur, a[1], a[2], go('%s.at(%s, %s)' % (cur, a[1], a[2]), acc[1:]))
        return go(self.root, self.acc)

class MX:
    """Eigen expression: evaluated coefficient by coefficient."""
    def __init__(self, rows, cols, at, reads=(), region=None):
        self.rows = rows; self.cols = cols; self.at = at; self.reads = list(reads); self.region = region

class Contract:
    def __init__(self):
        self.qual = None; self.sig = None; self.name = None; self.params = None
        self.requires = []; self.ensures = []; self.entry = ''; self.ret = ''; self.loops = {}; self.anch = {}
        self.mode = None; self.statics = {}; self.src = ''; self.attrs = ''; self.props = []; self.inline_in = None
        self.rename = {}; self.heaps = []; self.unreached = False; self.noassert = False; self.abs = None

class LoopC:
    def __init__(self):
        self.invariant = []; self.decreases = ''; self.begin = ''; self.end = ''; self.exit = ''; self.before = ''
        self.brk = None; self.attrs = ''; self.atbreak = ''; self.onret = []; self.until = []

def parse_contracts(text, fn=''):
    """see contracts/README in DESIGN.md for the format"""
    out = []; c = None; sec = None; loop = None; buf = []
    raw = []
    def clauses(s):
        """splits on commas at depth zero (not inside quantifier binders)"""
        s = re.sub(r'//[^\n]*', '', s)
        res = []; cur = ''; d = 0; i = 0
        while i < len(s):
            m = re.match(r'(forall|exists|choose)\s*\|[^|]*\|', s[i:])
            if m and (i == 0 or not s[i - 1].isalnum()):
                cur += m.group(0); i += len(m.group(0)); continue
            m = re.match(r'::<[^<>]*>', s[i:])
            if m: cur += m.group(0); i += len(m.group(0)); continue
            ch = s[i]
            if ch in '([{': d += 1
            if ch in ')]}': d -= 1
            if ch == ',' and d == 0:
                if cur.strip(): res.append(cur.strip())
                cur = ''
            else: cur += ch
            i += 1
        if cur.strip(): res.append(cur.strip())
        return res
    def flush():
        nonlocal buf
        s = '\n'.join(buf); buf = []
        if c is None or sec is None:
            return
        tgt = c if loop is None else loop
        if sec == 'requires': c.requires += clauses(s)
        elif sec == 'ensures': c.ensures += clauses(s)
        elif sec == 'invariant': loop.invariant += clauses(s)
        elif sec == 'break': loop.brk = (loop.brk or []) + clauses(s)
        elif sec == 'onret': loop.onret += clauses(s)
        elif sec == 'until': loop.until += clauses(s)
        elif sec == 'decreases': loop.decreases += s.strip()
        elif sec in ('begin', 'end', 'exit', 'before', 'atbreak'): setattr(loop, sec, getattr(loop, sec) + s)
        elif sec == 'entry': c.entry += s
        elif sec == 'return': c.ret += s
        elif sec.startswith('static '): c.statics[sec.split()[1]] = s.strip()
        elif sec.startswith('after ') or sec.startswith('before '): c.anch[sec] = s
        else: raise Unsupported('contract section ' + sec)
    for line in text.split('\n'):
        m = re.match(r'^@(\w+)\s*(.*)$', line)
        if not m:
            buf.append(line); continue
        flush()
        k, a = m.group(1), m.group(2).strip()
        if k == 'fn':
            mm = re.match(r'^(\S.*?)(?:/(.*?)/)?\s+as\s+(\w+)\s*\((.*)\)\s*$', a)
            if not mm: raise Unsupported('bad @fn ' + a)
            c = Contract(); c.qual = mm.group(1); c.sig = mm.group(2); c.name = mm.group(3)
            c.params = [x.strip() for x in mm.group(4).split(',') if x.strip()]
            c.src = fn
            out.append(c); sec = None; loop = None
        elif k == 'abstract':
            # a virtual method without body: object type and the specification functions that describe it
            c.mode = 'abstract'; c.abs = dict(x.split('=') for x in a.split()); sec = None
        elif k == 'mode': c.mode = a; sec = None
        elif k == 'heap': c.heaps.append((a.split()[0], 'ro' in a.split()[1:])); sec = None
        elif k == 'unreached': c.unreached = True; sec = None
        elif k == 'noassert': c.noassert = True; sec = None
        elif k == 'attrs': 
            if loop is None: c.attrs = a
            else: loop.attrs = a
            sec = None
        elif k == 'loop':
            loop = c.loops.setdefault(int(a), LoopC()); sec = None
        elif k == 'endloop': loop = None; sec = None
        elif k in ('requires', 'ensures', 'entry', 'return'):
            loop = None; sec = k
            if a: buf.append(a)
        elif k in ('after', 'before') and a and loop is None: sec = k + ' ' + a
        elif k == 'static': sec = 'static ' + a
        elif k in ('anchor_after', 'anchor_before'): sec = k[7:] + ' ' + a
        else:
            sec = k
            if a: buf.append(a)
    flush()
    return out

class FnCtx:
    """state while translating one function (and what is inlined into it)"""
    def __init__(self):
        self.env = {}           # decl id -> V (path) or alias
        self.scope = []         # names in scope: (name, type)
        self.loops = 0
        self.calls = {}
        self.fresh = 0

class TranslatorCore:
    def __init__(self, idx, contracts, special=None):
        self.idx = idx
        self.contracts = contracts
        self.bynode = {}
        self.byname = {}
        self.out = []              # emitted verus items, in order
        self.emitted = {}          # node id -> info
        self.records_out = {}
        self.enums_out = {}
        self.ob = {}               # label -> description
        self.labels = []
        self.special = special or {}
        self.specs_used = {}
        self.inprogress = set()
        self.unused_loops = []
        self.fn_report = []
        self.used = set(); self.inl_stack = []; self.inl_ret = []; self.quant = False; self.is_inline = 0; self.cn = None; self.heapvars = {}; self.partial = None
        self.static_fns = {}

    # ------------------------------------------------------------ contracts <-> functions
    def bind(self, only=None):
        """finds the function each contract speaks about"""
        self.absobj = {}; self.absfn = {}; self.opaque = {}
        for c in self.contracts:
            if c.mode == 'abstract':
                q = 'learnta::' + c.qual; c.node = None; c.bind_error = '%s is abstract' % c.qual
                rec = q.rsplit('::', 1)[0]
                if 'opaque' in c.abs: self.opaque[rec] = c.abs['obj']     # a class whose objects are seen only through these functions
                elif c.abs['obj'] != 'self': self.absobj[rec] = c.abs['obj']
                for i, n in self.idx.decl.items():
                    if self.idx.qual.get(i) == q and n.get('kind') == 'CXXMethodDecl' and (n.get('pure') or 'opaque' in c.abs or c.abs['obj'] == 'self') and (not c.sig or re.search(c.sig, self.sigstr(n))):
                        self.absfn[i] = c
                self.byname[c.name] = c
                continue
            q = c.qual if c.qual.startswith('::') else 'learnta::' + c.qual
            q = q.lstrip(':')
            cand = self.idx.funcs.get(q, [])
            if c.sig:
                cand = [n for n in cand if re.search(c.sig, self.sigstr(n))]
            cand = [n for n in cand if len(params_of(n)) == len(c.params)]
            # identical redeclarations
            u = {}
            for n in cand: u.setdefault(n['type']['qualType'] + str(n.get('loc', {}).get('line')), n)
            cand = list(u.values())
            c.node = None
            if len(cand) == 1:
                c.node = cand[0]
                self.bynode[c.node['id']] = c
            else:
                c.bind_error = '%d candidates for %s' % (len(cand), c.qual)
            self.byname[c.name] = c

    def sigstr(self, n):
        return n['type']['qualType']

    # ------------------------------------------------------------ types
    def vt(self, t):
        k = t[0]
        if k == 'D': return 'D'
        if k == 'int': return 'int'
        if k == 'bool': return 'bool'
        if k == 'seq': return 'Seq<%s>' % self.vt(t[1])
        if k == 'pair': return 'Pair<%s, %s>' % (self.vt(t[1]), self.vt(t[2]))
        if k == 'tuple': return '(%s)' % ', '.join(self.vt(x) for x in t[1:])
        if k == 'mat': return 'Mat'
        if k == 'var': return 'VarDC'
        if k == 'opt': return 'Option<%s>' % self.vt(t[1])
        if k == 'map': return 'Map<%s, %s>' % (self.vt(t[1]), self.vt(t[2]))
        if k == 'set': return 'Set<%s>' % self.vt(t[1])
        if k == 'struct' and t[1] in self.opaque: return self.opaque[t[1]]
        if k == 'struct': self.need_record(t[1]); return self.rname(t[1])
        if k == 'enum': self.need_enum(t[1]); return self.rname(t[1])
        if k == 'iter': return 'Option<%s>' % self.vt(t[2]) if t[1:2] == ('opt',) else 'int'
        if k == 'unit' or k == 'void': return '()'
        if k == 'ptr': return 'int'
        if k == 'own': return self.vt(self.owned(t))
        if k == 'abs': return t[1]
        if k == 'rng': return 'RngObj'
        if k == 'dist': return 'Pair<%s, %s>' % (self.vt(t[1]), self.vt(t[1]))
        raise Unsupported('type %s' % (t,))

    def owned(self, t):
        """the object a unique_ptr owns: an abstract object when the class is an interface"""
        q = t[1]
        if q[0] == 'struct' and q[1] in self.absobj: return ('abs', self.absobj[q[1]])
        return q

    def rname(self, q):
        return re.sub(r'\W', '', q.replace('learnta::', '').replace('::', '_').replace('<', '_').replace(',', '_'))

    def bases(self, q):
        n = self.idx.records[q]
        out = []
        for b in n.get('bases', ()):
            t = parse_type(b['type'].get('desugaredQualType', b['type']['qualType']), self.idx)
            out.append(t)
        return out

    def fields(self, q):
        n = self.idx.records[q]
        out = []
        for b in self.bases(q):
            if b[0] == 'struct': out.append(('base', b))
            elif b[0] == 'seq': out.append(('base', b))
            else: raise Unsupported('base class %s' % (b,))
        for c in n.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                out.append((san(c['name']), ntype(c, self.idx)))
        return out

    def need_record(self, q):
        if q in self.records_out: return
        self.records_out[q] = None
        fs = self.fields(q)
        txt = 'pub ghost struct %s { %s }' % (self.rname(q), ', '.join('pub %s: %s' % (f, self.vt(t)) for f, t in fs))
        txt = txt.replace('pub ghost struct', 'pub struct')
        self.records_out[q] = txt

    def need_enum(self, q):
        if q in self.enums_out: return
        n = self.idx.enums[q]
        cs = [c['name'] for c in n.get('inner', ()) if c.get('kind') == 'EnumConstantDecl']
        self.enums_out[q] = 'pub enum %s { %s }' % (self.rname(q), ', '.join(san(c) for c in cs))

    def default(self, t, value_init=True):
        k = t[0]
        if k == 'D': return 'D::Fin(0real)' if value_init else 'arbitrary::<D>()'
        if k == 'int': return '0int' if value_init else 'arbitrary::<int>()'
        if k == 'bool': return 'false' if value_init else 'arbitrary::<bool>()'
        if k == 'seq': return 'Seq::<%s>::empty()' % self.vt(t[1])
        if k == 'pair': return 'Pair { first: %s, second: %s }' % (self.default(t[1]), self.default(t[2]))
        if k == 'mat': return 'mat_empty()'
        if k == 'opt': return 'None::<%s>' % self.vt(t[1])
        if k == 'map': return 'Map::<%s, %s>::empty()' % (self.vt(t[1]), self.vt(t[2]))
        if k == 'set': return 'Set::<%s>::empty()' % self.vt(t[1])
        if k == 'ptr': return '0int' if value_init else 'arbitrary::<int>()'
        if k == 'var': return 'VarDC::Dbl(D::Fin(0real))'
        raise Unsupported('default of %s' % (t,))

    # ------------------------------------------------------------ orders and equality
    def lt(self, t, a, b):
        k = t[0]
        if k == 'D': return 'dlt(%s, %s)' % (a, b)
        if k in ('int', 'iter'): return '(%s < %s)' % (a, b)
        if k == 'bool': return '(!(%s) && (%s))' % (a, b)
        if t == BOUNDS: return 'blt(%s, %s)' % (a, b)
        if k == 'pair' and t[1][0] == 'int' and t[2][0] == 'bool': return 'iblt(%s, %s)' % (a, b)
        if k == 'pair':
            return '(%s || (!%s && %s))' % (self.lt(t[1], a + '.first', b + '.first'), self.lt(t[1], b + '.first', a + '.first'),
                                            self.lt(t[2], a + '.second', b + '.second'))
        raise Unsupported('order on %s' % (t,))

    def eq(self, t, a, b):
        k = t[0]
        if k == 'seq': return '(%s =~= %s)' % (a, b)
        return '(%s == %s)' % (a, b)

    # ------------------------------------------------------------ emission context
    def push(self, s): self.cur.append(s)

    def tmp(self, base='t'):
        self.fx.fresh += 1
        return '%s_%d' % (base, self.fx.fresh)

    def oblig(self, text, what, node=None):
        if text in ('true', '(true)'): return
        ln = line_of(node) if node is not None else None
        if self.pathcond:
            text = '(%s) ==> (%s)' % (' && '.join('(%s)' % p for p in self.pathcond), text)
        self.push(('ob', text, '%s%s' % (what, ' (line %s)' % ln if ln else '')))

    def let(self, name, text, t, mut=False):
        self.push(('let', name, text, t, mut))

    def bindtmp(self, v, base='t'):
        """makes the text of v a plain name or literal"""
        if re.match(r'^[A-Za-z_]\w*$', v.text) and not self.is_mut(v.text): return v
        if re.match(r'^-?\d+(int)?$', v.text): return v
        n = self.tmp(base)
        self.let(n, v.text, v.type)
        return V(n, v.type, None, v.x)

    def is_mut(self, name):
        return name in self.mutable

    # ------------------------------------------------------------ functions
    def is_method(self, n):
        return n['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl') and n.get('storageClass') != 'static' and not self.is_lambda_op(n)

    def is_lambda_op(self, n): return n.get('_lambda', False)

    def is_const(self, n):
        return bool(re.search(r'\)\s*const\b', n['type']['qualType']))

    def ret_type(self, n):
        if n['kind'] == 'CXXConstructorDecl': return ('void',)
        q = n['type'].get('desugaredQualType', n['type']['qualType'])
        q = n['type']['qualType']
        # strip parameter list: find matching parenthesis of the last top-level (...)
        i = self.find_params(q)
        r = q[:i].strip()
        t = parse_type(r, self.idx)
        if has_other(t):
            rt = self.returned_type(body_of(n))
            if rt is not None: return rt
        return t

    def find_params(self, q):
        # the parameter list starts at the first '(' at depth 0 wrt <>
        d = 0
        for i, ch in enumerate(q):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0:
                if q[i:].startswith('(lambda'): continue
                return i
        return len(q)

    def returned_type(self, n):
        if n.get('kind') == 'ReturnStmt':
            ins = [c for c in n.get('inner', ()) if c]
            if ins:
                t = ntype(ins[0], self.idx)
                if not has_other(t): return t
            return None
        if n.get('kind') == 'LambdaExpr': return None
        for c in n.get('inner', ()):
            if c:
                r = self.returned_type(c)
                if r is not None: return r
        return None

    def param_info(self, n):
        """(decl id, c++ name, type, mutated by reference?)"""
        out = []
        for p in params_of(n):
            q = p['type']['qualType']
            ref = q.rstrip().endswith('&') and not q.rstrip().endswith('&&') and not isconst(q)
            t = ntype(p, self.idx)
            out.append((p['id'], p.get('name', '_'), t, ref, p))
        return out

    def this_type(self, n):
        pr = self.idx.parent.get(n['id'])
        if pr is None: return None
        q = self.idx.qual[pr]
        return ('struct', q)

    def fn_name(self, n):
        c = self.bynode.get(n['id'])
        if c: return c.name
        q = self.idx.qual[n['id']].replace('learnta::', '')
        parts = q.split('::')
        parts = [OPN.get(p, san(p)) for p in parts]
        base = '_'.join(parts)
        same = self.idx.funcs.get(self.idx.qual[n['id']], [])
        if len(same) > 1:
            lines = sorted(set((x.get('loc', {}).get('line') or 0) for x in same))
            base += '_o%d' % lines.index(n.get('loc', {}).get('line') or 0)
        return 'f_' + base

    def translate_fn(self, n, pnames=None):
        """-> info dict with IR"""
        if n['id'] in self.emitted: return self.emitted[n['id']]
        if n['id'] in self.inprogress: raise Unsupported('recursion in ' + n.get('name', ''))
        self.inprogress.add(n['id'])
        saved = {k: self.__dict__.get(k) for k in ('cur', 'fx', 'pathcond', 'mutable', 'fn', 'cn', 'comps', 'sig', 'this', 'rt', 'is_inline', 'inl_stack', 'inl_ret', 'quant', 'used', 'heapvars', 'partial')}
        self.inl_stack = []; self.inl_ret = []; self.quant = False; self.used = set(); self.heapvars = {}; self.partial = None
        self.cur = []; self.fx = FnCtx(); self.pathcond = []; self.mutable = set(); self.fn = n
        c = self.bynode.get(n['id']); self.cn = c
        self.is_inline = 0
        try:
            info = {'node': n, 'name': self.fn_name(n), 'contract': c}
            params = self.param_info(n)
            sig = []
            meth = self.is_method(n); ctor = n['kind'] == 'CXXConstructorDecl'
            comps = []   # (kind, name, type)
            rt = self.ret_type(n)
            self.rt = rt
            if rt[0] != 'void': comps.append(('ret', 'r', rt))
            if meth:
                tt = self.this_type(n)
                self.this = V('this', tt, Path('this'))
                if not ctor: sig.append(('this', tt))
                if not self.is_const(n) or ctor:
                    comps.append(('this', 'this', tt)); self.mutable.add('this')
                self.fx.scope.append(('this', tt))
            names = []
            for k, (pid, pn, t, ref, pnode) in enumerate(params):
                nm = c.params[k] if c else san(pn)
                names.append(nm)
                sig.append((nm, t))
                self.fx.env[pid] = V(nm, t, Path(nm))
                self.fx.scope.append((nm, t))
                if ref: comps.append(('ref', nm, t))
                self.mutable.add(nm)
            info['heaps'] = []
            for q, ro in (c.heaps if c else []):
                q = 'learnta::' + q
                ht = ('map', ('int', 64, True), ('struct', q))
                hn = 'heap' if not self.heapvars else 'heap_' + self.rname(q)
                self.heapvars[q] = hn; info['heaps'].append((q, hn, ro))
                sig.append((hn, ht)); self.fx.scope.append((hn, ht))
                self.mutable.add(hn)
                if not ro: comps.append(('heap', hn, ht))
            info['sig'] = sig; info['comps'] = comps; info['ret'] = rt
            self.comps = comps
            self.sig = sig
            # constructor
            if ctor:
                self.ctor_init(n, tt)
            if c and c.entry: self.push(('ghost', c.entry))
            self.stmt(body_of(n))
            if not self.ends(self.cur): self.do_return(None)
            info['ir'] = self.cur
            info['pure'] = self.is_pure(self.cur)
            info['nloops'] = self.fx.loops
            info['used'] = set(self.used)
            if c:
                for k in c.loops:
                    if k > self.fx.loops:
                        raise Unsupported('contract of %s speaks about loop %d, but there are %d loops' % (c.name, k, self.fx.loops))
            self.emitted[n['id']] = info
            return info
        finally:
            self.inprogress.discard(n['id'])
            self.__dict__.update(saved)

    def ctor_init(self, n, tt, tname='this'):
        q = tt[1]
        fs = self.fields(q)
        vals = {}
        inits = [x for x in n.get('inner', ()) if x.get('kind') == 'CXXCtorInitializer']
        rec = self.idx.records[q]
        fdecl = {san(c['name']): c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl'}
        spart = self.partial, getattr(self, 'ctor_of', None); self.partial = vals; self.ctor_of = n
        for x in inits:
            e = [y for y in x.get('inner', ()) if y]
            if 'anyInit' in x:
                nm = san(x['anyInit']['name'])
                if e and e[0].get('kind') == 'CXXDefaultInitExpr':
                    continue
                v = self.expr(e[0])
                ft = dict(fs)[nm]
                v = self.coerce(v, ft)
                t = self.tmp('fld_' + nm); self.let(t, v.text, ft); vals[nm] = t
            elif 'delegatingInit' in x:
                v = self.expr(e[0])
                self.let(tname, v.text, tt, True); self.partial, self.ctor_of = spart
                return
            elif 'baseInit' in x:
                v = self.expr(e[0])
                t = self.tmp('fld_base'); self.let(t, v.text, v.type); vals['base'] = t
            else: raise Unsupported('ctor initializer')
        self.partial, self.ctor_of = spart
        for f, t in fs:
            if f not in vals:
                d = fdecl.get(f)
                if d is not None and d.get('hasInClassInitializer'):
                    ini = [y for y in d.get('inner', ()) if y and y.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
                    if not ini: raise Unsupported('in-class initializer')
                    vals[f] = self.coerce(self.expr(ini[-1]), t).text
                else:
                    vals[f] = self.default_of(t, False)
        self.let(tname, '%s { %s }' % (self.rname(q), ', '.join('%s: %s' % (f, vals[f]) for f, _ in fs)), tt, True)

    def default_of(self, t, value_init=True):
        if t[0] == 'struct':
            return self.default_ctor(t)
        if t[0] == 'pair': return 'Pair { first: %s, second: %s }' % (self.default_of(t[1]), self.default_of(t[2]))
        return self.default(t, value_init)

    def default_ctor(self, t):
        q = t[1]
        cand = [n for n in self.idx.funcs.get(q + '::' + q.split('::')[-1], []) if n['kind'] == 'CXXConstructorDecl' and len(params_of(n)) == 0]
        if cand:
            v = self.call_fn(cand[0], [], None, None)
            return v.text
        fs = self.fields(q)
        rec = self.idx.records[q]
        fdecl = {san(c['name']): c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl'}
        vals = []
        for f, ft in fs:
            d = fdecl.get(f)
            if d is not None and d.get('hasInClassInitializer'):
                ini = [y for y in d.get('inner', ()) if y and y.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
                vals.append('%s: %s' % (f, self.coerce(self.expr(ini[-1]), ft).text))
            else:
                vals.append('%s: %s' % (f, self.default_of(ft, False)))
        self.vt(t)
        return '(%s { %s })' % (self.rname(q), ', '.join(vals))

    def do_return(self, v, node=None, thrown=False):
        if self.is_inline:
            if v is not None and v.type[0] != 'void': self.inl_ret[-1].append(v)
            self.push(('ret', [v.text if v is not None else '()'])); return
        comps = []; noend = False
        for k, nm, t in self.comps:
            if k == 'ret':
                if v is None:
                    # flowing off the end of a non-void function is undefined: it must be unreachable
                    if not thrown and not any(x[0] == 'loop' for x in self.cur): raise Unsupported('missing return value')
                    if not thrown: self.push(('ob', 'false', 'control does not reach the end of a non-void function'))
                    noend = True
                    comps.append('arbitrary::<%s>()' % self.vt(t)); continue
                comps.append(self.coerce(v, t).text)
            else: comps.append(nm)
        c = self.cn
        if c and c.ret and not noend and not thrown:
            if any(k == 'ret' for k, _, _ in self.comps):
                comps0 = 'r'
                self.let('r', comps[0], self.comps[0][2])
                comps[0] = 'r'
            self.push(('ghost', c.ret))
        self.push(('ret', comps))

    def ends(self, ir):
        if not ir: return False
        s = ir[-1]
        if s[0] in ('ret', 'brk', 'cont'): return True
        if s[0] == 'if': return self.ends(s[2]) and self.ends(s[3])
        return False

    def is_pure(self, ir):
        for s in ir:
            if s[0] in ('call', 'loop', 'brk', 'cont'): return False
            if s[0] == 'if' and not (self.is_pure(s[2]) and self.is_pure(s[3])): return False
        return True

    # ------------------------------------------------------------ statements
    def block(self, n):
        """translates n into a fresh statement list"""
        saved = self.cur; self.cur = []
        sc = list(self.fx.scope)
        try:
            if n is not None: self.stmt(n)
            return self.cur
        finally:
            self.cur = saved; self.fx.scope = sc

    def declare(self, node, name, t, text, mut=True):
        """declares a local variable, returns its verus name"""
        nm = san(name)
        if self.cn and nm in self.cn.rename: nm = self.cn.rename[nm]
        base = nm; k = 1
        while any(s[0] == nm for s in self.fx.scope):
            k += 1; nm = '%s_%d' % (base, k)
        self.let(nm, text, t, mut)
        self.fx.scope.append((nm, t))
        if mut: self.mutable.add(nm)
        if node is not None: self.fx.env[node['id']] = V(nm, t, Path(nm))
        self.locals_seen.setdefault(self.cn.name if self.cn else '', []).append((nm, self.vt(t))) if hasattr(self, 'locals_seen') else None
        return nm

    def is_log(self, n):
        s = str(n.get('type', {}).get('qualType', ''))
        if 'boost::log' in s: return True
        return any(self.is_log(c) for c in n.get('inner', ()) if c)

    def stmt(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m: return m(n)
        if k in ('ExprWithCleanups', 'CXXThrowExpr') and self.strip_node(n).get('kind') == 'CXXThrowExpr' and not self.is_inline:
            self.oblig('false', 'no exception is thrown', n); self.do_return(None, thrown=True); return
        if k and (k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k in ('ExprWithCleanups',)):
            self.expr(n, discard=True); return
        raise Unsupported('statement %s (line %s)' % (k, line_of(n)))

    def s_CompoundStmt(self, n):
        sc = list(self.fx.scope)
        for c in n.get('inner', ()):
            if not c: continue
            if self.ends(self.cur): break
            self.stmt(c)
        self.fx.scope = sc

    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            k = d.get('kind')
            if k == 'VarDecl': self.var_decl(d)
            elif k == 'DecompositionDecl': self.decomp(d)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl'): pass
            elif k == 'EnumDecl':
                q = self.idx.qual.get(self.fn['id'], 'fn') + '::' + d.get('name', '')
                self.idx.enums[q] = d
                for c in d.get('inner', ()):
                    if c.get('kind') == 'EnumConstantDecl': self.idx.decl[c['id']] = c; self.idx.qual[c['id']] = q + '::' + c['name']
            else: raise Unsupported('declaration ' + str(k))

    def init_of(self, d):
        ins = [c for c in d.get('inner', ()) if c and not c.get('kind', '').endswith(('Attr', 'Comment', 'Decl'))]
        return ins[0] if ins else None

    def var_decl(self, d):
        t = ntype(d, self.idx)
        ini = self.init_of(d)
        name = d.get('name', 'anon')
        if d.get('storageClass') == 'static':
            return self.static_var(d, t, ini)
        q = d['type']['qualType'].rstrip()
        isref = q.endswith('&')
        if t[0] == 'lambda' or (ini is not None and self.strip_node(ini).get('kind') == 'LambdaExpr'):
            lam = self.strip_node(ini)
            self.fx.env[d['id']] = V('<lambda>', ('lambda', ''), None, lam); return
        if ini is None:
            if self.is_log(d): return
            self.declare(d, name, t, self.default_of(t, False)); return
        v = self.expr(ini)
        if v.type[0] == 'mexpr' and t[0] == 'mexpr':
            raise Unsupported('named Eigen expression')
        if t[0] in ('mat',) and v.type[0] == 'mexpr': v = self.materialize(v)
        if v.type[0] == 'lambda':
            self.fx.env[d['id']] = v; return
        if v.type[0] == 'iter':
            if v.x is None: raise Unsupported('iterator of unknown container')
            nm = self.declare(d, name, v.type, v.text)
            self.fx.env[d['id']] = V(nm, v.type, Path(nm), v.x); return
        if isref and v.path is not None:
            p = self.freeze(v.path)
            self.fx.env[d['id']] = V(p.text(), v.type, p); return
        if isref and v.x is not None and isinstance(v.x, tuple) and v.x[0] == 'condpath':
            _, cnd, p1, p2 = v.x
            tc = self.tmp('cnd'); self.let(tc, cnd, ('bool',)); self.fx.scope.append((tc, ('bool',)))
            p1 = self.freeze(p1); p2 = self.freeze(p2)
            self.fx.env[d['id']] = V('<conditional lvalue>', v.type, None, ('condpath', tc, p1, p2)); return
        if isref and not q.endswith('&&') and not isconst(q): raise Unsupported('reference %s to something that is not a variable' % name)
        if has_other(t): t = v.type
        v = self.coerce(v, t)
        self.declare(d, name, t, v.text)

    def freeze(self, p):
        """captures the indices of an lvalue that may change later"""
        acc = []
        for a in p.acc:
            if a[0] in 'fv': acc.append(a); continue
            new = [a[0]]
            for e in a[1:]:
                if re.match(r'^-?\d+(int)?$', e): new.append(e)
                else:
                    self.fx.frozen = getattr(self.fx, 'frozen', 0) + 1; t = 'ixf%d' % self.fx.frozen; self.let(t, e, ('int', 64, True)); self.fx.scope.append((t, ('int', 64, True))); new.append(t)
            acc.append(tuple(new))
        return Path(p.root, acc)

    def static_var(self, d, t, ini):
        nm = d['name']
        if t[0] == 'rdev': self.fx.env[d['id']] = V('()', t); return
        if 'constexpr' in d or d.get('constexpr') or re.match(r'^\s*const\b', d['type']['qualType']):
            v = self.coerce(self.expr(ini), t)
            if re.match(r"^[\w\s:{}(),.]*$", v.text) and not set(re.findall(r'\w+', v.text)) & set(x for x, _ in self.fx.scope):
                self.fx.env[d['id']] = V('(%s)' % v.text, t); return      # a literal constant
            self.declare(d, nm, t, v.text, False); return
        c = self.cn
        if not c or (nm not in c.statics and len(c.statics) != 1):
            raise Unsupported('static variable %s without a state invariant' % nm)
        if nm not in c.statics: nm = list(c.statics)[0]      # renamed
        inv = c.statics[nm]
        init = self.default_of(t, False) if ini is None or self.strip_node(ini).get('kind') in ('CXXConstructExpr',) else self.coerce(self.expr(ini), t).text
        # the invariant holds initially
        sf = '%s_static_%s' % (c.name, nm)
        self.static_fns[sf] = 'pub open spec fn %s(%s: %s) -> bool { %s }' % (sf, nm, self.vt(t), inv)
        self.push(('ob', '%s(%s)' % (sf, init), 'the static variable %s initially satisfies its invariant' % nm))
        g = self.declare(d, nm, t, 'choose|%s: %s| #[trigger] %s(%s)' % (nm, self.vt(t), sf, nm))
        self.push(('ob', '%s(%s)' % (sf, g), 'invariant of static %s' % nm))
        self.fx.__dict__.setdefault('statics', []).append((g, nm, inv))

    def decomp(self, d):
        ini = self.init_of(d)
        v = self.expr(ini)
        q = d['type']['qualType'].rstrip()
        binds = [c for c in d.get('inner', ()) if c.get('kind') == 'BindingDecl']
        isref = q.endswith('&')
        if isref and v.x is not None and isinstance(v.x, tuple) and v.x[0] == 'mapentry' and v.x[2].path is not None:
            # pair<const K, V>& to an entry of a map
            p = self.freeze(v.x[2].path.add('k', v.x[1]))
            self.fx.env[binds[0]['id']] = V(p.acc[-1][1], v.type[1], None)
            self.fx.env[binds[1]['id']] = V(p.text(), v.type[2], p); return
        if isref and v.path is not None:
            base = V(None, v.type, self.freeze(v.path))
        else:
            t = self.tmp('dec'); self.let(t, v.text, v.type); self.fx.scope.append((t, v.type))
            base = V(t, v.type, Path(t))
            if v.type[0] in ('pair', 'struct'):
                # copies: the bindings are variables of their own
                parts = [('first', v.type[1]), ('second', v.type[2])] if v.type[0] == 'pair' else self.fields(v.type[1])
                for b, (f, ft) in zip(binds, parts): self.declare(b, b.get('name'), ft, '%s.%s' % (t, f))
                return
        self.bind_decomp(binds, base)

    def bind_decomp(self, binds, base):
        t = base.type
        if t[0] == 'pair': parts = [('first', t[1]), ('second', t[2])]
        elif t[0] == 'struct': parts = self.fields(t[1])
        else: raise Unsupported('structured binding of %s' % (t,))
        for b, (f, ft) in zip(binds, parts):
            p = base.path.add('f', f, self.ctor_name(t))
            self.fx.env[b['id']] = V(p.text(), ft, p)

    def ctor_name(self, t):
        if t[0] == 'pair': return 'Pair'
        if t[0] == 'struct': self.vt(t); return self.rname(t[1])
        raise Unsupported('field of %s' % (t,))

    def s_ReturnStmt(self, n):
        ins = [c for c in n.get('inner', ()) if c]
        v = None
        if ins:
            v = self.expr(ins[0])
            if v.type[0] == 'mexpr': v = self.materialize(v)
        for g, nm, inv in self.fx.__dict__.get('statics', []):
            self.push(('ob', '%s_static_%s(%s)' % (self.cn.name, nm, g), 'the static variable %s keeps its invariant' % nm))
        if ins and v.type[0] == 'void': v = None
        self.do_return(v, n)

    def s_IfStmt(self, n):
        ins = list(n.get('inner', ()))
        sc = list(self.fx.scope)
        if n.get('hasInit'): self.stmt(ins.pop(0))
        if n.get('hasVar'): raise Unsupported('if with declaration')
        cond = self.expr(ins[0])
        ct = self.truth(cond)
        if n.get('isConstexpr'): raise Unsupported('if constexpr')
        els = ins[2] if len(ins) > 2 else None
        if ct == 'true': self.stmt(ins[1]); return
        if ct == 'false':
            if els: self.stmt(els)
            return
        self.push(('if', ct, self.branch(ins[1]), self.branch(els)))
        self.fx.scope = sc

    def branch(self, n):
        """a branch; with @unreached in the contract, a branch outside the supported subset becomes the obligation that it is never entered"""
        if not (self.cn and self.cn.unreached): return self.block(n)
        keep = self.fx.loops, dict(self.fx.env), list(self.fx.scope), set(self.mutable), list(self.inl_stack), list(self.inl_ret), self.this, self.is_inline, list(self.pathcond)
        cur = self.cur
        try: return self.block(n)
        except Unsupported as e:
            self.fx.loops, self.fx.env, self.fx.scope, self.mutable, self.inl_stack, self.inl_ret, self.this, self.is_inline, self.pathcond = keep
            self.cur = cur
            return [('ob', 'false', 'UNMODELLED branch is not entered: %s (line %s)' % (e, line_of(n)))]

    def truth(self, v):
        if v.type[0] == 'bool': return v.text
        if v.type[0] == 'int': return '(%s != 0)' % v.text
        if v.type[0] == 'opt': return '(%s is Some)' % v.text
        if v.type[0] == 'ptr': return '(%s != 0)' % v.text
        raise Unsupported('condition of type %s' % (v.type,))

    def s_SwitchStmt(self, n):
        ins = [c for c in n.get('inner', ()) if c]
        v = self.bindtmp(self.expr(ins[0]), 'sw')
        body = ins[1]
        # flatten: list of (labels or None, stmts)
        groups = []
        def flat(c):
            if c['kind'] == 'CaseStmt':
                sub = [x for x in c.get('inner', ()) if x]
                groups.append(('case', self.expr(sub[0]).text))
                if len(sub) > 1: flat(sub[1])
            elif c['kind'] == 'DefaultStmt':
                sub = [x for x in c.get('inner', ()) if x]
                groups.append(('default', None))
                if sub: flat(sub[0])
            else: groups.append(('stmt', c))
        for c in body.get('inner', ()):
            if c: flat(c)
        # segments
        segs = []; labels = []; stm = []; has_default = False
        prev = None
        for g in groups:
            if g[0] in ('case', 'default'):
                if prev == 'stmt': segs.append((labels, stm)); labels = []; stm = []
                labels.append(g)
            else: stm.append(g[1])
            prev = g[0]
        segs.append((labels, stm))
        exhaustive = None
        if v.type[0] == 'enum':
            cs = [c['name'] for c in self.idx.enums[v.type[1]].get('inner', ()) if c.get('kind') == 'EnumConstantDecl']
            exhaustive = len([1 for g in groups if g[0] == 'case']) == len(cs)
        chain = []
        default = []
        for i, (ls, st) in enumerate(segs):
            blk = []
            saved = self.cur; self.cur = blk; sc = list(self.fx.scope)
            ended = False
            for x in st:
                if x['kind'] == 'BreakStmt': ended = True; break
                self.stmt(x)
                if self.ends(self.cur): ended = True; break
            self.cur = saved; self.fx.scope = sc
            if not ended and i + 1 < len(segs): raise Unsupported('fall through in switch')
            if any(l[0] == 'default' for l in ls):
                default = blk
                if len(ls) > 1: raise Unsupported('default with cases')
            else:
                chain.append((' || '.join('%s == %s' % (v.text, l[1]) for l in ls), blk))
        if exhaustive and chain:
            # enum values outside the enumerators are excluded
            res = chain[-1][1]; chain = chain[:-1]
        else: res = default
        for cnd, blk in reversed(chain):
            res = [('if', cnd, blk, res)]
        self.cur.extend(res)

    def s_BreakStmt(self, n): self.push(('brk',))
    def s_ContinueStmt(self, n): self.push(('cont',))

    def loop(self, n, condf, bodyf, incf, extra_scope=(), keep=()):
        self.fx.loops += 1
        k = self.fx.loops
        sc = list(self.fx.scope)
        # keep: (root, condition) - the iterated container does not change during the loop (an invariant if the root is assigned)
        L = {'k': k, 'scope': list(self.fx.scope), 'line': line_of(n), 'keep': list(keep)}
        lc = self.cn.loops.get(k) if self.cn else None
        if self.cn is None or lc is None:
            # loops without a contract: only allowed where somebody provides the contract
            L['missing'] = True
        L['contract'] = lc
        saved = self.cur
        spc = self.pathcond; self.pathcond = []
        self.cur = []
        cond = condf()
        L['pre'] = self.cur
        L['cond'] = cond
        self.cur = []
        if lc and lc.begin: self.push(('ghost', lc.begin))
        bodyf()
        L['body'] = self.cur
        self.cur = []
        incf()
        if lc and lc.end: self.push(('ghost', lc.end))
        L['inc'] = self.cur
        self.cur = saved; self.pathcond = spc
        self.fx.scope = sc
        if L.get('missing'):
            raise Unsupported('loop %d of %s (line %s) has no invariant' % (k, self.fn.get('name'), line_of(n)))
        L['fnctx'] = (self.comps, self.sig, self.cn)
        if lc.before: self.push(('ghost', lc.before))
        self.push(('loop', L))
        if lc.exit: self.push(('ghost', lc.exit))

    def s_ForStmt(self, n):
        ins = list(n.get('inner', ()))
        if ins and ins[0] and self.is_log(ins[0]): return    # BOOST_LOG expands to a for over a log record
        # init, condvar, cond, inc, body (absent ones are empty objects)
        while len(ins) < 5: ins.append({})
        init, cv, cond, inc, body = ins[:5]
        sc = list(self.fx.scope)
        self.fx.assoc_keep = []
        if init and init.get('kind'): self.stmt(init)
        keep = self.fx.assoc_keep
        if cv and cv.get('kind'): raise Unsupported('for with condition variable')
        self.loop(n, lambda: self.truth(self.expr(cond)) if cond and cond.get('kind') else 'true',
                  lambda: self.stmt(body), lambda: self.expr(inc, discard=True) if inc and inc.get('kind') else None, keep=keep)
        self.fx.scope = sc

    def s_WhileStmt(self, n):
        ins = [c for c in n.get('inner', ()) if c]
        if n.get('hasVar'): raise Unsupported('while with declaration')
        self.loop(n, lambda: self.truth(self.expr(ins[0])), lambda: self.stmt(ins[1]), lambda: None)

    def s_DoStmt(self, n): 
        ins = [c for c in n.get('inner', ()) if c]
        if self.strip_node(ins[1]).get('kind') == 'CXXBoolLiteralExpr' and not self.strip_node(ins[1]).get('value'):
            self.stmt(ins[0]); return
        def has_continue(x):
            if x.get('kind') == 'ContinueStmt': return True
            if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'LambdaExpr'): return False
            return any(has_continue(c) for c in x.get('inner', ()) if c)
        if has_continue(ins[0]): raise Unsupported('continue in a do loop')
        def body():
            # `do B while (c)` is `while (true) { B; if (!c) break; }` (no continue in B)
            sc = list(self.fx.scope)
            self.stmt(ins[0])
            self.fx.scope = sc
            c = self.truth(self.expr(ins[1]))
            self.push(('if', '!(%s)' % c, [('brk',)], []))
        self.loop(n, lambda: 'true', body, lambda: None)

    def log_only(self, n):
        k = n.get('kind')
        if k == 'CompoundStmt': return all(self.log_only(c) for c in n.get('inner', ()) if c)
        return k == 'ForStmt' and bool(n.get('inner')) and bool(n['inner'][0]) and self.is_log(n['inner'][0])

    def s_CXXForRangeStmt(self, n):
        ins = [c for c in n.get('inner', ()) if c]
        if self.log_only(ins[-1]): return      # a loop that only writes log records
        # DeclStmt(__range), DeclStmt(__begin), DeclStmt(__end), cond, inc, DeclStmt(var), body
        rng = ins[0]['inner'][0]
        e = self.init_of(rng)
        sc = list(self.fx.scope)
        rv = self.expr(e)
        vard = ins[-2]['inner'][0]; body = ins[-1]
        rev = False; keep = []
        if rv.x is not None and isinstance(rv.x, tuple) and rv.x[0] == 'reversed': rev = True
        t = rv.type
        k = self.fx.loops + 1
        if t[0] == 'struct' and self.bases(t[1]) and self.bases(t[1])[0][0] == 'seq':
            bt = self.bases(t[1])[0]
            p = rv.path.add('f', 'base', self.ctor_name(t)) if rv.path else None
            rv = V(rv.text + '.base', bt, p); t = bt
        if t[0] in ('map', 'set'):
            # iteration order of unordered containers is unspecified: an arbitrary enumeration of the keys
            kt = t[1]
            keys = self.tmp('keys')
            kd = rv.text + ('.dom()' if t[0] == 'map' else '')
            self.let(keys, 'enum_keys::<%s>(%s)' % (self.vt(kt), kd), ('seq', kt))
            self.push(('gcall', 'lem_enum_keys::<%s>(%s)' % (self.vt(kt), kd), []))
            self.fx.scope.append((keys, ('seq', kt)))
            alias = 'keys%d' % k
            self.let(alias, keys, ('seq', kt)); self.fx.scope.append((alias, ('seq', kt)))
            kp_ = self.freeze(rv.path) if rv.path is not None else None
            if kp_ is not None:
                keep.append((kp_.root, 'same_keys(%s%s, %s)' % (kp_.text(), '.dom()' if t[0] == 'map' else '', alias)))
            cont = V(alias, ('seq', kt), Path(alias)); mapv = V(rv.text, rv.type, kp_, rv.x)
        else:
            mapv = None
            if t[0] != 'seq': raise Unsupported('range for over %s' % (t,))
            q = vard['type']['qualType'].rstrip()
            byref = q.endswith('&') and not isconst(q) and not q.endswith('&&')
            if (byref or t[1][0] == 'own') and rv.path is not None:
                cont = V(None, t, self.freeze(rv.path)); cont.text = cont.path.text()
            else:
                # the range is fixed at loop entry
                nm = 'rng%d' % k
                txt = rv.text
                if rev: txt = '%s.reverse()' % txt
                self.let(nm, txt, t); self.fx.scope.append((nm, t))
                if rv.path is not None:
                    kp_ = self.freeze(rv.path); keep.append((kp_.root, '%s%s == %s' % (kp_.text(), '.reverse()' if rev else '', nm)))
                cont = V(nm, t, Path(nm))
        ixn = 'it%d' % k
        self.let(ixn, '0int', ('int', 64, False), True); self.fx.scope.append((ixn, ('int', 64, False))); self.mutable.add(ixn)
        def elem():
            p = cont.path.add('i', ixn)
            ev = V(p.text(), cont.type[1], p)
            if mapv is not None and mapv.type[0] == 'map':
                # pair<const K, V>&
                kp = p.text()
                if vard['kind'] == 'DecompositionDecl':
                    binds = [c for c in vard.get('inner', ()) if c.get('kind') == 'BindingDecl']
                    self.fx.env[binds[0]['id']] = V(kp, mapv.type[1], None)
                    vp = mapv.path.add('k', kp) if mapv.path else None
                    self.fx.env[binds[1]['id']] = V(vp.text() if vp else '%s[%s]' % (mapv.text, kp), mapv.type[2], vp)
                    return
                qq = vard['type']['qualType'].rstrip()
                if qq.endswith('&') and not isconst(qq) and mapv.path is not None:
                    self.fx.env[vard['id']] = V('Pair { first: %s, second: %s[%s] }' % (kp, mapv.text, kp), ('pair', mapv.type[1], mapv.type[2]), None, ('mapentry', kp, mapv)); return
                self.declare(vard, vard.get('name'), ('pair', mapv.type[1], mapv.type[2]), 'Pair { first: %s, second: %s[%s] }' % (kp, mapv.text, kp), False)
                return
            q = vard['type']['qualType'].rstrip()
            if vard['kind'] == 'DecompositionDecl':
                binds = [c for c in vard.get('inner', ()) if c.get('kind') == 'BindingDecl']
                if q.endswith('&') and not isconst(q):
                    self.bind_decomp(binds, ev); return
                t0 = self.tmp('el'); self.let(t0, ev.text, ev.type); self.fx.scope.append((t0, ev.type))
                self.bind_decomp(binds, V(t0, ev.type, Path(t0))); return
            if q.endswith('&') and (not isconst(q) or ev.type[0] == 'own') and not q.endswith('&&'):
                self.fx.env[vard['id']] = ev; return
            ty = ntype(vard, self.idx)
            if has_other(ty): ty = ev.type
            v = self.coerce(V(ev.text, ev.type), ty)
            self.declare(vard, vard.get('name'), ty, v.text, not isconst(q))
        def body_():
            elem(); self.stmt(body)
        def inc_():
            self.push(('set', ixn, '%s + 1' % ixn))
        self.loop(n, lambda: '%s < %s.len()' % (ixn, cont.path.text()), body_, inc_, keep=keep)
        self.fx.scope = sc
