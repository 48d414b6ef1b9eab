"""Semantics of the parts of Eigen and of the C++ standard library that /repo uses (mixin of Translator)."""
import re
from cxx import *
from trans import V, Path, MX, Unsupported, san, isconst, params_of
from render import assigned
from expr import INT64, SIZE, BOOL, DBL, lit, ilit, isname

class StdMixin:
    # ================================================================ Eigen
    def mx(self, v):
        if isinstance(v, MX): return v
        if v.type[0] == 'mexpr': return v.x
        if v.type[0] == 'mat':
            t = self.dot(v.text)
            return MX('%s.rows' % t, '%s.cols' % t, lambda i, j: '%s.at(%s, %s)' % (t, i, j),
                      [(v.path.text() if v.path is not None else v.text, lambda i, j: (i, j))],
                      (v.path, '0', '0'))
        raise Unsupported('not an Eigen expression: %s' % (v.type,))

    def mv(self, m): return V('<eigen>', ('mexpr',), None, m)

    def sub(self, m, r0, c0, nr, nc):
        """a rectangular part"""
        add = lambda a, b: b if a == '0' else (a if b == '0' else '%s + %s' % (a, b))
        at = lambda i, j: m.at(add(r0, i), add(c0, j))
        reads = [(root, (lambda f: lambda i, j: f(add(r0, i), add(c0, j)))(f)) for root, f in m.reads]
        reg = None
        if m.region is not None: reg = (m.region[0], add(m.region[1], r0), add(m.region[2], c0))
        return MX(nr, nc, at, reads, reg)

    def coeff(self, a, i, j, n):
        m = self.mx(a)
        self.oblig('0 <= %s < %s && 0 <= %s < %s' % (i.text, m.rows, j.text, m.cols), 'Eigen: the coefficient exists', n)
        p = None
        if a.type[0] == 'mat' and a.path is not None: p = a.path.add('m', i.text, j.text)
        return V(m.at(i.text, j.text), BOUNDS, p)

    def eigen_method(self, obj, name, args, n):
        m = self.mx(obj)
        A = lambda k: self.bindtmp(self.expr(args[k]), 'e').text
        if name in ('array', 'matrix', 'eval', 'noalias', 'derived'): return self.mv(m)
        if name == 'rows': return V(m.rows, INT64)
        if name == 'cols': return V(m.cols, INT64)
        if name == 'size': return V('(%s * %s)' % (m.rows, m.cols), INT64)
        if name == 'row':
            i = A(0); self.oblig('0 <= %s < %s' % (i, m.rows), 'Eigen: the row exists', n)
            return self.mv(self.sub(m, i, '0', '1', m.cols))
        if name == 'col':
            i = A(0); self.oblig('0 <= %s < %s' % (i, m.cols), 'Eigen: the column exists', n)
            return self.mv(self.sub(m, '0', i, m.rows, '1'))
        if name == 'block':
            r, c, nr, nc = A(0), A(1), A(2), A(3)
            self.oblig('0 <= %s && 0 <= %s && %s + %s <= %s && 0 <= %s && 0 <= %s && %s + %s <= %s' % (r, nr, r, nr, m.rows, c, nc, c, nc, m.cols),
                       'Eigen: the block is inside the matrix', n)
            return self.mv(self.sub(m, r, c, nr, nc))
        if name in ('tail', 'head'):
            k = A(0)
            isrow = m.rows == '1'
            ext = m.cols if isrow else m.rows
            self.oblig('0 <= %s <= %s' % (k, ext), 'Eigen: the segment is inside the vector', n)
            off = '0' if name == 'head' else '(%s - %s)' % (ext, k)
            return self.mv(self.sub(m, '0', off, '1', k) if isrow else self.sub(m, off, '0', k, '1'))
        if name == 'transpose':
            reads = [(root, (lambda f: lambda i, j: f(j, i))(f)) for root, f in m.reads]
            return self.mv(MX(m.cols, m.rows, lambda i, j: m.at(j, i), reads))
        if name == 'diagonal':
            return self.mv(MX('min2(%s, %s)' % (m.rows, m.cols), '1', lambda i, j: m.at(i, i), [(r, (lambda f: lambda i, j: f(i, i))(f)) for r, f in m.reads],
                              (m.region[0], m.region[1], m.region[2], 'diag') if m.region else None))
        if name in ('min', 'max', 'cwiseMin', 'cwiseMax'):
            b = self.mx(self.expr(args[0]))
            f = 'bmin' if name in ('min', 'cwiseMin') else 'bmax'
            self.oblig('%s == %s && %s == %s' % (m.rows, b.rows, m.cols, b.cols), 'Eigen: operands of the same size', n)
            return self.mv(MX(m.rows, m.cols, lambda i, j: '%s(%s, %s)' % (f, m.at(i, j), b.at(i, j)), m.reads + b.reads))
        if name == 'minCoeff':
            self.oblig('%s > 0 && %s > 0' % (m.rows, m.cols), 'Eigen: minCoeff of a non-empty matrix', n)
            t = self.tmp('mc')
            self.let(t, '(Mat { rows: %s, cols: %s, f: |a_: int, b_: int| %s })' % (m.rows, m.cols, m.at('a_', 'b_')), ('mat',))
            self.push(('gcall', 'lem_min_coeff(%s)' % t, list(self.pathcond)))
            return V('min_coeff(%s)' % t, BOUNDS)
        if name == 'data': return V('0int', ('iter', 'mat'), None, obj)
        if name == 'fill' or name == 'setConstant':
            v = self.bindtmp(self.expr(args[0]), 'fillv')
            if obj.type[0] == 'mat':
                self.store(obj, V('mat_fill(%s, %s)' % (obj.text, v.text), ('mat',))); return V('()', ('void',))
            self.eigen_assign(obj, self.mv(MX(m.rows, m.cols, lambda i, j: v.text)), n); return V('()', ('void',))
        if name in ('resize', 'conservativeResize'):
            r, c = A(0), A(1)
            self.oblig('0 <= %s && 0 <= %s' % (r, c), 'Eigen: a non-negative size', n)
            if name == 'resize':
                self.store(obj, V('mat_resize(%s, %s, %s)' % (obj.text, r, c), ('mat',)))
            else: self.store(obj, V('mat_cresize(%s, %s, %s)' % (obj.text, r, c), ('mat',)))
            return V('()', ('void',))
        if name == 'operator()':
            return self.coeff(obj, self.expr(args[0]), self.expr(args[1]), n)
        if name == 'unaryExpr':
            lam = self.expr(args[0])
            at = lambda i, j: self.pure_lambda(lam, [V(m.at(i, j), BOUNDS)])
            return self.mv(MX(m.rows, m.cols, at, m.reads))
        if name in ('any', 'all'):
            q = 'exists' if name == 'any' else 'forall'
            if name == 'any':
                return V('(exists|a_: int, b_: int| #![trigger tij(a_, b_)] tij(a_, b_) && 0 <= a_ < %s && 0 <= b_ < %s && %s)' % (m.rows, m.cols, m.at('a_', 'b_')), BOOL)
            return V('(forall|a_: int, b_: int| #![trigger tij(a_, b_)] 0 <= a_ < %s && 0 <= b_ < %s ==> %s)' % (m.rows, m.cols, m.at('a_', 'b_')), BOOL)
        raise Unsupported('Eigen method %s (line %s)' % (name, line_of(n)))

    def eigen_op(self, op, a, b, n):
        g = {'+': 'badd', '-': 'bsub'}.get(op)
        if g is None: raise Unsupported('Eigen operator ' + op)
        self.check_global_bounds_op(op)
        if b.type == BOUNDS:
            b = self.bindtmp(b, 'sc'); m = self.mx(a)
            return self.mv(MX(m.rows, m.cols, lambda i, j: '%s(%s, %s)' % (g, m.at(i, j), b.text), m.reads))
        m, k = self.mx(a), self.mx(b)
        self.oblig('%s == %s && %s == %s' % (m.rows, k.rows, m.cols, k.cols), 'Eigen: operands of the same size', n)
        return self.mv(MX(m.rows, m.cols, lambda i, j: '%s(%s, %s)' % (g, m.at(i, j), k.at(i, j)), m.reads + k.reads))

    def check_global_bounds_op(self, op):
        """Eigen applies the operator of bounds.hh to the coefficients: its contract says it is badd/bsub"""
        nm = 'operator' + op
        for d in self.idx.funcs.get(nm, []):
            c = self.bynode.get(d['id'])
            if c is not None and c.mode == 'pure' and len(params_of(d)) == 2:
                self.used.add(d['id']); self.translate_fn(d); return
        raise Unsupported('no contract for the global operator%s on Bounds' % op)

    def materialize(self, v):
        m = self.mx(v)
        t = self.tmp('mm')
        self.let(t, '(Mat { rows: %s, cols: %s, f: |a_: int, b_: int| %s })' % (m.rows, m.cols, m.at('a_', 'b_')), ('mat',))
        return V(t, ('mat',))

    def alias_ok(self, reads, path, tgt, nr, nc, n):
        """every coefficient read from the destination is the one being written or is never written"""
        root = path.text()
        for r, f in reads:
            if r != root: continue
            a, b = f('a_', 'b_'); ta, tb = tgt('a_', 'b_')
            if (a, b) == (ta, tb): continue
            self.oblig('forall|a_: int, b_: int| #![trigger tij(a_, b_)] 0 <= a_ < %s && 0 <= b_ < %s ==> (%s == %s && %s == %s) || !(%s <= %s < %s + %s && %s <= %s < %s + %s)'
                       % (nr, nc, a, ta, b, tb, tgt('0', '0')[0], a, tgt('0', '0')[0], nr, tgt('0', '0')[1], b, tgt('0', '0')[1], nc),
                       'Eigen: no aliasing between source and destination', n)

    def eigen_assign(self, a, b, n):
        m = self.mx(a)
        if m.region is None or m.region[0] is None: raise Unsupported('assignment to an Eigen expression')
        if len(m.region) == 4: return self.diag_assign(m, b, n)
        path, r0, c0 = m.region
        s = self.mx(b)
        # row vectors and column vectors of the same length are not mixed in the code
        self.oblig('%s == %s && %s == %s' % (m.rows, s.rows, m.cols, s.cols), 'Eigen: sizes agree in the assignment', n)
        add = lambda a, b: b if a == '0' else (a if b == '0' else '%s + %s' % (a, b))
        self.alias_ok(s.reads, path, lambda i, j: (add(r0, i), add(c0, j)), m.rows, m.cols, n)
        sb = lambda a, b: a if b == '0' else '%s - (%s)' % (a, b)
        self.push(('set', path.root, path.update('(Mat { f: |a_: int, b_: int| if %s <= a_ < %s + %s && %s <= b_ < %s + %s { %s } else { %s.at(a_, b_) }, ..%s })'
                   % (r0, r0, m.rows, c0, c0, m.cols, s.at(sb('a_', r0), sb('b_', c0)), path.text(), path.text()))))

    def diag_assign(self, m, b, n):
        path = m.region[0]
        s = self.mx(b)
        self.oblig('%s == %s' % (m.rows, s.rows), 'Eigen: sizes agree in the assignment', n)
        self.push(('set', path.root, path.update('(Mat { f: |a_: int, b_: int| if a_ == b_ && 0 <= a_ < %s { %s } else { %s.at(a_, b_) }, ..%s })'
                   % (m.rows, s.at('a_', '0'), path.text(), path.text()))))

    def mat_assign(self, a, b, n):
        """matrix = coefficient-wise expression (resizes)"""
        s = self.mx(b)
        root = a.path.text()
        for r, f in s.reads:
            if r == root and f('a_', 'b_') != ('a_', 'b_'): raise Unsupported('aliasing in a matrix assignment')
        self.push(('set', a.path.root, a.path.update('(Mat { rows: %s, cols: %s, f: |a_: int, b_: int| %s })' % (s.rows, s.cols, s.at('a_', 'b_')))))

    # ================================================================ pure evaluation in binders
    def pure_eval(self, thunk, what=None):
        """-> (value text, wd text) of an expression evaluated under a binder"""
        saved, spc, sq = self.cur, self.pathcond, self.quant
        sc = list(self.fx.scope)
        self.cur = []; self.pathcond = []; self.quant = True
        try:
            v = thunk()
            blk = self.cur
        finally:
            self.cur, self.pathcond, self.quant = saved, spc, sq
            self.fx.scope = sc
        if not self.is_pure(blk) or assigned(blk): raise Unsupported('side effects under a binder (%s)' % what)
        ir = blk + [('ret', [v.text])]
        return v, self.r_spec(ir), self.r_wd(ir)

    def pure_lambda(self, lam, args):
        v, s, w = self.pure_eval(lambda: self.call_fn_object(lam, args))
        return s

    def call_fn_object(self, f, args):
        if f.type[0] == 'lambda' and f.x is not None: return self.call_lambda(f, args, None)
        raise Unsupported('function object')

    def quantifier(self, lo, hi, seq, f, is_all, n):
        """for all / exists index in [lo, hi) of seq: f(element)"""
        self.qn = getattr(self, 'qn', 0) + 1
        k = 'q%d_' % self.qn
        el = '%s[%s]' % (self.dot(seq.text), k)
        v, s, w = self.pure_eval(lambda: self.call_fn_object(f, [V(el, seq.type[1])]))
        p = self.truth(V(s, v.type))
        rng = '%s <= %s < %s' % (lo, k, hi)
        if w != 'true':
            self.oblig('forall|%s: int| #![trigger %s] %s ==> %s' % (k, el, rng, w), 'requirements of the predicate', n)
        if is_all: return V('(forall|%s: int| #![trigger %s] %s ==> %s)' % (k, el, rng, p), BOOL)
        return V('(exists|%s: int| #![trigger %s] %s && %s)' % (k, el, rng, p), BOOL)

    def assoc_entries(self, a, b):
        c = self.reload(a.x); ks = a.type[2]
        if not (a.text in ('0', '0int') and b.text.startswith('None')): raise Unsupported('part of a map')
        if c.type[0] == 'set': return V(ks, ('seq', c.type[1]), None)
        t = self.tmp('ents'); ty = ('seq', ('pair', c.type[1], c.type[2]))
        self.let(t, 'Seq::new(%s.len(), |e_: int| Pair { first: %s[e_], second: %s[%s[e_]] })' % (ks, ks, c.text, ks), ty); self.fx.scope.append((t, ty))
        self.push(('ghost', 'assert forall|e_: int| #![trigger %s[e_]] 0 <= e_ < %s.len() implies %s[e_].first == %s[e_] && %s[e_].second == %s[%s[e_]] by { }' % (ks, ks, t, ks, t, c.text, ks)))
        return V(t, ty, None)

    def range_text(self, a, b, n):
        if a.type[1:2] == ('assoc',): return self.assoc_entries(a, b).text
        c = self.reload(a.x)
        if c.type[0] != 'seq': raise Unsupported('range of %s' % (c.type,))
        if a.text in ('0', '0int') and b.text == '(%s.len() as int)' % self.dot(c.text):
            return '%s.reverse()' % self.dot(c.text) if self.is_rev(a) else c.text
        self.oblig('0 <= %s <= %s && %s <= %s.len()' % (a.text, b.text, b.text, self.dot(c.text)), 'a valid range', n)
        r = '%s.subrange(%s, %s)' % (self.dot(c.text), a.text, b.text)
        if self.is_rev(a): raise Unsupported('reverse range')
        return r

    def whole(self, x, y, c):
        if x.text not in ('0', '0int') or y.text != '(%s.len() as int)' % self.dot(c.text): raise Unsupported('algorithm on a part of a container')

    def is_rev(self, v): return v.type[0] == 'iter' and len(v.type) > 1 and v.type[1] == 'rev'

    def seq_range(self, args, n):
        a, b = self.expr(args[0]), self.expr(args[1])
        if a.type[0] != 'iter' or a.x is None: raise Unsupported('algorithm on %s' % (a.type,))
        if a.type[1:2] == ('assoc',):
            c = self.assoc_entries(a, b)
            return V('0int', ('iter',), None, c), V('(%s.len() as int)' % c.text, ('iter',), None, c), c
        c = self.reload(a.x)
        if c.type[0] != 'seq': raise Unsupported('algorithm on %s' % (c.type,))
        ln = '(%s.len() as int)' % self.dot(c.text)
        if not (a.text in ('0', '0int') and b.text == ln):
            self.oblig('0 <= %s <= %s && %s <= %s' % (a.text, b.text, b.text, ln), 'a valid range', n)
        if self.is_rev(a): raise Unsupported('algorithm on a reversed range')
        return a, b, c

    # ================================================================ containers
    def subscript(self, a, i, n):
        t = a.type
        if t[0] == 'struct' and self.fields(t[1])[:1] and self.fields(t[1])[0][0] == 'base':
            p = a.path.add('f', 'base', self.ctor_name(t)) if a.path else None
            a = V(self.dot(a.text) + '.base', self.fields(t[1])[0][1], p); t = a.type
        if t[0] == 'seq':
            self.oblig('0 <= %s < %s.len()' % (i.text, self.dot(a.text)), 'index in range', n)
            p = a.path.add('i', i.text) if a.path is not None else None
            return V('%s[%s]' % (self.dot(a.text), i.text), t[1], p)
        if t[0] == 'map':
            # m[k]: inserts a default value when absent
            k = self.bindtmp(self.coerce(i, t[1]), 'key')
            if a.path is None: raise Unsupported('operator[] of a temporary map')
            if self.fuzzy_key(t[1]):
                self.push(('gcall', 'lem_hfind(%s, %s(), %s)' % (self.dot(a.text), self.keq_fn(t[1]), k.text), list(self.pathcond)))
                k = self.bindtmp(V('hkey(%s, %s(), %s)' % (self.dot(a.text), self.keq_fn(t[1]), k.text), t[1]), 'key')
            self.store(a, V('(if %s.dom().contains(%s) { %s } else { %s.insert(%s, %s) })' % (a.text, k.text, a.text, a.text, k.text, self.default_of(t[2])), t))
            p = a.path.add('k', k.text)
            return V(p.text(), t[2], p)
        if t[0] == 'iter':
            return self.deref(V('(%s + %s)' % (a.text, i.text), t, None, a.x), n)
        raise Unsupported('operator[] on %s' % (t,))

    def std_method(self, obj, name, args, n, discard):
        t = obj.type; k = t[0]
        if k in ('mat', 'mexpr'): return self.eigen_method(obj, name, args, n)
        D = self.dot(obj.text)
        A = lambda j: self.expr(args[j])
        if name == 'operator=':
            b = A(0); self.assign(obj, b, n); return self.reload(obj)
        if name.startswith('operator bool'): return V(self.truth(obj), BOOL)
        if k == 'seq': return self.seq_method(obj, name, args, n, discard)
        if k == 'opt':
            if name == 'has_value': return V('(%s is Some)' % D, BOOL)
            if name == 'value': return self.deref(obj, n)
            if name == 'reset': self.store(obj, V('None', t)); return V('()', ('void',))
            if name == 'emplace':
                self.store(obj, V('Some(%s)' % self.construct_from(t[1], args, n).text, t)); return V('()', ('void',))
            if name == 'value_or':
                b = self.coerce(A(0), t[1]); return V('(if %s is Some { %s->Some_0 } else { %s })' % (D, D, b.text), t[1])
        if k == 'var':
            if name == 'index': return V('(if %s is Dbl { 0int } else { 1int })' % D, SIZE)
        if k in ('map', 'set'): return self.assoc_method(obj, name, args, n, discard)
        if k == 'ptr' and name == 'get': return V(obj.text, t)
        raise Unsupported('method %s of %s (line %s)' % (name, t, line_of(n)))

    def construct_from(self, t, args, n):
        """emplace: constructs a t from the arguments"""
        if len(args) == 1:
            v = self.expr(args[0])
            if v.type == t or v.type[0] in ('nullopt',): return V(v.text, t)
            if v.type[0] != 'initlist' and t[0] not in ('struct',): return self.coerce(v, t)
            if t[0] == 'struct' and v.type != t:
                return self.call_ctor(t, [v], n)
        if t[0] == 'struct': return self.call_ctor(t, args, n)
        return self.construct(t, args, n)

    def call_ctor(self, t, args, n):
        vs = [a if isinstance(a, V) else self.expr(a) for a in args]
        c = [x for x in self.ctor_nodes(t) if len(params_of(x)) == len(vs)]
        ok = []
        for x in c:
            good = True
            for (pid, pn, pt, ref, _), v in zip(self.param_info(x), vs):
                if pt != v.type and not (pt[0] == v.type[0] and pt[0] in ('int', 'seq', 'map')) and v.type[0] not in ('initlist',): good = False
            if good: ok.append(x)
        if not ok:
            # aggregate
            fs = self.fields(t[1])
            if not c and len(fs) == len(vs):
                self.vt(t)
                return V('(%s { %s })' % (self.rname(t[1]), ', '.join('%s: %s' % (f, self.coerce(v, ft).text) for (f, ft), v in zip(fs, vs))), t)
            raise Unsupported('no constructor of %s matches' % t[1])
        return self.call_fn(ok[0], vs, None, n)

    def seq_method(self, obj, name, args, n, discard):
        t = obj.type; D = self.dot(obj.text)
        A = lambda j: self.expr(args[j])
        if name in ('size', 'length'): return V('%s.len() as int' % D if False else '(%s.len() as int)' % D, SIZE)
        if name == 'empty': return V('(%s.len() == 0)' % D, BOOL)
        if name in ('begin', 'cbegin'): return V('0int', ('iter',), None, obj)
        if name in ('end', 'cend'): return V('(%s.len() as int)' % D, ('iter',), None, obj)
        if name in ('rbegin', 'crbegin'): return V('0int', ('iter', 'rev'), None, obj)
        if name in ('rend', 'crend'): return V('(%s.len() as int)' % D, ('iter', 'rev'), None, obj)
        if name == 'data': return V('0int', ('iter',), None, obj)
        if name == 'at':
            return self.subscript(obj, A(0), n)
        if name == 'front': return self.subscript(obj, V('0int', INT64), n)
        if name == 'back': return self.subscript(obj, V('(%s.len() - 1)' % D, INT64), n)
        if name in ('reserve', 'shrink_to_fit'):
            if args: A(0)
            return V('()', ('void',))
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace'):
            if name in ('emplace_back', 'emplace_front', 'emplace'): v = self.construct_from(t[1], args, n)
            else:
                v = A(0)
                if v.type[0] == 'initlist': v = self.seq_of(t[1], v.x) if t[1][0] == 'seq' else self.construct(t[1], v.x, n)
                v = self.coerce(v, t[1])
            obj = self.reload(obj); D = self.dot(obj.text)
            if name.endswith('front'): self.store(obj, V('seq![%s] + %s' % (v.text, D), t))
            else: self.store(obj, V('%s.push(%s)' % (D, v.text), t))
            if name == 'emplace_back' and not discard: return self.subscript(self.reload(obj), V('(%s.len() - 1)' % D, INT64), n)
            return V('()', ('void',))
        if name in ('pop_back', 'pop_front', 'pop'):     # pop: of a std::queue
            self.oblig('%s.len() > 0' % D, 'the container is not empty', n)
            self.store(obj, V('%s.%s' % (D, 'drop_last()' if name == 'pop_back' else 'drop_first()'), t)); return V('()', ('void',))
        if name == 'clear': self.store(obj, V('Seq::<%s>::empty()' % self.vt(t[1]), t)); return V('()', ('void',))
        if name == 'resize':
            m = self.bindtmp(A(0), 'n')
            self.oblig('%s >= 0' % m.text, 'a non-negative size', n)
            fill = self.coerce(A(1), t[1]).text if len(args) > 1 else self.default_of(t[1])
            self.store(obj, V('seq_resize(%s, %s, %s)' % (D, m.text, fill), t)); return V('()', ('void',))
        if name == 'assign' and len(args) == 2:
            a = A(0)
            if a.type[0] == 'int':
                self.store(obj, V('seq_n(%s, %s)' % (a.text, self.coerce(A(1), t[1]).text), t)); return V('()', ('void',))
            self.store(obj, V(self.range_text(a, A(1), n), t)); return V('()', ('void',))
        if name == 'insert':
            p = A(0)
            if len(args) == 2:
                v = self.coerce(A(1), t[1])
                self.oblig('0 <= %s <= %s.len()' % (p.text, D), 'a valid position', n)
                self.store(obj, V('%s.insert(%s, %s)' % (D, p.text, v.text), t)); return V(p.text, ('iter',), None, obj)
            a, b = A(1), A(2)
            mid = self.range_text(a, b, n)
            if p.text == '(%s.len() as int)' % D: self.store(obj, V('(%s + %s)' % (D, mid), t))
            else:
                self.oblig('0 <= %s <= %s.len()' % (p.text, D), 'a valid position', n)
                self.store(obj, V('(%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int))' % (D, p.text, mid, D, p.text, D), t))
            return V(p.text, ('iter',), None, obj)
        if name == 'erase':
            p = self.bindtmp(A(0), 'pos')
            if len(args) == 1:
                self.oblig('0 <= %s < %s.len()' % (p.text, D), 'a valid position', n)
                self.store(obj, V('%s.remove(%s)' % (D, p.text), t))
            else:
                b = self.expr(args[1])
                if p.x is not None and isinstance(p.x, tuple) and p.x[0] == 'filtered':
                    return V('()', ('void',))
                self.oblig('0 <= %s <= %s && %s <= %s.len()' % (p.text, b.text, b.text, D), 'a valid range', n)
                self.store(obj, V('(%s.subrange(0, %s) + %s.subrange(%s as int, %s.len() as int))' % (D, p.text, D, b.text, D), t))
            return V(p.text, ('iter',), None, self.reload(obj))
        if name == 'swap':
            b = A(0); self.swap(obj, b); return V('()', ('void',))
        if name == 'substr':
            a = A(0)
            self.oblig('0 <= %s <= %s.len()' % (a.text, D), 'a valid position', n)
            if len(args) == 1: return V('%s.subrange(%s, %s.len() as int)' % (D, a.text, D), t)
            b = A(1)
            return V('%s.subrange(%s, min2(%s + %s, %s.len() as int))' % (D, a.text, a.text, b.text, D), t)
        if name == 'compare' and len(args) == 3:
            a, b, o = A(0), A(1), A(2)
            self.oblig('0 <= %s <= %s.len()' % (a.text, D), 'a valid position', n)
            return V('str_cmp(%s.subrange(%s, min2(%s + %s, %s.len() as int)), %s)' % (D, a.text, a.text, b.text, D, o.text), INT64)
        raise Unsupported('vector::%s (line %s)' % (name, line_of(n)))

    def swap(self, a, b):
        t = self.tmp('sw'); self.let(t, a.text, a.type)
        self.store(a, V(b.text, a.type)); self.store(b, V(t, a.type))

    def fuzzy_key(self, t):
        """keys containing matrices: equality of keys is the C++ operator==, not identity of the mathematical value"""
        if t[0] == 'mat': return True
        if t[0] == 'ptr': return False
        if t[0] == 'struct': return any(self.fuzzy_key(ft) for _, ft in self.fields(t[1]))
        return any(isinstance(x, tuple) and self.fuzzy_key(x) for x in t[1:])

    def keq_fn(self, t):
        import zlib
        nm = 'keq_%08x' % zlib.crc32(repr(t).encode())
        if nm not in self.static_fns:
            ty = self.vt(t)
            self.static_fns[nm] = 'pub open spec fn %s() -> spec_fn(%s, %s) -> bool { |a: %s, b: %s| %s }' % (nm, ty, ty, ty, ty, self.keq_text(t, 'a', 'b'))
        return nm

    def keq_text(self, t, a, b):
        if t[0] == 'pair': return '(%s && %s)' % (self.keq_text(t[1], a + '.first', b + '.first'), self.keq_text(t[2], a + '.second', b + '.second'))
        if t[0] == 'tuple': return '(%s)' % ' && '.join(self.keq_text(x, '%s.%d' % (a, i), '%s.%d' % (b, i)) for i, x in enumerate(t[1:]))
        if t[0] == 'struct' and self.fuzzy_key(t):
            cur, self.cur = self.cur, []
            try: v = self.struct_eq('==', V(a, t), V(b, t), None).text; lets = [x for x in self.cur if x[0] == 'let']
            finally: self.cur = cur
            for x in reversed(lets): v = re.sub(r'\b%s\b' % x[1], x[2], v)
            return v
        if self.fuzzy_key(t): raise Unsupported('keys of type %s' % (t,))
        return self.eq(t, a, b)

    def assoc_method(self, obj, name, args, n, discard):
        t = obj.type; D = self.dot(obj.text)
        dom = D if t[0] == 'set' else '%s.dom()' % D
        A = lambda j: self.expr(args[j])
        ktype = t[1]
        if name == 'empty': return V('(%s =~= Set::<%s>::empty())' % (dom, self.vt(ktype)), BOOL)
        if name == 'size': return V('(%s.len() as int)' % dom, SIZE)
        if name in ('end', 'cend'): return V('None::<%s>' % self.vt(ktype), ('iter', 'opt', ktype), None, obj)
        if name in ('begin', 'cbegin'):
            self.fx.mkeys = getattr(self.fx, 'mkeys', 0) + 1
            ks = 'mkeys%d' % self.fx.mkeys
            self.let(ks, 'enum_keys::<%s>(%s)' % (self.vt(ktype), dom), ('seq', ktype)); self.fx.scope.append((ks, ('seq', ktype)))
            self.push(('gcall', 'lem_enum_keys::<%s>(%s)' % (self.vt(ktype), dom), list(self.pathcond)))
            if obj.path is not None:
                kp_ = self.freeze(obj.path)
                self.fx.__dict__.setdefault('assoc_keep', []).append((kp_.root, 'no_new_keys(%s%s, %s)' % (kp_.text(), '' if t[0] == 'set' else '.dom()', ks)))
                obj = V(kp_.text(), t, kp_, obj.x)
            return V('0int', ('iter', 'assoc', ks), None, obj)
        if name in ('reserve',): A(0); return V('()', ('void',))
        if name == 'clear': self.store(obj, V(self.default(t), t)); return V('()', ('void',))
        if self.fuzzy_key(ktype) and name not in ('find',): raise Unsupported('%s of a map whose keys are compared by a user-defined equality' % name)
        if name in ('find',):
            k = self.coerce(A(0), ktype)
            if self.fuzzy_key(ktype):
                self.push(('gcall', 'lem_hfind(%s, %s(), %s)' % (D, self.keq_fn(ktype), k.text), list(self.pathcond)))
                return V('hfind(%s, %s(), %s)' % (D, self.keq_fn(ktype), k.text), ('iter', 'opt', ktype), None, obj)
            return V('(if %s.contains(%s) { Some(%s) } else { None })' % (dom, k.text, k.text), ('iter', 'opt', ktype), None, obj)
        if name in ('count', 'contains'):
            k = self.coerce(A(0), ktype)
            return V('%s.contains(%s)' % (dom, k.text), BOOL) if name == 'contains' else V('(if %s.contains(%s) { 1int } else { 0int })' % (dom, k.text), SIZE)
        if name == 'at' and t[0] == 'map':
            k = self.bindtmp(self.coerce(A(0), ktype), 'key')
            self.oblig('%s.contains(%s)' % (dom, k.text), 'the key is present', n)
            p = obj.path.add('k', k.text) if obj.path is not None else None
            return V('%s[%s]' % (D, k.text), t[2], p)
        if name in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
            if t[0] == 'set':
                if name == 'emplace': 
                    k = self.construct_from(ktype, args, n); self.store(obj, V('%s.insert(%s)' % (D, k.text), t)); return V('()', ('void',))
                if len(args) == 2:
                    a, b = A(0), A(1)
                    self.store(obj, V('%s.union(%s.to_set())' % (D, self.dot(self.range_text(a, b, n))), t)); return V('()', ('void',))
                k = self.coerce(A(0), ktype); self.store(obj, V('%s.insert(%s)' % (D, k.text), t)); return V('()', ('void',))
            if len(args) == 1: p = self.bindtmp(self.coerce(A(0), ('pair', t[1], t[2])), 'kv'); kk, vv = p.text + '.first', p.text + '.second'
            else: kk = self.bindtmp(self.coerce(A(0), t[1]), 'key').text; vv = self.coerce(A(1), t[2]).text
            ins = '%s.insert(%s, %s)' % (D, kk, vv)
            if name in ('insert', 'emplace', 'try_emplace'): ins = '(if %s.contains(%s) { %s } else { %s })' % (dom, kk, obj.text, ins)
            self.store(obj, V(ins, t)); return V('()', ('void',))
        if name == 'erase':
            v = A(0)
            if v.type[:2] == ('iter', 'assoc'):
                # erasing does not change the relative order of the remaining elements
                k = '%s[%s]' % (v.type[2], v.text)
                self.oblig('0 <= %s < %s.len() && %s.contains(%s)' % (v.text, v.type[2], dom, k), 'a valid position', n)
                self.store(obj, V('%s.remove(%s)' % (D, k), t)); return V('(%s + 1)' % v.text, v.type, None, obj)
            if v.type[0] == 'iter': self.oblig('%s is Some' % v.text, 'a valid position', n); k = '%s->Some_0' % self.dot(v.text)
            else: k = self.coerce(v, ktype).text
            self.store(obj, V('%s.remove(%s)' % (D, k), t)); return V('()', ('void',))
        raise Unsupported('%s::%s (line %s)' % (t[0], name, line_of(n)))

    # ================================================================ free functions
    def std_call(self, name, args, n, discard):
        f = getattr(self, 'f_' + name, None)
        if f is None: raise Unsupported('function %s (line %s)' % (name, line_of(n)))
        return f([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'], n, discard)

    def f_move(self, a, n, d):
        if len(a) == 3: return self.f_copy(a, n, d)
        if len(a) != 1: raise Unsupported('std::move')
        return self.expr(a[0])
    f_forward = f_move
    f_as_const = f_move
    f_ref = f_move
    def f_max(self, a, n, d):
        if not a:
            t = ntype(n, self.idx)
            if t[0] == 'D': return V('D::Max', DBL)
            if t[0] == 'int':
                lim = {(8, False): 255, (8, True): 127, (32, True): 2147483647, (32, False): 4294967295, (64, True): 9223372036854775807, (64, False): 18446744073709551615}
                return V(ilit(lim[(t[1], t[2])]), t)
        if len(a) == 2:
            x, y = self.expr(a[0]), self.expr(a[1])
            return self.minmax('max', x, y)
        raise Unsupported('std::max')
    def minmax(self, which, x, y):
        if x.type == BOUNDS: return V('b%s(%s, %s)' % (which, x.text, y.text), BOUNDS)
        if x.type[0] == 'D': return V('d%s(%s, %s)' % (which, x.text, self.coerce(y, DBL).text), DBL)
        if x.type[0] == 'int': return V('%s2(%s, %s)' % (which, x.text, y.text), x.type)
        c = self.lt(x.type, y.text, x.text) if which == 'min' else self.lt(x.type, x.text, y.text)
        return V('(if %s { %s } else { %s })' % (c, y.text, x.text), x.type)
    def f_min(self, a, n, d):
        if len(a) == 1:
            v = self.expr(a[0])
            if v.type[0] == 'initlist':
                r = v.x[0]
                for y in v.x[1:]: r = self.minmax('min', r, y)
                return r
        if len(a) == 0:
            t = ntype(n, self.idx)
            if t[0] == 'int' and not t[2]: return V('0int', t)
        if len(a) != 2: raise Unsupported('std::min')
        x, y = self.expr(a[0]), self.expr(a[1])
        return self.minmax('min', x, y)
    def f_infinity(self, a, n, d): return V('D::Inf', DBL)
    def f_lowest(self, a, n, d): return V('D::NMax', DBL)
    def f_epsilon(self, a, n, d): raise Unsupported('epsilon')
    def f_abs(self, a, n, d):
        v = self.expr(a[0])
        return V('dabs(%s)' % v.text, DBL) if v.type[0] == 'D' else V('(if %s < 0 { -%s } else { %s })' % (v.text, self.par(v.text), v.text), v.type)
    f_fabs = f_abs
    def f_floor(self, a, n, d):
        v = self.expr(a[0]); return V('dfloor(%s)' % self.coerce(v, DBL).text, DBL)
    def f_ceil(self, a, n, d):
        v = self.expr(a[0]); return V('dceil(%s)' % self.coerce(v, DBL).text, DBL)
    def f_round(self, a, n, d):
        v = self.expr(a[0]); return V('dround(%s)' % self.coerce(v, DBL).text, DBL)
    def f_trunc(self, a, n, d):
        v = self.bindtmp(self.coerce(self.expr(a[0]), DBL), 'tr'); return V('(if rk(%s) == 0 { D::Fin(dtrunc(%s) as real) } else { %s })' % (v.text, v.text, v.text), DBL)
    def f_modf(self, a, n, d):
        v = self.bindtmp(self.expr(a[0]), 'md'); p = self.expr(a[1])
        if p.type[0] != 'addr': raise Unsupported('modf')
        self.oblig('rk(%s) == 0' % v.text, 'modf of a finite value', n)
        self.store(V(None, DBL, p.path), V('D::Fin(dtrunc(%s) as real)' % v.text, DBL))
        return V('dadd(%s, D::Fin(-(dtrunc(%s) as real)))' % (v.text, v.text), DBL)
    def f_isinf(self, a, n, d): v = self.expr(a[0]); return V('(%s is Inf || %s is NInf)' % (v.text, v.text), BOOL)
    def f_swap(self, a, n, d):
        x, y = self.expr(a[0]), self.expr(a[1]); self.swap(x, y); return V('()', ('void',))
    def f_make_pair(self, a, n, d):
        x, y = self.expr(a[0]), self.expr(a[1])
        t = ('pair', x.type, y.type)
        nt = ntype(n, self.idx)
        v = V('Pair { first: %s, second: %s }' % (x.text, y.text), t)
        return self.coerce(v, nt) if not has_other(nt) else v
    def f_make_tuple(self, a, n, d):
        vs = [self.expr(x) for x in a]
        return V('(%s)' % ', '.join(v.text for v in vs), ('tuple',) + tuple(v.type for v in vs))
    def f_make_shared(self, a, n, d):
        # allocation: the new object gets an address that is not in use
        t = ntype(n, self.idx)
        if t[0] != 'ptr' or t[1][0] != 'struct': raise Unsupported('make_shared of %s' % (t,))
        h = self.heapvars.get(t[1][1])
        if h is None: raise Unsupported('no heap of %s here' % t[1][1])
        v = self.construct_from(t[1], a, n)
        v = self.bindtmp(V(v.text, t[1]), 'obj')
        p = self.tmp('new'); self.let(p, 'fresh_ptr(%s.dom())' % h, t); self.fx.scope.append((p, t))
        self.push(('gcall', 'lem_fresh_ptr(%s.dom())' % h, []))
        self.push(('set', h, '%s.insert(%s, %s)' % (h, p, v.text)))
        return V(p, t)
    def f_make_optional(self, a, n, d):
        x = self.expr(a[0]); return V('Some(%s)' % x.text, ('opt', x.type))
    def f_get(self, a, n, d):
        v = self.expr(a[0]); t = ntype(n, self.idx)
        if v.type[0] == 'var':
            if t[0] == 'D':
                self.oblig('%s is Dbl' % self.par(v.text), 'std::get: the variant holds a double', n)
                return V('%s->Dbl_0' % self.dot(v.text), DBL, v.path.add('v', 'Dbl') if v.path is not None else None)
            self.oblig('%s is Clk' % self.par(v.text), 'std::get: the variant holds a clock', n)
            return V('%s->Clk_0' % self.dot(v.text), ('int', 8, False), v.path.add('v', 'Clk') if v.path is not None else None)
        raise Unsupported('std::get on %s' % (v.type,))
    def f_holds_alternative(self, a, n, d): raise Unsupported('holds_alternative')
    def f_begin(self, a, n, d): return self.std_method(self.expr(a[0]), 'begin', [], n, d)
    def f_end(self, a, n, d): return self.std_method(self.expr(a[0]), 'end', [], n, d)
    def f_next(self, a, n, d):
        v = self.expr(a[0]); k = self.expr(a[1]) if len(a) > 1 else V('1', INT64)
        return V('(%s + %s)' % (v.text, k.text), v.type, None, v.x)
    def f_prev(self, a, n, d):
        v = self.expr(a[0]); k = self.expr(a[1]) if len(a) > 1 else V('1', INT64)
        return V('(%s - %s)' % (v.text, k.text), v.type, None, v.x)
    def f_distance(self, a, n, d):
        x, y = self.expr(a[0]), self.expr(a[1]); return V('(%s - %s)' % (y.text, x.text), INT64)
    def f_reverse(self, a, n, d):
        if len(a) == 1:
            # boost::adaptors::reverse
            v = self.expr(a[0]); return V(v.text, v.type, v.path, ('reversed',))
        x, y, c = self.seq_range(a, n)
        self.whole(x, y, c)
        self.store(c, V('%s.reverse()' % self.dot(self.range_text(x, y, n)), c.type)); return V('()', ('void',))
    def f_sort(self, a, n, d):
        if len(a) != 2: raise Unsupported('std::sort with a comparator')
        x, y, c = self.seq_range(a, n); e = c.type[1]
        kind = 'di' if e[0] == 'pair' and e[1][0] == 'D' and e[2][0] == 'int' else 'i' if e[0] == 'int' else None
        if kind is None: raise Unsupported('std::sort of %s' % (c.type,))
        t = self.range_text(x, y, n)
        if t != c.text: raise Unsupported('partial sort')
        self.push(('gcall', 'lem_sort_%s(%s)' % (kind, t), list(self.pathcond)))
        self.store(c, V('sort_%s(%s)' % (kind, t), c.type)); return V('()', ('void',))
    def f_unique(self, a, n, d):
        if len(a) != 2: raise Unsupported('std::unique with a predicate')
        x, y, c = self.seq_range(a, n)
        if c.type[1][0] != 'int': raise Unsupported('std::unique of %s' % (c.type,))
        self.whole(x, y, c)
        self.push(('gcall', 'lem_uniq_i(%s)' % c.text, list(self.pathcond)))
        # erase(unique(..), end()) is the only use
        self.store(c, V('uniq_i(%s)' % c.text, c.type))
        return V('(%s.len() as int)' % self.dot(c.text), ('iter',), None, ('filtered', c))
    def f_fill(self, a, n, d):
        x, y, c = self.seq_range(a, n); v = self.coerce(self.expr(a[2]), c.type[1])
        if not (x.text == '0int' and y.text.endswith('.len() as int)')): raise Unsupported('partial fill')
        self.store(c, V('seq_n(%s.len() as int, %s)' % (self.dot(c.text), v.text), c.type)); return V('()', ('void',))
    def f_all_of(self, a, n, d):
        x, y, c = self.seq_range(a, n); f = self.expr(a[2])
        return self.or_loop(lambda: self.quantifier(x.text, y.text, c, f, True, n), lambda: self.quant_loop(x, y, c, f, True, n))
    def f_any_of(self, a, n, d):
        x, y, c = self.seq_range(a, n); f = self.expr(a[2])
        return self.or_loop(lambda: self.quantifier(x.text, y.text, c, f, False, n), lambda: self.quant_loop(x, y, c, f, False, n))
    def or_loop(self, pure, loop):
        # an algorithm whose function object has effects or only an input/output contract is an annotated loop
        saved = (self.fx.loops, list(self.fx.scope), dict(self.fx.env))
        try: return pure()
        except Unsupported as e:
            if 'side effects under a binder' not in str(e) and 'has no invariant' not in str(e) or self.quant: raise
        self.fx.loops, self.fx.scope, self.fx.env = saved
        return loop()
    def alg_loop(self, x, y, c, n, body):
        """for each element of the range (fixed at entry): body(element)"""
        k = self.fx.loops + 1
        nm, ixn = 'rng%d' % k, 'it%d' % k
        keep = []
        if c.path is not None:
            kp_ = self.freeze(c.path); keep.append((kp_.root, '%s == %s' % (self.range_text(x, y, n).replace(c.text, kp_.text()) if c.text else 'true', nm)))
        self.let(nm, self.range_text(x, y, n), c.type); self.fx.scope.append((nm, c.type))
        self.let(ixn, '0int', ('int', 64, False), True); self.fx.scope.append((ixn, ('int', 64, False))); self.mutable.add(ixn)
        self.loop(n, lambda: '%s < %s.len()' % (ixn, nm), lambda: body(V('%s[%s]' % (nm, ixn), c.type[1]), ixn), lambda: self.push(('set', ixn, '%s + 1' % ixn)), keep=keep)
    def quant_loop(self, x, y, c, f, is_all, n, neg=True):
        r = 'res%d' % (self.fx.loops + 1)
        self.let(r, 'true' if is_all else 'false', BOOL, True); self.mutable.add(r); self.fx.scope.append((r, BOOL))
        def body(el, ix):
            b = self.truth(self.call_fn_object(f, [el]))
            self.push(('if', ('!(%s)' if is_all and neg else '(%s)') % b, [('set', r, 'false' if is_all else 'true'), ('brk',)], []))
        self.alg_loop(x, y, c, n, body)
        return V(r, BOOL)
    def f_none_of(self, a, n, d):
        x, y, c = self.seq_range(a, n); f = self.expr(a[2])
        def pure():
            v = self.quantifier(x.text, y.text, c, f, False, n); return V('(!%s)' % v.text, BOOL)
        return self.or_loop(pure, lambda: self.quant_loop(x, y, c, f, True, n, neg=False))
    def find_index(self, x, y, c, pred, n, wd='true'):
        """first index satisfying pred(k), or y"""
        r = self.tmp('fnd')
        self.let(r, 'choose|r_: int| #![trigger tix(r_)] tix(r_) && %s <= r_ <= %s && (r_ < %s ==> %s) && forall|k_: int| #![trigger %s[k_]] %s <= k_ < r_ ==> !(%s)' % (x.text, y.text, y.text, pred('r_'), self.dot(c.text), x.text, pred('k_')), ('int', 64, True))
        self.push(('gcall', 'lem_first(|k_: int| %s, %s, %s as int)' % (pred('k_'), x.text, y.text), list(self.pathcond)))
        return V('find_first(|k_: int| %s, %s, %s as int)' % (pred('k_'), x.text, y.text), ('iter',), None, c)
    def first_such(self, x, y, c, pred):
        r = self.tmp('fnd')
        p = self.tmp('fp')
        self.push(('let', p, '|k_: int| -> bool { %s }' % pred('k_') if False else '|k_: int| %s' % pred('k_'), ('spec_fn_bool',), False))
        self.push(('gcall', 'lem_first(%s, %s, %s as int)' % (p, x.text, y.text), []))
        self.let(r, 'find_first(%s, %s, %s as int)' % (p, x.text, y.text), ('iter',))
        self.push(('ghost', 'assert forall|k_: int| #![trigger %s[k_]] %s <= k_ < %s implies !(%s) by { assert(!%s(k_)); }' % (self.dot(c.text), x.text, r, pred('k_'), p)))
        return V(r, ('iter',), None, c)
    def f_find(self, a, n, d):
        x, y, c = self.seq_range(a, n); v = self.bindtmp(self.coerce(self.expr(a[2]), c.type[1]), 'needle')
        if self.has_struct(c.type[1]) and c.type[1][0] not in ('own', 'ptr', 'shared'):
            def pred(k):
                vv, s, w = self.pure_eval(lambda: self.struct_eq('==', V('%s[%s]' % (self.dot(c.text), k), c.type[1]), v, n))
                return s
            return self.first_such(x, y, c, pred)
        return self.first_such(x, y, c, lambda k: self.eq(c.type[1], '%s[%s]' % (self.dot(c.text), k), v.text))
    def f_find_if(self, a, n, d, neg=False):
        x, y, c = self.seq_range(a, n); f = self.expr(a[2])
        def pred(k):
            v, s, w = self.pure_eval(lambda: self.call_fn_object(f, [V('%s[%s]' % (self.dot(c.text), k), c.type[1])]))
            if k == 'k_' and w != 'true':
                self.oblig('forall|k_: int| #![trigger %s[k_]] %s <= k_ < %s ==> %s' % (self.dot(c.text), x.text, y.text, w), 'requirements of the predicate', n)
            return ('!(%s)' if neg else '%s') % self.truth(V(s, v.type))
        return self.first_such(x, y, c, pred)
    def f_find_if_not(self, a, n, d): return self.f_find_if(a, n, d, True)
    def f_equal(self, a, n, d):
        x, y, c = self.seq_range(a, n); z = self.expr(a[2])
        e = self.reload(z.x)
        self.oblig('%s + (%s - %s) <= %s.len()' % (z.text, y.text, x.text, self.dot(e.text)), 'std::equal: second range long enough', n)
        return V('(%s =~= %s.subrange(%s, %s + (%s - %s)))' % (self.range_text(x, y, n), self.dot(e.text), z.text, z.text, y.text, x.text), BOOL)
    def f_make_move_iterator(self, a, n, d): return self.expr(a[0])
    def f_back_inserter(self, a, n, d):
        v = self.expr(a[0]); return V('<back>', ('backins',), v.path, v)
    def f_copy(self, a, n, d):
        x, y, c = self.seq_range(a, n); o = self.expr(a[2])
        if o.type[0] == 'backins':
            tgt = self.reload(o.x)
            self.store(tgt, V('(%s + %s)' % (tgt.text, self.range_text(x, y, n)), tgt.type)); return V('()', ('void',))
        if o.type[0] == 'iter' and o.x is not None and not self.is_rev(o):
            src = self.range_text(x, y, n); tgt = self.reload(o.x)
            if tgt.type[0] != 'seq': raise Unsupported('std::copy into %s' % (tgt.type,))
            self.oblig('0 <= %s && %s + %s.len() <= %s.len()' % (o.text, o.text, self.dot(src), self.dot(tgt.text)), 'index in range', n)
            self.store(tgt, V('seq_put(%s, %s, %s)' % (tgt.text, o.text, src), tgt.type))
            if not d: raise Unsupported('the result of std::copy')
            return V('()', ('void',))
        raise Unsupported('std::copy')
    def f_transform(self, a, n, d):
        if len(a) != 4: raise Unsupported('transform')
        x, y, c = self.seq_range(a, n); o = self.expr(a[2]); f = self.expr(a[3])
        return self.or_loop(lambda: self.transform_pure(x, y, c, o, f, n), lambda: self.transform_loop(x, y, c, o, f, n))
    def transform_loop(self, x, y, c, o, f, n):
        def body(el, ix):
            v = self.call_fn_object(f, [el])
            if o.type[0] == 'backins':
                tgt = self.reload(o.x); self.store(tgt, V('%s.push(%s)' % (self.dot(tgt.text), self.coerce(v, tgt.type[1]).text), tgt.type))
            elif o.type[0] == 'iter' and o.x is not None:
                tgt = self.reload(o.x); k = ix if o.text in ('0', '0int') else '%s + %s' % (o.text, ix)
                self.oblig('0 <= %s < %s.len()' % (k, self.dot(tgt.text)), 'index in range', n)
                self.store(V(None, tgt.type[1], tgt.path.add('i', k)), self.coerce(v, tgt.type[1]))
            else: raise Unsupported('transform into %s' % (o.type,))
        self.alg_loop(x, y, c, n, body)
        return V('()', ('void',))
    def f_for_each(self, a, n, d):
        x, y, c = self.seq_range(a, n); f = self.expr(a[2])
        if f.type[0] == 'lambda' and isinstance(f.x, dict) and f.x.get('kind') == 'LambdaExpr' and c.path is not None and c.type[0] == 'seq':
            q = params_of(self.lambda_op(f.x))[0]['type']['qualType'].rstrip()
            if q.endswith('&') and not isconst(q): return self.for_each_ref(x, y, c, f, n)
        self.alg_loop(x, y, c, n, lambda el, ix: self.call_fn_object(f, [el]))
        return V('()', ('void',))
    def for_each_ref(self, x, y, c, f, n):
        # each element of the range is replaced by its value after the (otherwise effect-free) function object
        el = self.tmp('el')
        def run():
            self.let(el, '%s[k_]' % self.dot(c.text), c.type[1], True); self.mutable.add(el); self.fx.scope.append((el, c.type[1]))
            self.call_fn_object(f, [V(el, c.type[1], Path(el))])
            return V(el, c.type[1])
        v, s, w = self.pure_eval(run, 'for_each')
        if w != 'true': self.oblig('forall|k_: int| #![trigger %s[k_]] %s <= k_ < %s ==> %s' % (self.dot(c.text), x.text, y.text, w), 'requirements of the function object', n)
        self.store(c, V('Seq::new(%s.len(), |k_: int| if %s <= k_ < %s { %s } else { %s[k_] })' % (self.dot(c.text), x.text, y.text, s, self.dot(c.text)), c.type))
        return V('()', ('void',))
    def transform_pure(self, x, y, c, o, f, n):
        src = self.range_text(x, y, n)
        et = self.reload(o.x).type[1] if o.type[0] == 'backins' or (o.type[0] == 'iter' and o.x is not None) else None
        def elem():
            r = self.call_fn_object(f, [V('%s[k_]' % self.dot(src), c.type[1])])
            return self.coerce(r, et) if et is not None else r
        v, s, w = self.pure_eval(elem, 'transform')
        if w != 'true': self.oblig('forall|k_: int| #![trigger %s[k_]] 0 <= k_ < %s.len() ==> %s' % (self.dot(src), self.dot(src), w), 'requirements of the transformation', n)
        if o.type[0] == 'backins':
            tgt = self.reload(o.x)
            self.store(tgt, V('(%s + Seq::new(%s.len(), |k_: int| %s))' % (tgt.text, self.dot(src), s), tgt.type)); return V('()', ('void',))
        if o.type[0] == 'iter' and o.x is not None:
            tgt = self.reload(o.x)
            self.oblig('0 <= %s && %s + %s.len() <= %s.len()' % (o.text, o.text, self.dot(src), self.dot(tgt.text)), 'index in range', n)
            if o.text in ('0', '0int'):
                self.store(tgt, V('Seq::new(%s.len(), |k_: int| if k_ < %s.len() { %s } else { %s[k_] })' % (self.dot(tgt.text), self.dot(src), s, self.dot(tgt.text)), tgt.type))
            else:
                self.store(tgt, V('Seq::new(%s.len(), |kk_: int| if %s <= kk_ < %s + %s.len() { let k_ = kk_ - %s; %s } else { %s[kk_] })' % (self.dot(tgt.text), o.text, o.text, self.dot(src), o.text, s, self.dot(tgt.text)), tgt.type))
            return V('()', ('void',))
        raise Unsupported('transform')
    def f_accumulate(self, a, n, d):
        x, y, c = self.seq_range(a, n); z = self.expr(a[2])
        src = self.range_text(x, y, n)
        if len(a) == 3 and z.type[0] == 'D' and c.type[1][0] == 'D': return V('dsum(%s, %s)' % (z.text, src), DBL)
        raise Unsupported('accumulate')
    def f_is_sorted(self, a, n, d): raise Unsupported('is_sorted')
    def f_iota(self, a, n, d):
        x, y, c = self.seq_range(a, n); z = self.expr(a[2])
        self.whole(x, y, c)
        self.store(c, V('Seq::new(%s.len(), |k_: int| %s + k_)' % (self.dot(c.text), z.text), c.type)); return V('()', ('void',))
    def filter_text(self, src, et, test):
        """elements of src for which test holds, with what filtering means"""
        fp = self.tmp('fp')
        self.push(('let', fp, '|e_: %s| %s' % (self.vt(et), test), ('spec_fn_bool',), False))
        self.push(('gcall', 'lem_filt(%s, %s)' % (src, fp), list(self.pathcond)))
        self.push(('gcall', 'lem_filt_sub(%s, %s)' % (src, fp), list(self.pathcond)))
        return '%s.filter(%s)' % (self.dot(src), fp)
    def filter_test(self, f, et, neg):
        v, s, w = self.pure_eval(lambda: self.call_fn_object(f, [V('e_', et)]))
        t = self.truth(V(s, v.type))
        return '!(%s)' % t if neg else '(%s)' % t
    def f_remove_if(self, a, n, d):
        x, y, c = self.seq_range(a, n); f = self.expr(a[2])
        self.whole(x, y, c)
        # erase(remove_if(..), end()) is the only use
        self.store(c, V(self.filter_text(c.text, c.type[1], self.filter_test(f, c.type[1], True)), c.type))
        return V('(%s.len() as int)' % self.dot(c.text), ('iter',), None, ('filtered', c))
    def f_remove(self, a, n, d):
        x, y, c = self.seq_range(a, n); v = self.bindtmp(self.coerce(self.expr(a[2]), c.type[1]), 'needle')
        if self.has_struct(c.type[1]) and c.type[1][0] not in ('own', 'ptr', 'shared'): raise Unsupported('remove with a user-defined equality')
        self.whole(x, y, c)
        self.store(c, V(self.filter_text(c.text, c.type[1], '!(%s)' % self.eq(c.type[1], 'e_', v.text)), c.type))
        return V('(%s.len() as int)' % self.dot(c.text), ('iter',), None, ('filtered', c))
    def f_copy_if(self, a, n, d):
        x, y, c = self.seq_range(a, n); o = self.expr(a[2]); f = self.expr(a[3])
        if o.type[0] != 'backins': raise Unsupported('copy_if into %s' % (o.type,))
        src = self.bindtmp(V(self.range_text(x, y, n), c.type), 'src')
        fl = self.filter_text(src.text, c.type[1], self.filter_test(f, c.type[1], False))
        tgt = self.reload(o.x)
        self.store(tgt, V('(%s + %s)' % (tgt.text, fl), tgt.type)); return V('()', ('void',))
    def f___assert_fail(self, a, n, d): self.oblig('false', 'assertion', n); return V('()', ('void',))
    def f_abort(self, a, n, d): self.oblig('false', 'abort is not reached', n); return V('()', ('void',))
