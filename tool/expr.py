"""Expression translation (mixin of Translator)."""
import re
from fractions import Fraction
from cxx import *
import trans as T
from trans import V, Path, MX, Unsupported, san, OPN

TRANSPARENT = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr',
               'SubstNonTypeTemplateParmExpr', 'FullExpr')
INT64 = ('int', 64, True)
SIZE = ('int', 64, False)
BOOL = ('bool',)
DBL = ('D',)

def lit(s):
    """integer value of a constant text"""
    m = re.match(r'^\(?(-?\d+)(int)?\)?$', s)
    return int(m.group(1)) if m else None

def ilit(n):
    return '%dint' % n if n >= 0 else '(%dint)' % n

def isname(s): return re.match(r'^[A-Za-z_]\w*$', s) is not None

def t_assoc(v): return v.type[0] == 'iter' and v.type[1:2] == ('assoc',)

def parse_type_of_abs(self, c, n):
    t = ntype(n, self.idx)
    return t

class ExprMixin:
    # ------------------------------------------------------------ dispatcher
    def strip_node(self, n):
        while True:
            k = n.get('kind')
            if k in TRANSPARENT or k == 'ImplicitCastExpr' and n.get('castKind') in ('NoOp', 'LValueToRValue', 'ConstructorConversion', 'FunctionToPointerDecay', 'UserDefinedConversion', 'BuiltinFnToFnPtr') or k == 'CXXFunctionalCastExpr' and n.get('castKind') in ('NoOp', 'ConstructorConversion'):
                ins = [c for c in n.get('inner', ()) if c]
                if not ins: return n
                n = ins[0]; continue
            if k == 'CXXConstructExpr' and len([c for c in n.get('inner', ()) if c]) == 1:
                c = [c for c in n.get('inner', ()) if c][0]
                if self.same_type(n, c) : n = c; continue
            return n

    def same_type(self, a, b):
        f = lambda n: re.sub(r'\b(const|struct|class)\b|&|\s', '', n.get('type', {}).get('desugaredQualType', n.get('type', {}).get('qualType', '?')))
        return f(a) == f(b)

    def expr(self, n, discard=False):
        if isinstance(n, V): return n
        k = n.get('kind')
        if k in TRANSPARENT:
            ins = [c for c in n.get('inner', ()) if c]
            return self.expr(ins[0], discard)
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s (line %s)' % (k, line_of(n)))
        if k in ('UnaryOperator', 'CXXOperatorCallExpr', 'CallExpr', 'CXXMemberCallExpr'): return m(n, discard)
        return m(n)

    def ins(self, n): return [c for c in n.get('inner', ()) if c]

    # ------------------------------------------------------------ leaves
    def e_IntegerLiteral(self, n): return V(ilit(int(n['value'])), ntype(n, self.idx))
    def e_CharacterLiteral(self, n): return V(ilit(int(n['value'])), ntype(n, self.idx))
    def e_CXXBoolLiteralExpr(self, n): return V('true' if n['value'] else 'false', BOOL)
    def e_FloatingLiteral(self, n):
        f = Fraction(str(n['value']))
        if f.denominator == 1: return V('D::Fin(%dreal)' % f.numerator, DBL)
        return V('D::Fin(%dreal / %dreal)' % (f.numerator, f.denominator), DBL)
    def e_CXXThisExpr(self, n): return V('&this', ('thisptr',), None, None)
    def e_CXXNullPtrLiteralExpr(self, n): return V('0int', ('ptr', ('void',)))
    def e_StringLiteral(self, n): return V('arbitrary::<Seq<int>>()', ('strlit',), None, n.get('value'))
    def e_CXXScalarValueInitExpr(self, n):
        t = ntype(n, self.idx); return V(self.default(t), t)
    def e_ImplicitValueInitExpr(self, n):
        t = ntype(n, self.idx); return V(self.default_of(t), t)
    def e_CXXThrowExpr(self, n):
        self.oblig('false', 'no exception is thrown', n); return V('()', ('void',))

    def e_DeclRefExpr(self, n):
        r = n['referencedDecl']; i = r['id']
        v = self.lookup(i)
        if v is not None: return v
        if r['kind'] == 'EnumConstantDecl':
            t = ntype(n, self.idx)
            if t[0] == 'enum':
                return V('%s::%s' % (self.vt(t), san(r['name'])), t)
            q = self.idx.qual.get(i)
            if q:
                eq = q.rsplit('::', 1)[0]
                return V('%s::%s' % (self.vt(('enum', eq)), san(r['name'])), ('enum', eq))
        if r.get('name') == 'nullopt': return V('None', ('nullopt',))
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            d = self.idx.resolve_body(i)
            if d is None and i in self.idx.decl: d = self.by_qual(i)
            if d is not None: return V('<function>', ('lambda', ''), None, d)
        if r['kind'] in ('VarDecl',):
            d = self.idx.decl.get(i)
            if d is not None and self.init_of(d) is not None and (d.get('constexpr') or re.match(r'^(static )?\s*const', d['type']['qualType'])):
                return self.coerce(self.expr(self.init_of(d)), ntype(d, self.idx))
        raise Unsupported('reference to %s %s (line %s)' % (r['kind'], r.get('name'), line_of(n)))

    def lookup(self, i):
        v = self.fx.env.get(i)
        if v is None: return None
        if v.type[0] == 'lambda': return v
        if v.path is not None:
            return V(v.path.text(), v.type, v.path, v.x)
        if v.x is not None and isinstance(v.x, tuple) and v.x[0] == 'condpath':
            _, c, p1, p2 = v.x
            return V('(if %s { %s } else { %s })' % (c, p1.text(), p2.text()), v.type, None, v.x)
        return v

    # ------------------------------------------------------------ casts
    def e_ImplicitCastExpr(self, n):
        ck = n['castKind']
        sub = self.ins(n)[0]
        if ck in ('NoOp', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'FunctionToPointerDecay',
                  'UserDefinedConversion', 'ArrayToPointerDecay'):
            v = self.expr(sub)
            if ck in ('UncheckedDerivedToBase', 'DerivedToBase'): v = self.tobase(v, n)
            return v
        return self.cast(self.expr(sub), ck, n)

    def tobase(self, v, n):
        """struct derived from a vector or another struct, used as its base"""
        if v.type[0] != 'struct': return v
        t = ntype(n, self.idx)
        bs = self.bases(v.type[1])
        if len(bs) == 1 and (bs[0] == t or has_other(t)) and bs[0] != v.type:
            # eigen bases do not occur for structs
            p = v.path.add('f', 'base', self.ctor_name(v.type)) if v.path else None
            return V(v.text + '.base', bs[0], p)
        return v

    def cast(self, v, ck, n):
        t = ntype(n, self.idx)
        if ck == 'IntegralCast':
            if v.type[0] == 'enum' or t[0] == 'enum': raise Unsupported('enum to int cast')
            if v.type[0] == 'bool': return V('(if %s { 1int } else { 0int })' % v.text, t)
            if v.type[0] == 'iter': return v
            if v.type[0] != 'int': raise Unsupported('integral cast of %s' % (v.type,))
            bits, signed = t[1], t[2]
            c = lit(v.text)
            if bits == 8 and not signed:
                if c is not None: return V(ilit(c % 256), t)
                if v.type[1] == 8 and not v.type[2]: return V(v.text, t, v.path)
                return V('((%s) %% 256)' % v.text, t)
            return V(v.text, t, None)
        if ck == 'IntegralToFloating': return V('D::Fin(%s as real)' % self.par(v.text), DBL)
        if ck == 'FloatingToIntegral':
            self.oblig('rk(%s) == 0' % v.text, 'a finite value is converted to an integer', n)
            return V('dtrunc(%s)' % v.text, t)
        if ck == 'IntegralToBoolean': return V('(%s != 0)' % v.text, BOOL)
        if ck == 'ToVoid': return V('()', ('void',))
        if ck == 'FloatingCast': return v
        if ck == 'NullToPointer': return V('0int', ('ptr', ('void',)))
        if ck == 'PointerToBoolean': return V('(%s != 0)' % v.text, BOOL)
        raise Unsupported('cast %s (line %s)' % (ck, line_of(n)))

    def par(self, s): return s if re.match(r'^[\w.]+$', s) else '(%s)' % s

    def e_CXXStaticCastExpr(self, n):
        sub = self.ins(n)[0]; v = self.expr(sub)
        ck = n.get('castKind')
        if ck in ('NoOp', 'ConstructorConversion', 'LValueToRValue'): return self.coerce(v, ntype(n, self.idx)) if v.type[0] in ('int', 'D') else v
        return self.cast(v, ck, n)
    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr

    def coerce(self, v, t):
        """value of v as an object of type t"""
        if t is None or has_other(t) or v.type == t: return v
        k = v.type[0]
        if k == 'initlist': return self.coerce_init(t, v, None)
        if k == 'mexpr' and t[0] == 'mat': return self.materialize(v)
        if k == 'mexpr' : raise Unsupported('Eigen expression used as %s' % (t,))
        if t[0] == 'opt':
            if k == 'nullopt': return V('None::<%s>' % self.vt(t[1]), t)
            if k == 'opt': return v
            return V('Some(%s)' % self.coerce(v, t[1]).text, t)
        if t[0] == 'var' and k != 'var':
            if k == 'D': return V('VarDC::Dbl(%s)' % v.text, t)
            if k == 'int': return V('VarDC::Clk(%s)' % v.text, t)
        if t[0] == 'int' and k == 'int':
            c = lit(v.text)
            if t[1] == 8 and not t[2] and v.type[1] != 8:
                if c is not None: return V(ilit(c % 256), t)
                return V('((%s) %% 256)' % v.text, t)
            return V(v.text, t, v.path)
        if t[0] == 'D' and k == 'int': return V('D::Fin(%s as real)' % self.par(v.text), t)
        if t[0] == 'int' and k == 'D':
            self.oblig('rk(%s) == 0' % v.text, 'a finite value is converted to an integer', None)
            return self.coerce(V('dtrunc(%s)' % v.text, INT64), t)
        if t[0] == 'pair' and k == 'pair':
            if t[1:] == v.type[1:]: return v
            b = self.bindtmp(v)
            a = self.coerce(V(b.text + '.first', v.type[1]), t[1]); c = self.coerce(V(b.text + '.second', v.type[2]), t[2])
            return V('Pair { first: %s, second: %s }' % (a.text, c.text), t)
        if t[0] == 'seq' and k == 'strlit':
            s = v.x[1:-1] if v.x else ''
            return V('seq![%s]' % ', '.join(ilit(ord(c)) for c in s) if s else 'Seq::<int>::empty()', t)
        if t[0] == 'seq' and k == 'seq':
            if v.type[1] == t[1] or self.vt(v.type[1]) == self.vt(t[1]): return V(v.text, t, v.path, v.x)
        if t[0] == 'seq' and k == 'struct' and self.bases(v.type[1])[:1] == [t]: return V(v.text + '.base', t)
        if t[0] == 'struct' and k == 'struct':
            if self.bases(v.type[1])[:1] == [t]: return V(v.text + '.base', t)
        if t[0] in ('map', 'set') and k == t[0] and self.vt(t) == self.vt(v.type): return V(v.text, t, v.path)
        if t[0] == 'struct' and k in ('initlist',): return self.construct(t, v.x, None)
        if t[0] == 'bool' and k == 'int': return V('(%s != 0)' % v.text, t)
        if t[0] in ('lambda', 'ptr', 'mexpr', 'iter', 'void', 'enum') : return v
        if t[0] == 'mat' and k == 'mat': return v
        raise Unsupported('conversion from %s to %s' % (v.type, t))

    # ------------------------------------------------------------ operators
    def arith(self, op, a, b, n):
        ta, tb = a.type[0], b.type[0]
        if ta == 'D' or tb == 'D':
            a = self.coerce(a, DBL); b = self.coerce(b, DBL)
            if op == '+': return V('dadd(%s, %s)' % (a.text, b.text), DBL)
            if op == '-': return V('dadd(%s, dneg(%s))' % (a.text, b.text), DBL)
            if op == '*': return V('dmul(%s, %s)' % (a.text, b.text), DBL)
            if op == '/':
                self.oblig('rk(%s) == 0 && dv(%s) != 0real' % (b.text, b.text), 'no division by zero', n)
                return V('ddiv(%s, %s)' % (a.text, b.text), DBL)
        if ta == 'iter' and tb == 'int' and op in '+-': return V('(%s %s %s)' % (a.text, op, b.text), a.type, None, a.x)
        if ta == 'iter' and tb == 'iter' and op == '-': return V('(%s - %s)' % (a.text, b.text), INT64)
        if ta == 'int' and tb == 'int':
            t = ntype(n, self.idx) if n is not None and n.get('kind') == 'BinaryOperator' else a.type
            ca, cb = lit(a.text), lit(b.text)
            if op in ('/', '%'):
                self.oblig('%s != 0' % b.text, 'no division by zero', n)
                if t[0] == 'int' and t[2]:
                    f = {'/': 'itdiv', '%': 'itmod'}[op]
                    if cb is not None and cb > 0 and not a.type[2]: return V('(%s %s %s)' % (a.text, op, b.text), t)
                    return V('%s(%s, %s)' % (f, a.text, b.text), t)
                return V('(%s %s %s)' % (a.text, op, b.text), t)
            if ca is not None and cb is not None and op in '+-*':
                return V(ilit({'+': ca + cb, '-': ca - cb, '*': ca * cb}[op]), t)
            if op in '+-*': return V('(%s %s %s)' % (a.text, op, b.text), t)
        raise Unsupported('operator %s on %s, %s (line %s)' % (op, a.type, b.type, line_of(n) if n else None))

    def compare(self, op, a, b, n):
        if a.type[0] == 'nullopt' or b.type[0] == 'nullopt':
            o = b if a.type[0] == 'nullopt' else a
            return V('(%s is %s)' % (o.text, 'None' if op == '==' else 'Some'), BOOL)
        if a.type[0] == 'opt' and b.type[0] != 'opt': b = self.coerce(b, a.type)
        if b.type[0] == 'opt' and a.type[0] != 'opt': a = self.coerce(a, b.type)
        if a.type[0] == 'strlit': a = self.coerce(a, b.type)
        if b.type[0] == 'strlit': b = self.coerce(b, a.type)
        if a.type[0] == 'mexpr' or b.type[0] == 'mexpr' or a.type[0] == 'mat':
            ma, mb = self.mx(a), self.mx(b)
            self.oblig('%s == %s && %s == %s' % (ma.rows, mb.rows, ma.cols, mb.cols), 'Eigen: compared matrices have the same size', n)
            c = 'forall|a_: int, b_: int| 0 <= a_ < %s && 0 <= b_ < %s ==> #[trigger] tij(a_, b_) && %s == %s' % (ma.rows, ma.cols, ma.at('a_', 'b_'), mb.at('a_', 'b_'))
            c = 'forall|a_: int, b_: int| 0 <= a_ < %s && 0 <= b_ < %s ==> #[trigger] %s == %s' % (ma.rows, ma.cols, ma.at('a_', 'b_'), mb.at('a_', 'b_')) if a.type[0] == 'mat' else \
                'forall|a_: int, b_: int| 0 <= a_ < %s && 0 <= b_ < %s ==> %s == #[trigger] %s' % (ma.rows, ma.cols, ma.at('a_', 'b_'), mb.at('a_', 'b_')) if b.type[0] == 'mat' else \
                'forall|a_: int, b_: int| #![trigger tij(a_, b_)] 0 <= a_ < %s && 0 <= b_ < %s ==> %s == %s' % (ma.rows, ma.cols, ma.at('a_', 'b_'), mb.at('a_', 'b_'))
            c = '(%s)' % c
            return V(c if op == '==' else '(!%s)' % c, BOOL)
        ta = a.type
        if a.type[0] == 'bool' and b.type[0] == 'int' : b = V('(%s != 0)' % b.text, BOOL)
        if ta[0] == 'D' or b.type[0] == 'D':
            a = self.coerce(a, DBL); b = self.coerce(b, DBL); ta = DBL
        if op == '==': return V(self.eq(ta, a.text, b.text), BOOL)
        if op == '!=': return V('(!%s)' % self.eq(ta, a.text, b.text), BOOL)
        if op == '<': return V(self.lt(ta, a.text, b.text), BOOL)
        if op == '>': return V(self.lt(ta, b.text, a.text), BOOL)
        if ta[0] == 'D': return V('dle(%s, %s)' % ((a.text, b.text) if op == '<=' else (b.text, a.text)), BOOL)
        if ta[0] in ('int', 'iter'): return V('(%s %s %s)' % (a.text, op, b.text), BOOL)
        if op == '<=': return V('(!%s)' % self.lt(ta, b.text, a.text), BOOL)
        return V('(!%s)' % self.lt(ta, a.text, b.text), BOOL)

    def shortcut(self, a, rhs, is_and):
        """a && rhs / a || rhs where rhs is a thunk"""
        saved, spc = self.cur, self.pathcond
        self.cur = []; self.pathcond = []
        b = self.truth(rhs())
        blk = self.cur
        self.cur, self.pathcond = saved, spc
        cond = a if is_and else '!(%s)' % a
        if all(s[0] == 'ob' for s in blk):
            self.pathcond = self.pathcond + [cond]
            for s in blk: self.oblig(s[1], s[2])
            self.pathcond = spc
            return V('(%s %s %s)' % (a, '&&' if is_and else '||', b), BOOL)
        t = self.tmp('sc')
        self.let(t, 'false' if is_and else 'true', BOOL, True); self.mutable.add(t)
        self.push(('if', cond, blk + [('set', t, b)], []))
        t2 = self.tmp('sc'); self.let(t2, t, BOOL)
        return V(t2, BOOL)

    def e_BinaryOperator(self, n):
        op = n['opcode']; l, r = self.ins(n)
        if op in ('&&', '||'):
            a = self.truth(self.expr(l))
            if a in ('true', 'false'):
                if (a == 'true') == (op == '&&'): return V(self.truth(self.expr(r)), BOOL)
                return V(a, BOOL)
            return self.shortcut(a, lambda: self.expr(r), op == '&&')
        if op == '=':
            b = self.expr(r); a = self.expr(l)
            self.assign(a, b, n); return self.reload(a)
        if op == ',':
            self.expr(l, True); return self.expr(r)
        a = self.expr(l)
        # a value read before the right hand side changes it
        mark = len(self.cur)
        b = self.expr(r)
        if any(s[0] in ('set', 'call', 'if') for s in self.cur[mark:]) and not lit(a.text):
            pass
        if op in ('<', '>', '<=', '>=', '==', '!='): return self.compare(op, a, b, n)
        if op in ('&', '|', '^') and a.type[0] == 'bool':
            return V('(%s %s %s)' % (a.text, {'&': '&&', '|': '||', '^': '!='}[op], b.text), BOOL)
        return self.arith(op, a, b, n)

    def reload(self, a):
        if a.path is not None: return V(a.path.text(), a.type, a.path, a.x)
        if a.x is not None and isinstance(a.x, tuple) and a.x[0] == 'condpath':
            _, c, p1, p2 = a.x
            return V('(if %s { %s } else { %s })' % (c, p1.text(), p2.text()), a.type, None, a.x)
        return a

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; l, r = self.ins(n)
        b = self.expr(r); a = self.expr(l)
        if op in ('&', '|') and a.type[0] == 'bool':
            res = V('(%s %s %s)' % (a.text, op * 2, self.truth(b)), BOOL)
        else: res = self.arith(op, a, b, None)
        self.assign(a, self.coerce(res, a.type), n); return self.reload(a)

    def e_UnaryOperator(self, n, discard=False):
        op = n['opcode']; sub = self.ins(n)[0]
        if op == '*':
            s = self.strip_node(sub)
            v = self.expr(sub)
            if v.type[0] == 'thisptr': return self.this_v()
            return self.deref(v, n)
        v = self.expr(sub)
        if op == '!': return V('(!%s)' % self.truth(v), BOOL)
        if op == '-':
            if v.type[0] == 'D':
                m = re.match(r'^D::Fin\((\S+)real\)$', v.text)
                return V('dneg(%s)' % v.text, DBL)
            c = lit(v.text)
            if c is not None: return V(ilit(-c), v.type)
            return V('(-%s)' % self.par(v.text), v.type)
        if op == '+': return v
        if op in ('++', '--'):
            return self.incdec(v, op, n.get('isPostfix', False), discard, n)
        if op == '&': return V('&' + v.text, ('addr', v.type), v.path, v)
        raise Unsupported('unary %s' % op)

    def incdec(self, v, op, post, discard, n):
        if v.path is None and not (isinstance(v.x, tuple) and v.x[0] == 'condpath'): raise Unsupported('++ on a temporary')
        old = v
        if post and not discard:
            t = self.tmp('old'); self.let(t, v.text, v.type); old = V(t, v.type, None, v.x)
        if v.type[0] == 'D': new = 'dadd(%s, D::Fin(%sreal))' % (v.text, '1' if op == '++' else '-1') if op == '++' else 'dadd(%s, D::Fin(-1real))' % v.text
        else:
            new = '%s %s 1' % (v.text, op[0])
            if v.type[0] == 'int' and v.type[1] == 8 and not v.type[2]: new = '(%s) %% 256' % new
            elif v.type[0] == 'int' and not v.type[2] and op == '--':
                self.oblig('%s > 0' % v.text, 'no unsigned underflow', n)
        self.store(v, V(new, v.type))
        return old if post else self.reload(v)

    def e_ConditionalOperator(self, n):
        c, a, b = self.ins(n)
        s = str(n.get('type', {}).get('qualType'))
        if s == 'void' and self.has_assert(n):
            self.oblig_assert(c, n); return V('()', ('void',))
        ct = self.truth(self.expr(c))
        if ct == 'true': return self.expr(a)
        if ct == 'false': return self.expr(b)
        def side(e):
            saved, spc = self.cur, self.pathcond
            self.cur = []; self.pathcond = []
            v = self.expr(e); blk = self.cur
            self.cur, self.pathcond = saved, spc
            return v, blk
        va, ba = side(a); vb, bb = side(b)
        t = va.type
        if t[0] == 'nullopt': t = vb.type if vb.type[0] == 'opt' else ('opt', vb.type)
        if all(s[0] == 'ob' for s in ba + bb):
            spc = self.pathcond
            self.pathcond = spc + [ct]
            for s in ba: self.oblig(s[1], s[2])
            self.pathcond = spc + ['!(%s)' % ct]
            for s in bb: self.oblig(s[1], s[2])
            self.pathcond = spc
            lv = ('condpath', ct, va.path, vb.path) if n.get('valueCategory') == 'lvalue' and va.path is not None and vb.path is not None and va.type == vb.type == t else None
            va = self.coerce(va, t); vb = self.coerce(vb, t)
            return V('(if %s { %s } else { %s })' % (ct, va.text, vb.text), t, None, lv)
        r = self.tmp('cnd')
        self.let(r, 'arbitrary::<%s>()' % self.vt(t), t, True); self.mutable.add(r)
        self.push(('if', ct, ba + [('set', r, self.coerce(va, t).text)], bb + [('set', r, self.coerce(vb, t).text)]))
        r2 = self.tmp('cnd'); self.let(r2, r, t)
        return V(r2, t)

    def has_assert(self, n):
        if n.get('referencedDecl', {}).get('name') == '__assert_fail': return True
        return any(self.has_assert(c) for c in n.get('inner', ()) if c)

    def oblig_assert(self, c, n):
        """assert(c): an obligation.  assert has no effect in release builds: c must not have side effects"""
        if self.cn and self.cn.noassert and not self.inl_stack: return
        t = self.truth(self.expr(c))
        self.oblig(t, 'the assertion in the code holds', n)

    # ------------------------------------------------------------ assignment
    def assign(self, a, b, n=None):
        if a.type[0] == 'mexpr':
            self.eigen_assign(a, b, n); return
        if a.type[0] == 'mat':
            if b.type[0] == 'mexpr':
                # m = expression: Eigen resizes m; the expression must not read m elsewhere
                self.mat_assign(a, b, n); return
        if a.type[0] == 'iter' and b.type[0] == 'iter':
            if a.path is None: raise Unsupported('iterator assignment')
            self.store(a, b); return
        self.store(a, self.coerce(b, a.type))

    def store(self, a, b):
        p = a.path
        if p is None:
            if a.x is not None and isinstance(a.x, tuple) and a.x[0] == 'condpath':
                _, c, p1, p2 = a.x
                self.push(('if', c, [('set', p1.root, p1.update(b.text))], [('set', p2.root, p2.update(b.text))])); return
            raise Unsupported('assignment to something that is not a variable: ' + a.text[:80])
        self.push(('set', p.root, p.update(b.text)))

    # ------------------------------------------------------------ members
    def this_v(self):
        v = self.this
        return V(v.path.text(), v.type, v.path) if v.path is not None else v

    def e_MemberExpr(self, n):
        base = self.ins(n)
        name = n.get('name')
        v = self.expr(base[0])
        if v.type[0] == 'thisptr' and self.partial is not None and san(name) in self.partial:
            return V(self.partial[san(name)], dict(self.fields(self.this_type(self.ctor_of)[1]))[san(name)])
        if v.type[0] == 'thisptr': v = self.this_v()
        if n.get('isArrow') and v.type[0] not in ('struct', 'pair') :
            v = self.deref(v, n)
        md = n.get('referencedMemberDecl')
        return self.field(v, name, n)

    def field(self, v, name, n):
        t = v.type
        if t[0] == 'pair' and name in ('first', 'second'):
            p = v.path.add('f', name, 'Pair') if v.path is not None else None
            if v.x is not None and isinstance(v.x, tuple) and v.x[0] == 'mapentry':
                # *it of a map: first is the key, second the mapped value
                _, key, mv = v.x
                if name == 'first': return V(key, t[1], None)
                p = mv.path.add('k', key) if mv.path is not None else None
                return V('%s[%s]' % (mv.text, key), t[2], p)
            if v.x is not None and isinstance(v.x, tuple) and v.x[0] == 'condpath':
                _, c, p1, p2 = v.x
                return V('%s.%s' % (v.text, name), t[1] if name == 'first' else t[2], None, ('condpath', c, p1.add('f', name, 'Pair'), p2.add('f', name, 'Pair')))
            return V('%s.%s' % (self.dot(v.text), name), t[1] if name == 'first' else t[2], p)
        if t[0] == 'struct':
            fs = dict(self.fields(t[1])); f = san(name)
            if f in fs:
                p = v.path.add('f', f, self.ctor_name(t)) if v.path is not None else None
                return V('%s.%s' % (self.dot(v.text), f), fs[f], p)
            if 'base' in fs and fs['base'][0] == 'struct':
                p = v.path.add('f', 'base', self.ctor_name(t)) if v.path is not None else None
                return self.field(V('%s.base' % self.dot(v.text), fs['base'], p), name, n)
        raise Unsupported('member %s of %s (line %s)' % (name, t, line_of(n)))

    def dot(self, s):
        if re.match(r'^[\w.\[\]()]+$', s) and s.count('(') == 0: return s
        if s.startswith('(') and s.endswith(')'):
            return s
        if re.match(r'^[\w:]+\(.*\)$', s) : return '(%s)' % s
        return '(%s)' % s if not re.match(r'^[\w.]+(\[[^\[\]]*\]|\.[\w]+|\.at\([^()]*\))*$', s) else s

    def deref(self, v, n):
        t = v.type
        if t[0] == 'opt':
            self.oblig('%s is Some' % self.par(v.text), 'the optional has a value', n)
            return V('%s->Some_0' % self.dot(v.text), t[1], None)
        if t[0] == 'iter':
            c = v.x
            if c is None: raise Unsupported('iterator of unknown container')
            return self.iter_deref(v, n)
        if t[0] == 'addr': return v.x
        if t[0] == 'own': return V(v.text, self.owned(t), v.path)
        if t[0] == 'ptr' and t[1][0] == 'struct':
            h = self.heapvars.get(t[1][1])
            if h is None: raise Unsupported('no heap of %s here' % t[1][1])
            k = self.bindtmp(V(v.text, v.type), 'ptr')
            self.oblig('%s.dom().contains(%s)' % (h, k.text), 'the pointer is valid', n)
            p = Path(h).add('k', k.text)
            return V(p.text(), t[1], p)
        raise Unsupported('dereference of %s (line %s)' % (t, line_of(n)))

    def iter_deref(self, v, n):
        c = self.reload(v.x)
        if c.type[0] == 'mat':
            self.oblig('0 <= %s < %s.rows * %s.cols' % (v.text, c.text, c.text), 'pointer in range', n)
            p = c.path.add('m', 'itmod(%s, %s.rows)' % (v.text, c.text), 'itdiv(%s, %s.rows)' % (v.text, c.text)) if c.path is not None else None
            return V(p.text(), BOUNDS, p)
        if t_assoc(v) and c.type[0] in ('map', 'set'):
            key = '%s[%s]' % (v.type[2], v.text)
            self.oblig('0 <= %s < %s.len() && %s%s.contains(%s)' % (v.text, v.type[2], c.text, '.dom()' if c.type[0] == 'map' else '', key), 'the iterator is dereferenceable', n)
            if c.type[0] == 'set': return V(key, c.type[1])
            return V('Pair { first: %s, second: %s[%s] }' % (key, c.text, key), ('pair', c.type[1], c.type[2]), None, ('mapentry', key, c))
        if c.type[0] in ('map',):
            # the iterator is represented by its key and a validity flag
            key = v.text
            self.oblig('%s.dom().contains(%s->Some_0)' % (c.text, self.dot(v.text)), 'the iterator is dereferenceable', n)
            key = '%s->Some_0' % self.dot(v.text)
            return V('Pair { first: %s, second: %s[%s] }' % (key, c.text, key), ('pair', c.type[1], c.type[2]), None, ('mapentry', key, c))
        if c.type[0] == 'set':
            return V('%s->Some_0' % self.dot(v.text), c.type[1])
        self.oblig('0 <= %s < %s.len()' % (v.text, c.text), 'the iterator is dereferenceable', n)
        p = c.path.add('i', v.text) if c.path is not None else None
        return V('%s[%s]' % (c.text, v.text), c.type[1], p)

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, n):
        t = ntype(n, self.idx)
        args = [c for c in self.ins(n) if c.get('kind') != 'CXXDefaultArgExpr']
        q = n['type']['qualType']
        if len(args) == 1:
            a = args[0]
            if self.same_type(n, a) or (t[0] not in ('other',) and ntype(a, self.idx) == t and t[0] in ('struct', 'pair', 'seq', 'mat', 'opt', 'map', 'set', 'tuple', 'var')):
                if t[0] != 'seq' or ntype(a, self.idx) == t:
                    v = self.expr(a)
                    if v.type[0] == 'iter': return V(v.text, v.type, None, v.x)
                    return V(v.text, v.type if has_other(t) else v.type, None, v.x if v.type[0] in ('mexpr', 'lambda', 'initlist') else None) if v.type[0] != 'initlist' else self.coerce_init(t, v, n)
        return self.construct(t, args, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def coerce_init(self, t, v, n):
        if t[0] == 'seq':
            if len(v.x) == 1 and v.x[0].type == t: return v.x[0]
            return self.seq_of(t, v.x)
        if t[0] == 'opt' and v.x: return V('Some(%s)' % self.coerce(v, t[1]).text, t)
        if t[0] == 'pair' and len(v.x) == 2:
            return V('Pair { first: %s, second: %s }' % (self.coerce(v.x[0], t[1]).text, self.coerce(v.x[1], t[2]).text), t)
        if t[0] in ('map', 'set', 'opt', 'pair', 'struct', 'tuple', 'mat'): return self.construct(t, [v] if t[0] in ('map', 'set') else v.x, n)
        if len(v.x) == 1: return self.coerce(v.x[0], t)
        if t[0] == 'ptr' and not v.x: return V('0int', t)
        raise Unsupported('initializer list for %s' % (t,))

    def construct(self, t, args, n):
        k = t[0]
        if k == 'rng':
            if self.fx.loops: raise Unsupported('random generator made in a loop')
            return V('rng_new(%dint)' % (self.fx.fresh + 1), t)
        if k == 'dist':
            a, b = [self.coerce(self.expr(x), t[1]) for x in args]
            self.oblig(self.le_text(t[1], a.text, b.text), 'a non-empty range of the distribution', n)
            return V('Pair { first: %s, second: %s }' % (a.text, b.text), t)
        if k == 'pair':
            if not args: return V(self.default_of(t), t)
            if len(args) == 2:
                a = self.bindv(self.coerce(self.expr(args[0]), t[1])); b = self.coerce(self.expr(args[1]), t[2])
                return V('Pair { first: %s, second: %s }' % (a.text, b.text), t)
            v = self.expr(args[0])
            return self.coerce(V(v.text, v.type), t)
        if k == 'seq':
            if not args: return V(self.default(t), t)
            vs = [self.expr(a) for a in args]
            if len(vs) == 1:
                if vs[0].type[0] == 'initlist': return self.seq_of(t, vs[0].x)
                if vs[0].type[0] == 'int':
                    self.oblig('%s >= 0' % vs[0].text, 'a non-negative size', n)
                    return V('seq_n(%s, %s)' % (vs[0].text, self.default_of(t[1])), t)
                if vs[0].type[0] == 'struct' and t[1] == ('int', 8, True): raise Unsupported('string from struct')
                return self.coerce(V(vs[0].text, vs[0].type, None, vs[0].x), t)
            if len(vs) == 2 and vs[0].type[0] == 'int':
                self.oblig('%s >= 0' % vs[0].text, 'a non-negative size', n)
                return V('seq_n(%s, %s)' % (vs[0].text, self.coerce(vs[1], t[1]).text), t)
            if len(vs) == 2 and vs[0].type[0] == 'iter':
                return V(self.range_text(vs[0], vs[1], n), t)
            raise Unsupported('vector constructor')
        if k == 'mat':
            if not args: return V('mat_empty()', t)
            vs = [self.expr(a) for a in args]
            if len(vs) == 1: return self.coerce(V(vs[0].text, vs[0].type, None, vs[0].x), t)
            raise Unsupported('matrix constructor')
        if k == 'opt':
            if not args: return V('None::<%s>' % self.vt(t[1]), t)
            return self.coerce(self.expr(args[0]), t)
        if k in ('map', 'set'):
            if not args: return V(self.default(t), t)
            if len(args) == 1:
                v = self.expr(args[0])
                if v.type[0] in ('map', 'set'): return V(v.text, t)
                if v.type[0] == 'initlist' and not v.x: return V(self.default(t), t)
                if v.type[0] == 'initlist' and k == 'set':
                    s = self.default(t)
                    for x in v.x: s += '.insert(%s)' % self.coerce(x, t[1]).text
                    return V(s, t)
                if v.type[0] == 'initlist':
                    return V('map_first(%s)' % self.seq_of(('seq', ('pair', t[1], t[2])), v.x).text, t)
            if len(args) == 2:
                a, b = self.expr(args[0]), self.expr(args[1])
                if k == 'map' and a.type[0] == 'iter' and a.x.type[0] == 'seq' and not self.fuzzy_key(t[1]):
                    # insertion from a range keeps the first of two entries with the same key
                    return V('map_first(%s)' % self.range_text(a, b, n), t)
                if k == 'set' and a.type[0] == 'iter' and a.x.type[0] == 'seq':
                    return V('%s.to_set()' % self.dot(self.range_text(a, b, n)), t)
            raise Unsupported('map constructor')
        if k == 'tuple':
            vs = [self.coerce(self.expr(a), tt) for a, tt in zip(args, t[1:])]
            return V('(%s)' % ', '.join(v.text for v in vs), t)
        if k == 'var':
            v = self.expr(args[0]); return self.coerce(v, t)
        if k == 'struct':
            return self.construct_struct(t, args, n)
        if k == 'int' or k == 'D' or k == 'bool':
            if not args: return V(self.default(t), t)
            return self.coerce(self.expr(args[0]), t)
        if k == 'lambda': return self.expr(args[0])
        if k in ('iter', 'other') and len(args) == 1:
            v = self.expr(args[0])
            if v.type[0] == 'iter': return V(v.text, v.type, None, v.x)
            if v.type[0] == 'lambda': return v
        if k == 'mexpr' and len(args) == 1: return self.expr(args[0])
        raise Unsupported('construction of %s (line %s)' % (t, line_of(n) if n else None))

    def bindv(self, v):
        """evaluates now: later side effects do not change the value"""
        return v

    def ctor_nodes(self, t):
        q = t[1]
        return [x for x in self.idx.funcs.get(q + '::' + q.split('::')[-1], []) if x['kind'] == 'CXXConstructorDecl']

    def construct_struct(self, t, args, n):
        ct = (n or {}).get('ctorType', {}).get('qualType')
        cands = self.ctor_nodes(t)
        sel = [c for c in cands if ct and self.normq(c['type']['qualType']) == self.normq(ct)]
        if not sel: sel = [c for c in cands if len(params_of(c)) == len(args)]
        if len(sel) >= 1 and (len(sel) == 1 or len(set(self.normq(c['type']['qualType']) for c in sel)) == 1):
            return self.call_fn(sel[0], args, None, n)
        if not cands or not args:
            # implicit constructors / aggregates
            if not args: return V(self.default_ctor(t), t)
        if len(args) == 1:
            v = self.expr(args[0])
            if v.type == t: return V(v.text, t)
            fs = self.fields(t[1])
            if fs and fs[0][0] == 'base':
                # inherited constructors
                b = self.construct(fs[0][1], args, None)
                vals = ['base: %s' % b.text] + ['%s: %s' % (f, self.default_of(ft, False)) for f, ft in fs[1:]]
                self.vt(t)
                return V('(%s { %s })' % (self.rname(t[1]), ', '.join(vals)), t)
        raise Unsupported('constructor %s of %s (line %s)' % (ct, t[1], line_of(n) if n else None))

    def normq(self, q): return re.sub(r'\s|learnta::|std::|noexcept', '', q)

    def e_InitListExpr(self, n):
        t = ntype(n, self.idx)
        args = self.ins(n)
        if t[0] == 'struct':
            fs = self.fields(t[1]); self.vt(t)
            vals = []
            for (f, ft), a in zip(fs, args):
                vals.append('%s: %s' % (f, self.coerce(self.expr(a), ft).text))
            if len(args) < len(fs): raise Unsupported('partial aggregate initialisation')
            return V('(%s { %s })' % (self.rname(t[1]), ', '.join(vals)), t)
        if t[0] in ('pair', 'int', 'D', 'bool'): return self.construct(t, args, n)
        vs = [self.expr(a) for a in args]
        return V('', ('initlist',), None, vs)

    def seq_of(self, t, vs):
        if not vs: return V('Seq::<%s>::empty()' % self.vt(t[1]), t)
        return V('seq![%s]' % ', '.join(self.coerce(v, t[1]).text for v in vs), t)

    def e_CXXStdInitializerListExpr(self, n):
        v = self.expr(self.ins(n)[0])
        return v

    def e_LambdaExpr(self, n): return V('<lambda>', ('lambda', ''), None, n)

    def e_CXXDefaultArgExpr(self, n): raise Unsupported('default argument (line %s)' % line_of(n))

    def e_CXXDefaultInitExpr(self, n): raise Unsupported('default initialiser')

    # ------------------------------------------------------------ calls
    def callee(self, n):
        c = self.strip_node(self.ins(n)[0])
        return c

    def e_CallExpr(self, n, discard=False):
        ins = self.ins(n)
        c = self.callee(n)
        args = ins[1:]
        if c.get('kind') == 'DeclRefExpr':
            r = c['referencedDecl']; nm = r.get('name')
            v = self.fx.env.get(r['id'])
            if v is not None and v.type[0] == 'lambda': return self.call_lambda(v, args, n, discard)
            d = self.idx.resolve_body(r['id'])
            if r['id'] in self.idx.decl:
                d2 = d or self.by_qual(r['id'])
                if d2 is None: raise Unsupported('call of %s without body' % nm)
                return self.call_fn(d2, args, None, n, discard)
            g = self.global_op(nm, r)
            if g is not None: return self.call_fn(g, args, None, n, discard)
            return self.std_call(nm, args, n, discard)
        if c.get('kind') == 'MemberExpr': return self.e_CXXMemberCallExpr(n, discard)
        raise Unsupported('call through %s (line %s)' % (c.get('kind'), line_of(n)))

    def by_qual(self, i):
        q = self.idx.qual.get(i); n = self.idx.decl[i]
        c = [x for x in self.idx.funcs.get(q, []) if self.normq(x['type']['qualType']) == self.normq(n['type']['qualType'])]
        return c[0] if c else None

    def global_op(self, nm, r):
        """user-defined operators on Bounds, outside the namespace"""
        for d in self.idx.funcs.get(nm, []):
            if d['kind'] == 'FunctionDecl' and self.normq(d['type']['qualType']) == self.normq(r['type']['qualType']): return d
        return None

    def e_CXXOperatorCallExpr(self, n, discard=False):
        ins = self.ins(n)
        c = self.callee(n)
        args = ins[1:]
        r = c.get('referencedDecl', {})
        nm = r.get('name'); i = r.get('id')
        # lambdas
        if nm == 'operator()':
            a0 = self.strip_node(args[0])
            if a0.get('kind') == 'DeclRefExpr':
                v = self.fx.env.get(a0['referencedDecl']['id'])
                if v is not None and v.type[0] == 'lambda': return self.call_lambda(v, args[1:], n, discard)
            if a0.get('kind') == 'LambdaExpr': return self.call_lambda(self.expr(a0), args[1:], n, discard)
        if i in self.idx.decl:
            d = self.idx.resolve_body(i) or self.by_qual(i)
            if nm == 'operator=' and (d is None or d.get('explicitlyDefaulted') or d.get('isImplicit')):
                b = self.expr(args[1]); a = self.expr(args[0]); self.assign(a, b, n); return self.reload(a)
            if d is not None:
                if r.get('kind') == 'CXXMethodDecl': return self.call_fn(d, args[1:], args[0], n, discard)
                return self.call_fn(d, args, None, n, discard)
            raise Unsupported('call of %s without body (line %s)' % (nm, line_of(n)))
        g = self.global_op(nm, r)
        if g is not None: return self.call_fn(g, args, None, n, discard)
        op = nm[8:] if nm.startswith('operator') else None
        if op == '=':
            b = self.expr(args[1]); a = self.expr(args[0])
            if a.type[0] == 'struct' and b.type[0] == 'struct' and a.type != b.type: raise Unsupported('assignment between structs')
            self.assign(a, b, n); return self.reload(a)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            a = self.expr(args[0]); b = self.expr(args[1])
            return self.opcmp(op, a, b, n)
        if op == '()':
            a = self.expr(args[0])
            if a.type[0] == 'mat':
                i_, j_ = self.expr(args[1]), self.expr(args[2])
                return self.coeff(a, i_, j_, n)
            if a.type[0] == 'dist':
                e = self.expr(args[1]); fn = 'rng_real' if a.type[1][0] == 'D' else 'rng_int'
                nm = self.tmp('rnd'); self.let(nm, '%s(%s, %s.first, %s.second)' % (fn, e.text, a.text, a.text), a.type[1])
                if self.pathcond: raise Unsupported('random number in a condition')
                self.push(('set', e.path.root, e.path.update('rng_next(%s)' % e.text)))
                return V(nm, a.type[1])
            raise Unsupported('operator() on %s' % (a.type,))
        if op == '[]':
            return self.subscript(self.expr(args[0]), self.expr(args[1]), n)
        if op in ('*', '->') and len(args) == 1: return self.deref(self.expr(args[0]), n)
        if op in ('++', '--'):
            return self.incdec(self.expr(args[0]), op, len(args) == 2, discard, n)
        if op in ('+', '-', '*', '/') and len(args) == 2:
            a = self.expr(args[0]); b = self.expr(args[1])
            if a.type[0] in ('mexpr', 'mat') or b.type[0] in ('mexpr', 'mat'): return self.eigen_op(op, a, b, n)
            if op == '+' and a.type[0] == 'int' and b.type[0] == 'seq':
                return V('(Seq::<int>::empty().push(%s) + %s)' % (a.text, b.text), b.type)
            if a.type[0] in ('seq', 'strlit') and op == '+':
                if a.type[0] == 'strlit': a = self.coerce(a, b.type)
                if b.type[0] == 'strlit': b = self.coerce(b, a.type)
                if b.type[0] == 'int': return V('%s.push(%s)' % (self.dot(a.text), b.text), a.type)
                return V('(%s + %s)' % (a.text, b.text), a.type)
            return self.arith(op, a, b, None)
        if op == '-' and len(args) == 1:
            a = self.expr(args[0])
            if a.type[0] == 'mexpr': raise Unsupported('eigen negation')
        if op == '+=':
            b = self.expr(args[1]); a = self.expr(args[0])
            if a.type[0] == 'mexpr':
                s = self.eigen_op('+', V('', ('mexpr',), None, self.mx(a)), b, n)
                self.eigen_assign(a, s, n); return a
            if a.type[0] == 'iter': self.store(a, V('%s + %s' % (a.text, b.text), a.type)); return self.reload(a)
            if a.type[0] == 'seq':
                if b.type[0] == 'strlit': b = self.coerce(b, a.type)
                self.store(a, V('(%s + %s)' % (a.text, b.text) if b.type[0] == 'seq' else '%s.push(%s)' % (self.dot(a.text), b.text), a.type)); return self.reload(a)
        if op == '-=':
            b = self.expr(args[1]); a = self.expr(args[0])
            if a.type[0] == 'iter': self.store(a, V('%s - %s' % (a.text, b.text), a.type)); return self.reload(a)
        raise Unsupported('operator %s (line %s)' % (nm, line_of(n)))

    def opcmp(self, op, a, b, n):
        t = a.type
        if t[0] == 'iter' and b.type[0] == 'iter':
            if a.type[1:2] == ('assoc',) or b.type[1:2] == ('assoc',):
                if b.type[1:2] == ('assoc',) and a.type[1:2] != ('assoc',): a, b = b, a
                if b.type[1:2] == ('assoc',):
                    if a.type != b.type: raise Unsupported('comparison of iterators of different enumerations')
                    e = '(%s == %s)' % (a.text, b.text)
                elif b.text.startswith('None'): e = '(%s == %s.len())' % (a.text, a.type[2])
                else: raise Unsupported('comparison of map iterators')
                return V(e if op == '==' else '(!%s)' % e, BOOL)
            if a.x is not None and a.x.type[0] in ('map', 'set'):
                if b.text.startswith('None'): e = '(%s is None)' % a.text
                elif a.text.startswith('None'): e = '(%s is None)' % b.text
                else: e = '(%s == %s)' % (a.text, b.text)
                return V(e if op == '==' else '(!%s)' % e, BOOL)
            return V('(%s %s %s)' % (a.text, op, b.text), BOOL)
        if t[0] == 'struct' and op in ('==', '!='):
            return self.struct_eq(op, a, b, n)
        if t[0] == 'pair' and b.type[0] == 'pair' and t != b.type: b = self.coerce(b, t)
        if t[0] == 'seq' and b.type[0] == 'seq' and op in ('==', '!='):
            # element comparison by user-defined equality
            e = self.user_eq(t, a.text, b.text)
            return V(e if op == '==' else '(!%s)' % e, BOOL)
        return self.compare(op, a, b, n)

    def user_eq(self, t, a, b):
        """C++ == at type t as a formula; structs are compared with their own operator=="""
        if t[0] == 'seq':
            if self.has_struct(t[1]):
                return '(%s.len() == %s.len() && forall|e_: int| 0 <= e_ < %s.len() ==> %s)' % (a, b, a, self.user_eq(t[1], '#[trigger] %s[e_]' % a, '%s[e_]' % b))
            return '(%s =~= %s)' % (a, b)
        if self.has_struct(t): raise Unsupported('equality of %s' % (t,))
        return self.eq(t, a, b)

    def has_struct(self, t):
        return t[0] in ('struct', 'mat') or any(isinstance(x, tuple) and self.has_struct(x) for x in t[1:])

    def struct_eq(self, op, a, b, n):
        q = a.type[1] + '::operator=='
        c = [x for x in self.idx.funcs.get(q, [])]
        if c:
            v = self.call_fn(c[0], [b], a, n)
            return v if op == '==' else V('(!%s)' % v.text, BOOL)
        raise Unsupported('equality of ' + a.type[1])

    def member_of_struct(self, obj, md, name):
        """resolves a method of learnta"""
        if md in self.idx.decl:
            d = self.idx.resolve_body(md) or self.by_qual(md)
            return d
        return None

    def e_CXXMemberCallExpr(self, n, discard=False):
        ins = self.ins(n)
        m = self.strip_node(ins[0])
        args = [a for a in ins[1:] if a.get('kind') != 'CXXDefaultArgExpr']
        if m.get('kind') != 'MemberExpr': raise Unsupported('member call through ' + m.get('kind'))
        md = m.get('referencedMemberDecl'); name = m.get('name')
        objn = self.ins(m)[0]
        if md in self.absfn: return self.call_abstract(self.absfn[md], args, objn, n)
        if md in self.idx.decl:
            d = self.member_of_struct(None, md, name)
            if d is None:
                raise Unsupported('method %s without body (line %s)' % (name, line_of(n)))
            return self.call_fn(d, ins[1:], objn, n, discard, arrow=m.get('isArrow'))
        obj = self.expr(objn)
        if obj.type[0] == 'thisptr': obj = self.this_v()
        if m.get('isArrow') and obj.type[0] in ('opt', 'iter', 'ptr', 'addr') and not (obj.type[0] == 'ptr' and name == 'get'): obj = self.deref(obj, n)
        if obj.type[0] == 'struct' and self.fields(obj.type[1])[:1] and self.fields(obj.type[1])[0][0] == 'base':
            f = self.fields(obj.type[1])[0]
            p = obj.path.add('f', 'base', self.ctor_name(obj.type)) if obj.path else None
            obj = V(self.dot(obj.text) + '.base', f[1], p)
        return self.std_method(obj, name, args, n, discard)

    def le_text(self, t, a, b): return '!dlt(%s, %s)' % (b, a) if t[0] == 'D' else '%s <= %s' % (a, b)

    def call_abstract(self, c, args, objn, n):
        """a call through an interface: described by uninterpreted functions of the object's state"""
        ov = self.expr(objn)
        if ov.type[0] == 'thisptr':
            if c.abs['obj'] != 'self': raise Unsupported('abstract call on this')
            ov = self.this_v()
        st = ov.type[0] == 'struct' and (self.opaque.get(ov.type[1]) == c.abs['obj'] or c.abs['obj'] == 'self')
        if ov.type[0] != 'abs' and not st: ov = self.deref(ov, n)
        if ov.type != ('abs', c.abs['obj']) and not st: raise Unsupported('abstract call on %s' % (ov.type,))
        if self.pathcond: raise Unsupported('call in a condition')
        ts = [self.arg_value(a).text for a in args]
        hq = None
        if 'heap' in c.abs:
            hq = 'learnta::' + c.abs['heap'].split(':')[0]
            if hq not in self.heapvars: raise Unsupported('no heap of %s here' % hq)
        ob = self.bindtmp(V(ov.text, ov.type), 'ob').text if not isname(ov.text) or ov.path is not None else ov.text
        targs = ', '.join([ob] + ts + ([self.heapvars[hq]] if hq else []))
        rt = parse_type_of_abs(self, c, n)
        if 'pre' in c.abs: self.oblig('%s(%s)' % (c.abs['pre'], targs), 'the requirements of %s' % c.qual, n)
        r = V('()', ('void',))
        if 'result' in c.abs:
            nm = self.tmp('ret'); self.let(nm, '%s(%s)' % (c.abs['result'], targs), rt); r = V(nm, rt)
        sets = []
        if 'post' in c.abs: sets.append((ov.path, '%s(%s)' % (c.abs['post'], targs)))
        if hq and ':' in c.abs['heap']: sets.append((Path(self.heapvars[hq]), '%s(%s)' % (c.abs['heap'].split(':')[1], targs)))
        new = []
        for p, t in sets:
            nm = self.tmp('nw')
            if p is None: continue
            new.append((p, nm)); self.push(('let', nm, t, ov.type if p is ov.path else ('map', ('int', 64, True), ('struct', hq)), False))
        for p, nm in new: self.push(('set', p.root, p.update(nm)))
        return r

    # -------------------------------------------------- user functions
    def arg_value(self, a):
        return a if isinstance(a, V) else self.expr(a)

    def call_fn(self, d, args, obj, n, discard=False, arrow=False):
        """d: function node with a body; args: AST nodes or V; obj: AST node, V or None"""
        c = self.bynode.get(d['id'])
        meth = self.is_method(d); ctor = d['kind'] == 'CXXConstructorDecl'
        ov = None
        if meth and not ctor:
            if obj is None: raise Unsupported('method call without object')
            ov = self.arg_value(obj)
            if ov.type[0] == 'thisptr': ov = self.this_v()
            if arrow and ov.type[0] in ('opt', 'iter', 'addr', 'ptr'): ov = self.deref(ov, n)
            tt = self.this_type(d)
            if ov.type[0] == 'struct' and ov.type != tt:
                p = ov.path
                while ov.type[0] == 'struct' and ov.type != tt:
                    f = self.fields(ov.type[1])
                    if not f or f[0][0] != 'base': break
                    p = ov.path.add('f', 'base', self.ctor_name(ov.type)) if ov.path else None
                    ov = V(self.dot(ov.text) + '.base', f[0][1], p)
            if ov.type != tt: raise Unsupported('method of %s called on %s' % (tt, ov.type))
        ps = self.param_info(d)
        avs = []
        args = [a for a in args]
        if ov is not None and not isname(ov.text) and ov.path is None:
            ov = self.bindtmp(ov, 'o')
        for k, (pid, pn, pt, ref, pnode) in enumerate(ps):
            if k < len(args) and not (not isinstance(args[k], V) and args[k].get('kind') == 'CXXDefaultArgExpr'):
                v = self.arg_value(args[k])
            else:
                ini = self.init_of(pnode)
                if ini is None: raise Unsupported('default argument of ' + d.get('name', ''))
                v = self.expr(ini)
            if v.type[0] == 'lambda': avs.append(v); continue
            if v.type[0] == 'mexpr' and has_other(pt): raise Unsupported('Eigen expression argument')
            if v.type[0] == 'iter': avs.append(v); continue
            if v.type[0] == 'initlist':
                v = self.seq_of(pt, v.x) if pt[0] == 'seq' else self.construct(pt, v.x, None)
            w = self.coerce(v, pt)
            if ref:
                if v.path is None: raise Unsupported('reference argument is not a variable')
                w = V(v.path.text(), pt, v.path)
            avs.append(w)
        mode = 'inline'
        info = None
        if any(a.type[0] in ('lambda', 'iter') for a in avs) or self.ret_type(d)[0] == 'lambda':
            if c: c = None
        else:
            if c:
                info = self.translate_fn(d); mode = 'pure' if (c.mode == 'pure') else 'proof'
            else:
                try:
                    info = self.translate_fn(d)
                    if info['pure']: mode = 'pure'
                except Unsupported as e:
                    self.tried = str(e)
                    mode = 'inline'
        if mode == 'inline':
            return self.inline(d, avs, ov, n)
        self.used.add(d['id'])
        targs = []
        if meth and not ctor: targs.append(ov.text)
        targs += [a.text for a in avs]
        for q, hn, ro in info['heaps']:
            if q not in self.heapvars: raise Unsupported('no heap of %s here' % q)
            targs.append(self.heapvars[q])
        args_t = ', '.join(targs)
        comps = info['comps']
        if mode == 'pure':
            call = '%s(%s)' % (info['name'], args_t)
            if self.has_wd(info): self.oblig('%s_wd(%s)' % (info['name'], args_t), 'the requirements of %s' % d.get('name'), n)
            if c: self.push(('gcall', '%s_contract(%s)' % (info['name'], args_t), list(self.pathcond)))
            if len(comps) == 1:
                k, nm, t = comps[0]
                if k == 'ret': return V(call, t)
                if ctor: return V(call, t)
                self.store_comp(k, nm, t, call, ov, avs, ps, d)
                return V('()', ('void',))
            tn = self.tmp('res'); self.push(('let', tn, call, ('tuple',) + tuple(x[2] for x in comps), False))
            rv = V('()', ('void',))
            for i, (k, nm, t) in enumerate(comps):
                if k == 'ret':
                    r = self.tmp('ret'); self.let(r, '%s.%d' % (tn, i), t); rv = V(r, t)
                else: self.store_comp(k, nm, t, '%s.%d' % (tn, i), ov, avs, ps, d)
            return rv
        # modular call
        if self.pathcond: raise Unsupported('call in a condition')
        names = []
        for k, nm, t in comps:
            names.append(self.tmp({'ret': 'ret', 'this': 'obj', 'ref': 'out', 'heap': 'hp'}[k]))
        self.push(('call', list(zip(names, [x[2] for x in comps])), '%s(%s)' % (info['name'], args_t), d.get('name'), line_of(n) if n else None))
        rv = V('()', ('void',))
        for nmv, (k, nm, t) in zip(names, comps):
            if k == 'ret': rv = V(nmv, t)
            elif ctor and k == 'this': rv = V(nmv, t)
            else: self.store_comp(k, nm, t, nmv, ov, avs, ps, d)
        # returns *this
        return rv

    def has_wd(self, info): return True

    def store_comp(self, k, nm, t, text, ov, avs, ps, d):
        if k == 'this':
            if ov.path is None: return     # a temporary
            self.push(('set', ov.path.root, ov.path.update(text)))
        elif k == 'heap':
            q = [q for q, hn, ro in self.emitted[d['id']]['heaps'] if hn == nm][0]
            self.push(('set', self.heapvars[q], text))
        else:
            cn = self.bynode.get(d['id'])
            for i, (pid, pn, pt, ref, _) in enumerate(ps):
                if (cn.params[i] if cn else san(pn)) == nm:
                    p = avs[i].path
                    self.push(('set', p.root, p.update(text)))

    def inline(self, d, avs, ov, n):
        if d['id'] in self.inprogress or d['id'] in self.inl_stack: raise Unsupported('recursion through ' + d.get('name', ''))
        if len(self.inl_stack) > 12: raise Unsupported('inlining too deep')
        self.inl_stack.append(d['id'])
        saved = self.this, self.is_inline, self.partial
        self.partial = None
        try:
            ctor = d['kind'] == 'CXXConstructorDecl'
            for (pid, pn, pt, ref, pnode), a in zip(self.param_info(d), avs):
                q = pnode['type']['qualType'].rstrip()
                if a.type[0] in ('lambda',): self.fx.env[pid] = a; continue
                if a.type[0] == 'iter':
                    nm = self.declare(pnode, pn, a.type, a.text); self.fx.env[pid] = V(nm, a.type, Path(nm), a.x); continue
                if ref:
                    p = self.freeze(a.path); self.fx.env[pid] = V(p.text(), pt, p); continue
                self.declare(pnode, pn, pt if not has_other(pt) else a.type, a.text)
            if ctor:
                tt = self.this_type(d)
                nm = self.tmp('obj')
                self.this = V(nm, tt, Path(nm)); self.thisname = nm
                self.ctor_init(d, tt, nm)
                self.mutable.add(nm); self.fx.scope.append((nm, tt))
                self.inline_body(body_of(d), ('void',), d)
                return V(nm, tt, None)
            if self.is_method(d):
                if ov.path is not None: p = self.freeze(ov.path); self.this = V(p.text(), ov.type, p)
                else:
                    nm = self.tmp('obj'); self.let(nm, ov.text, ov.type, True); self.mutable.add(nm); self.fx.scope.append((nm, ov.type))
                    self.this = V(nm, ov.type, Path(nm))
            r = self.inline_body(body_of(d), self.ret_type(d), d)
            if r.type[0] == 'lambda' and isinstance(r.x, dict) and r.x.get('kind') == 'LambdaExpr':
                # a closure: remember what its variables are bound to
                r = V(r.text, r.type, None, {**r.x, '__env': {pid: self.fx.env[pid] for pid, *_ in self.param_info(d)}})
            return r
        finally:
            self.inl_stack.pop()
            self.this, self.is_inline, self.partial = saved

    def inline_body(self, body, rt, d):
        saved = self.cur
        self.cur = []
        si = self.is_inline; self.is_inline = si + 1
        sst = self.fx.__dict__.get('statics', []); self.fx.__dict__['statics'] = []
        self.inl_ret.append([])
        try:
            self.stmt(body)
            blk = self.cur
        finally:
            self.cur = saved; self.is_inline = si
            rts = self.inl_ret.pop()
            self.fx.__dict__['statics'] = sst
        if rt[0] == 'void' or not rts:
            blk2 = self.unret(blk, None)
            self.cur.extend(blk2)
            return V('()', ('void',))
        t = rts[0].type
        if not has_other(rt) and rt[0] != 'lambda': t = rt
        # a single return at the end: the value itself
        if len(rts) == 1 and blk and blk[-1][0] == 'ret':
            self.cur.extend(blk[:-1])
            v = rts[0]
            return self.coerce(v, t) if v.type != t and t[0] not in ('other',) else v
        if t[0] in ('mexpr', 'lambda', 'iter'): raise Unsupported('inlined function returning %s from several places' % (t,))
        r = self.tmp('inl')
        self.let(r, 'arbitrary::<%s>()' % self.vt(t), t, True); self.mutable.add(r); self.fx.scope.append((r, t))
        self.cur.extend(self.unret(blk, r))
        return V(r, t, None)

    def has_ret(self, ir):
        for s in ir:
            if s[0] == 'ret': return True
            if s[0] == 'if' and (self.has_ret(s[2]) or self.has_ret(s[3])): return True
            if s[0] == 'loop' and (self.has_ret(s[1]['body']) or self.has_ret(s[1]['pre'])): return True
        return False

    def unret(self, ir, var):
        out = []
        for k, s in enumerate(ir):
            if s[0] == 'ret':
                if var: out.append(('set', var, s[1][0]))
                return out
            if s[0] == 'loop' and (self.has_ret(s[1]['body']) or self.has_ret(s[1]['pre'])):
                raise Unsupported('return inside a loop of an inlined function')
            if s[0] == 'if' and (self.has_ret(s[2]) or self.has_ret(s[3])):
                rest = ir[k + 1:]
                a = self.unret(s[2] + ([] if self.ends(s[2]) else rest), var)
                b = self.unret(s[3] + ([] if self.ends(s[3]) else rest), var)
                out.append(('if', s[1], a, b))
                return out
            out.append(s)
        return out

    def lambda_op(self, lam):
        """the (instantiated) call operator(s) of a lambda"""
        rec = [c for c in self.ins(lam) if c.get('kind') == 'CXXRecordDecl'][0]
        ops = []
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': ops.append(c)
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                ms = [x for x in c.get('inner', ()) if x.get('kind') == 'CXXMethodDecl']
                ops += ms[1:] if len(ms) > 1 else ms
        if not ops: raise Unsupported('lambda without call operator')
        op = ops[-1]
        return op

    def call_lambda(self, v, args, n, discard=False):
        lam = v.x
        if lam.get('kind') in ('FunctionDecl',): return self.call_fn(lam, args, None, n, discard)
        if lam.get('kind') != 'LambdaExpr': raise Unsupported('call of a function object')
        self.fx.env.update(lam.get('__env', {}))
        op = self.lambda_op(lam)
        ps = params_of(op)
        body = body_of(op)
        if body is None: raise Unsupported('lambda without body')
        for p, a in zip(ps, args):
            av = self.arg_value(a)
            q = p['type']['qualType'].rstrip()
            pt = ntype(p, self.idx)
            if av.type[0] == 'lambda': self.fx.env[p['id']] = av; continue
            if av.path is not None and q.endswith('&'):
                fp = self.freeze(av.path); self.fx.env[p['id']] = V(fp.text(), av.type, fp, av.x); continue
            if isname(av.text) and av.text not in self.mutable or lit(av.text) is not None or self.quant:
                self.fx.env[p['id']] = V(av.text, av.type, None, av.x); continue
            if has_other(pt): pt = av.type
            self.declare(p, p.get('name', 'arg'), pt, self.coerce(av, pt).text)
        q = op['type']['qualType']
        rt = parse_type(q[:self.find_params(q)].strip(), self.idx)
        return self.inline_body(body, rt, op)
