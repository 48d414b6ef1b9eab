"""Frontend: obtains clang's AST of /repo's real sources (JSON) and indexes it."""
import json, os, re, subprocess, hashlib, sys

REPO = os.environ.get('LEARNTA_REPO', '/repo')
CLANG = ['clang++', '-std=c++17', '-fsyntax-only', '-w', '-I' + REPO + '/include', '-I/usr/include/eigen3',
         '-DNODEBUG_AST']

class FrontendError(Exception):
    pass

def _load_docs(s):
    d = json.JSONDecoder(); i = 0; n = len(s); out = []
    while i < n:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i); out.append(o)
    return out

def dump(src_text, flt, workdir, extra=()):
    os.makedirs(workdir, exist_ok=True)
    h = hashlib.sha1((src_text + flt).encode()).hexdigest()[:10]
    f = os.path.join(workdir, 'tu_%s.cc' % h)
    with open(f, 'w') as fh: fh.write(src_text)
    cmd = CLANG + list(extra) + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, f]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise FrontendError('clang failed: ' + r.stderr[-2000:])
    return _load_docs(r.stdout)

FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class Index:
    def __init__(self):
        self.decl = {}        # id -> decl node
        self.qual = {}        # id -> qualified name
        self.parent = {}      # id -> enclosing record id
        self.funcs = {}       # qualified name -> [node with body]
        self.records = {}     # qualified name -> node (complete)
        self.enums = {}
        self.byprev = {}      # id -> id of previous decl
        self.aliases = {}     # qualified name -> type string

    def add_docs(self, docs, prefix=''):
        for d in docs:
            self._lines(d, {'file': None, 'line': None})
            self._walk(d, [prefix] if prefix else [], None)

    def _lines(self, d, st):
        """clang omits file/line when equal to the last printed one; restore them."""
        def loc(l):
            if not isinstance(l, dict): return
            if 'spellingLoc' in l: loc(l['spellingLoc'])
            if 'expansionLoc' in l: loc(l['expansionLoc'])
            if 'offset' in l:
                if 'file' in l: st['file'] = l['file']
                if 'line' in l: st['line'] = l['line']
                l['file'] = st['file']; l['line'] = st['line']
        stack = [d]
        def rec(n):
            if 'loc' in n: loc(n['loc'])
            r = n.get('range')
            if r:
                loc(r.get('begin')); loc(r.get('end'))
            for c in n.get('inner', ()):
                if c: rec(c)
        rec(d)

    def _walk(self, n, ns, rec):
        k = n.get('kind')
        if not k: return
        i = n.get('id')
        name = n.get('name', '')
        if k == 'NamespaceDecl':
            for c in n.get('inner', ()): self._walk(c, ns + [name], rec)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if k == 'ClassTemplateSpecializationDecl':
                ta = [c['type'].get('desugaredQualType', c['type']['qualType']) for c in n.get('inner', ()) if c.get('kind') == 'TemplateArgument' and c.get('type')]
                if ta: name = '%s<%s>' % (name, ', '.join(ta))
            q = '::'.join(ns + [name]) if name else ''
            self.decl[i] = n; self.qual[i] = q; self.parent[i] = rec
            if n.get('completeDefinition') and q:
                self.records[q] = n
            for c in n.get('inner', ()): self._walk(c, ns + [name], i)
            return
        if k in FUNCS:
            q = '::'.join(ns + [name])
            if rec is None and n.get('parentDeclContextId') in self.decl:
                # out of line definition
                pr = n['parentDeclContextId']
                q = self.qual[pr] + '::' + name; rec = pr
            pv = n.get('previousDecl')
            if pv:
                self.byprev[pv] = i
                if pv in self.qual: q = self.qual[pv]; rec = self.parent.get(pv)
            self.decl[i] = n; self.qual[i] = q; self.parent[i] = rec
            if body_of(n) is not None:
                self.funcs.setdefault(q, []).append(n)
            return
        if k in ('FunctionTemplateDecl', 'ClassTemplateDecl'):
            for c in n.get('inner', ()): self._walk(c, ns, rec)
            return
        if k == 'EnumDecl':
            q = '::'.join(ns + [name]); self.enums[q] = n; self.decl[i] = n; self.qual[i] = q
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl': self.decl[c['id']] = c; self.qual[c['id']] = q + '::' + c['name']
            return
        if k == 'LinkageSpecDecl':
            for c in n.get('inner', ()): self._walk(c, ns, rec)
            return
        if k in ('TypeAliasDecl', 'TypedefDecl') and n.get('type'):
            self.aliases['::'.join(ns + [name])] = n['type'].get('desugaredQualType', n['type']['qualType'])
        if i:
            self.decl[i] = n; self.qual[i] = '::'.join(ns + [name]); self.parent[i] = rec

    def resolve_body(self, i):
        """node with a body for the declaration i"""
        seen = set()
        while i and i not in seen:
            seen.add(i)
            n = self.decl.get(i)
            if n is not None and body_of(n) is not None: return n
            i = self.byprev.get(i)
        return None

def body_of(n):
    for c in n.get('inner', ()):
        if c.get('kind') == 'CompoundStmt': return c
    return None

def params_of(n):
    return [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

def line_of(n):
    for l in (n.get('range', {}).get('begin', {}), n.get('loc', {})):
        if 'expansionLoc' in l: l = l['expansionLoc']
        if l.get('line'): return l['line']
    return None

def file_of(n):
    for l in (n.get('loc', {}), n.get('range', {}).get('begin', {})):
        if 'expansionLoc' in l: l = l['expansionLoc']
        if l.get('file'): return l['file']
    return None

# ---------------------------------------------------------------- types
def split_args(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

INTS = {'int': (32, True), 'long': (64, True), 'unsigned long': (64, False), 'unsigned int': (32, False),
        'unsigned char': (8, False), 'uint8_t': (8, False), 'char': (8, True), 'long long': (64, True), 'short': (16, True),
        'std::size_t': (64, False), 'size_t': (64, False), 'Eigen::Index': (64, True), 'Index': (64, True),
        'std::ptrdiff_t': (64, True), 'ptrdiff_t': (64, True), 'ClockVariables': (8, False), 'Alphabet': (8, True),
        'signed char': (8, True), 'unsigned short': (16, False), 'unsigned long long': (64, False)}

BOUNDS = ('pair', ('D',), ('bool',))

def parse_type(s, idx=None):
    s = s.strip()
    s = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b', ' ', s)
    s = re.sub(r'\s+', ' ', s).strip()
    while s.endswith('&') or s.endswith('*'):
        if s.endswith('*'):
            return ('ptr', parse_type(s[:-1], idx))
        s = s[:-1].strip()
    s = re.sub(r'^(::)', '', s)
    s0 = s
    if s == 'void': return ('void',)
    if s in ('std::random_device', 'random_device'): return ('rdev',)
    if s in ('std::mt19937', 'mt19937'): return ('rng',)
    if s in ('bool', '_Bool'): return ('bool',)
    if s in ('double', 'float', 'long double'): return ('D',)
    b = s.replace('learnta::', '')
    if b in INTS: return ('int',) + INTS[b]
    if b == 'Bounds': return BOUNDS
    if b == 'IntBounds': return ('pair', ('int', 32, True), ('bool',))
    if s.startswith('(lambda'): return ('lambda', s)
    m = re.match(r'^([\w:]+)\s*<(.*)>$', s)
    if m:
        h, a = m.group(1), split_args(m.group(2))
        hb = h.split('::')[-1]
        if hb in ('vector', 'deque', 'list', 'queue'): return ('seq', parse_type(a[0], idx))
        if hb == 'basic_string': return ('seq', ('int', 8, True))
        if hb == 'pair': return ('pair', parse_type(a[0], idx), parse_type(a[1], idx))
        if hb == 'tuple': return ('tuple',) + tuple(parse_type(x, idx) for x in a)
        if hb == 'optional': return ('opt', parse_type(a[0], idx))
        if hb == 'mersenne_twister_engine': return ('rng',)
        if hb in ('uniform_real_distribution', 'uniform_int_distribution'): return ('dist', parse_type(a[0], idx) if a else (('D',) if 'real' in hb else ('int', 32, True)))
        if hb == 'variant': return ('var',)
        if hb in ('unordered_map', 'map'): return ('map', parse_type(a[0], idx), parse_type(a[1], idx), h)
        if hb in ('unordered_set', 'set'): return ('set', parse_type(a[0], idx), h)
        if hb == 'Matrix': return ('mat',)
        if hb == 'shared_ptr': return ('ptr', parse_type(a[0], idx))
        if hb == 'unique_ptr': return ('own', parse_type(a[0], idx))
        if hb in ('initializer_list',): return ('seq', parse_type(a[0], idx))
        if h.startswith('Eigen') or hb in ('CwiseBinaryOp', 'CwiseUnaryOp', 'Block', 'ArrayWrapper', 'Transpose', 'VectorBlock', 'CwiseNullaryOp', 'MatrixBase', 'DenseBase', 'PlainObjectBase', 'ArrayBase', 'Diagonal', 'DenseCoeffsBase'):
            return ('mexpr',)
        if idx is not None:
            for q in (s, 'learnta::' + s):
                if q in idx.records: return ('struct', q)
        return ('other', s0)
    if b in ('std::string', 'string'): return ('seq', ('int', 8, True))
    if idx is not None:
        for q in (s, 'learnta::' + s):
            if q in idx.aliases and idx.aliases[q] != s: return parse_type(idx.aliases[q], idx)
        for q in (s, 'learnta::' + s):
            if q in idx.records: return ('struct', q)
            if q in idx.enums: return ('enum', q)
        cand = [q for q in idx.aliases if q.endswith('::' + s) and idx.aliases[q] != s]
        if len(cand) == 1: return parse_type(idx.aliases[cand[0]], idx)
        cand = [q for q in idx.records if q.endswith('::' + s)]
        if len(cand) == 1: return ('struct', cand[0])
        cand = [q for q in idx.enums if q.endswith('::' + s)]
        if len(cand) == 1: return ('enum', cand[0])
    return ('other', s0)

def ntype(n, idx):
    t = n.get('type') or {}
    r = ('other', '?')
    for k in ('desugaredQualType', 'qualType'):
        if k in t:
            r = parse_type(t[k], idx)
            if not has_other(r): return r
    return r

def has_other(t):
    if t[0] == 'other': return True
    return any(isinstance(x, tuple) and has_other(x) for x in t[1:])
