"""Front end: clang's AST of the real headers, re-read from /repo on every run.

clang++ -ast-dump=json over a small driver file (which only #includes the /repo
headers and names the instantiations wanted) is streamed; only top-level
declarations whose source file is under /repo/include/qlmps (minus third_party)
or the driver itself are kept.  Nothing is dropped from a function body: the
interpreter walks the very nodes clang produced.
"""
import collections, json, os, re, subprocess, sys, hashlib

REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'include')
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'

FILE_RE = re.compile(r'"file": "([^"]*)"')


class Node(dict):
    __slots__ = ()

    @property
    def kind(self):
        return self.get('kind')

    @property
    def inner(self):
        return self.get('inner', [])


def _hook(d):
    return Node(d)


class FrontEndError(Exception):
    pass


def load_tu(driver, extra=(), keep=None, stubs=False):
    """Return list of kept top-level decl Nodes."""
    import tempfile
    if keep is None:
        keep = lambda f: f == driver or (stubs and f.startswith(STUBS)) or (f.startswith(INC + '/qlmps') and 'third_party' not in f)
    err = tempfile.TemporaryFile('w+')
    cmd = [CLANG, '-std=c++17'] + (['-I' + STUBS] if stubs else []) + ['-I' + INC, '-w', '-DNDEBUG'] + list(extra) + \
          ['-fsyntax-only', '-Xclang', '-ast-dump=json', driver]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, text=True, bufsize=1 << 20)
    last = None
    cur = None
    want = False
    first_loc = False
    out = []
    start = None
    consts = {}        # std::integral_constant<bool, b>::value: the values clang's type traits come down to
    ring = collections.deque(maxlen=48)
    for line in p.stdout:
        ring.append(line)
        if 'integral_constantIbLb' in line and '5valueE"' in line and '"mangledName"' in line:
            for x in reversed(ring):
                if '"id":' in x:
                    consts[x.split('"')[3]] = 'IbLb1E' in line
                    break
        if cur is None:
            if line == '    {\n':
                cur = [line]
                start = last
                first_loc = True
                want = None
            elif '"file":' in line:
                m = FILE_RE.search(line)
                if m:
                    last = m.group(1)
            continue
        if '"file":' in line:
            m = FILE_RE.search(line)
            if m:
                last = m.group(1)
                if want is None:
                    start = last
        if want is None and ('"offset":' in line or '"range":' in line or '"spellingLoc"' in line):
            # first location seen: decide
            if '"offset":' in line:
                want = None
        cur.append(line)
        if want is None and len(cur) > 6 and ('"line"' in line or '"col"' in line):
            want = keep(start) if start else False
            if not want:
                cur = [line]
        if want is False and len(cur) > 1 and not line.startswith('    }'):
            cur = cur[:1]
        if line.startswith('    }'):
            if want or (want is None and start and keep(start)):
                txt = ''.join(cur).rstrip().rstrip(',')
                try:
                    n = json.loads(txt, object_hook=_hook)
                    out.append(n)
                except json.JSONDecodeError as e:
                    raise FrontEndError('json chunk: %s' % e)
            cur = None
    rc = p.wait()
    err.seek(0)
    e = err.read()
    if rc != 0:
        raise FrontEndError('clang failed (%d): %s' % (rc, e[:2000]))
    return out, ' '.join(cmd), consts


class TU:
    """Index of the kept declarations."""

    def __init__(self, driver, extra=(), stubs=False):
        self.driver = driver
        self.decls, self.cmd, self.std_consts = load_tu(driver, extra, None, stubs)
        self.by_id = {}
        self.records = {}     # qualified (instantiated) name -> record node
        self.functions = {}   # id -> function node with qualified name
        self.vars = {}
        self.enums = {}       # id of an enumerator -> value
        self.typedefs = {}
        self.parent = {}
        self.defn = {}        # id of any decl -> definition node
        for d in self.decls:
            self._index(d, '', None)
        import ctypes_
        ctypes_.register({n: next(iter(u)) for n, u in self.typedefs.items() if len(u) == 1})
        ctypes_.register_short(self.records)
        self._link()

    def _index(self, n, scope, parent):
        k = n.get('kind')
        if not k:
            return
        if 'id' in n:
            old = self.by_id.get(n['id'])
            if old is None or len(n.get('inner', [])) >= len(old.get('inner', [])):
                self.by_id[n['id']] = n
        name = n.get('name', '')
        if k == 'NamespaceDecl':
            for c in n.inner:
                self._index(c, scope + name + '::' if name and name != 'qlmps' else scope, n)
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            pat = True
            for c in n.inner:
                ck = c.get('kind')
                if ck == 'ClassTemplateSpecializationDecl':
                    self._index(c, scope, n)
                elif k == 'FunctionTemplateDecl' and ck in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if n.get('_cls'):
                        c['_cls'] = n['_cls']
                    if any(x.get('kind') == 'TemplateArgument' for x in c.inner):
                        self._index(c, scope, n)
                    else:
                        c['_pattern'] = True
                        if 'id' in c:
                            self.by_id[c['id']] = c
                elif ck == 'CXXRecordDecl':
                    c['_pattern'] = True
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            if k == 'ClassTemplateSpecializationDecl':
                args = []
                for c in n.inner:
                    if c.get('kind') == 'TemplateArgument' and 'type' in c:
                        args.append(c['type']['qualType'])
                qn = scope + name + '<' + ', '.join(args) + '>'
            else:
                qn = scope + name
            n['_qname'] = qn
            n['_scope'] = scope
            if n.get('completeDefinition'):
                old = self.records.get(qn)
                if old is None or len(old.inner) < len(n.inner):
                    self.records[qn] = n
            for c in n.inner:
                if c.get('kind') in ('CXXRecordDecl',) and c.get('isImplicit'):
                    continue
                c['_cls'] = qn
                self._index(c, qn + '::', n)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            n['_qname'] = scope + name
            self.functions[n['id']] = n
            for c in n.inner:
                if c.get('kind') == 'ParmVarDecl':
                    self.by_id[c['id']] = c
            return
        if k == 'VarDecl':
            n['_qname'] = scope + name
            self.vars[n['id']] = n
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            ty = n.get('type') or {}
            u = ty.get('desugaredQualType') or ty.get('qualType')
            if u and u != name and '(' not in u:
                self.typedefs.setdefault(scope + name, set()).add(u)
                if scope:
                    self.typedefs.setdefault(name, set()).add(u)
            return
        if k == 'EnumDecl':
            import ctypes_
            if name:
                ctypes_.ENUMS.add(scope + name)
                ctypes_.ENUMS.add(name)
            v = -1
            for c in n.inner:
                if c.get('kind') == 'EnumConstantDecl':
                    x = c.inner
                    while x and 'value' not in x[0]:
                        x = x[0].inner
                    v = int(x[0]['value']) if x else v + 1
                    self.enums[c['id']] = v
                    self.enums[(name, c.get('name'))] = v
            return
        if k == 'LinkageSpecDecl':
            for c in n.inner:
                self._index(c, scope, n)

    def _link(self):
        # out-of-line definitions: previousDecl / parentDeclContextId
        for fid, f in list(self.functions.items()):
            if f.get('parentDeclContextId'):
                par = self.by_id.get(f['parentDeclContextId'])
                if par is not None and par.get('_qname'):
                    f['_cls'] = par['_qname']
                    f['_qname'] = par['_qname'] + '::' + f.get('name', '')
            if self.body(f) is not None:
                self.defn[fid] = f
                pd = f.get('previousDecl')
                while pd:
                    self.defn[pd] = f
                    p = self.by_id.get(pd)
                    pd = p.get('previousDecl') if p else None

    def default_args(self, fn, i):
        """initializer of parameter i, from whichever declaration of the function carries it"""
        seen = []
        d = self.definition(fn['id'])
        todo = [fn] + ([d] if d else [])
        while todo:
            f = todo.pop()
            if f is None or f['id'] in seen:
                continue
            seen.append(f['id'])
            todo.append(self.by_id.get(f.get('previousDecl')))
            ps = [p for p in f.inner if p.get('kind') == 'ParmVarDecl']
            ini = [x for x in ps[i].inner if x.get('kind')] if i < len(ps) else []
            if ini:
                return [ini[-1]]
        # instantiated member: the pattern in the class template carries the initializer
        for f in self.by_id.values():
            if f.get('kind') in ('CXXMethodDecl', 'FunctionDecl') and f.get('name') == fn.get('name') and f['id'] not in seen:
                ps = [p for p in f.inner if p.get('kind') == 'ParmVarDecl']
                if len(ps) == len([p for p in fn.inner if p.get('kind') == 'ParmVarDecl']) and i < len(ps):
                    ini = [x for x in ps[i].inner if x.get('kind')]
                    if ini and ps[i].get('type', {}).get('qualType') and f.get('_cls') == fn.get('_cls'):
                        return [ini[-1]]
        return []

    def never_written(self, vd):
        """a private static data member that no function of the translation unit can change:
        every mention of it is read as a value or bound as const"""
        q = vd.get('_qname')
        cls = self.records.get(q.rsplit('::', 1)[0]) if q and '::' in q else None
        if cls is None:
            return False
        acc = 'private' if cls.get('tagUsed') == 'class' else 'public'
        ok = False
        for c in cls.inner:
            if c.get('kind') == 'AccessSpecDecl':
                acc = c.get('access', acc)
            elif c.get('kind') == 'VarDecl' and c.get('name') == vd.get('name'):
                ok = acc == 'private'
        if not ok:
            return False
        if not hasattr(self, '_written'):
            self._written = set()
            for f in self.functions.values():
                b = self.body(f)
                if b is not None and not f.get('_pattern'):
                    for c in f.inner:
                        self._scan_writes(c, [])
        return q not in self._written

    def _scan_writes(self, n, up):
        k = n.get('kind')
        i = None
        if k == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'VarDecl':
            i = n['referencedDecl']['id']
        elif k == 'MemberExpr':
            i = n.get('referencedMemberDecl')
        d = self.by_id.get(i) if i else None
        if d is not None and d.get('kind') == 'VarDecl' and d.get('_qname'):
            ro = False
            for p in reversed(up):
                pk = p.get('kind')
                if pk in ('ParenExpr', 'ConditionalOperator'):
                    continue
                ty = p.get('type', {}).get('qualType', '')
                ro = pk == 'ImplicitCastExpr' and (p.get('castKind') == 'LValueToRValue' or (p.get('castKind') == 'NoOp' and ty.startswith('const ')))
                break
            if not ro:
                self._written.add(d['_qname'])
        for c in n.get('inner', []):
            self._scan_writes(c, up + [n])

    @staticmethod
    def body(f):
        for c in reversed(f.inner):
            if c.get('kind') == 'CompoundStmt':
                return c
            if c.get('kind') == 'CXXTryStmt':
                return c
        return None

    def definition(self, fid):
        d = self.defn.get(fid)
        if d is not None:
            return d
        return self.functions.get(fid)

    def find(self, qname):
        return [f for f in self.functions.values() if f['_qname'] == qname and self.body(f) is not None]


def dump(n, ind=0, out=sys.stdout):
    """Compact printing (debug)."""
    if not n.get('kind'):
        out.write('  ' * ind + '<null>\n')
        return
    s = n['kind']
    for key in ('name', 'opcode', 'value', 'castKind', 'isPostfix', 'valueCategory', 'isArrow'):
        if key in n and n[key] not in (None, ''):
            s += ' %s=%s' % (key, n[key])
    if 'type' in n:
        s += ' :' + n['type'].get('desugaredQualType', n['type']['qualType'])
    if 'referencedDecl' in n:
        r = n['referencedDecl']
        s += ' ->%s %s %s' % (r['kind'], r.get('name'), r['id'])
    if 'referencedMemberDecl' in n:
        s += ' ->m ' + n['referencedMemberDecl']
    out.write('  ' * ind + s + '\n')
    for c in n.get('inner', []):
        dump(c, ind + 1, out)


if __name__ == '__main__':
    import time
    t = time.time()
    tu = TU(sys.argv[1])
    print(time.time() - t, file=sys.stderr)
    if len(sys.argv) > 2:
        for f in tu.functions.values():
            if sys.argv[2] in f['_qname'] and tu.body(f):
                print(f['_qname'], f['type']['qualType'])
                dump(f)
    else:
        for q in tu.records: print('REC', q)
        for f in tu.functions.values():
            print(f['_qname'], f['type']['qualType'], bool(tu.body(f)))
