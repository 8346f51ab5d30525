"""Loads the clang AST of one translation unit (JSON, only declarations below /repo/src and the
driver directory) and indexes it.  Nothing is cached between runs: every check dumps the AST of the
current sources."""
import json, os, re, subprocess, hashlib, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class ExtractionError(Exception):
    pass


def plugin_path():
    p = os.path.join(BUILD, 'astdump.so')
    src = os.path.join(VERIF, 'tools', 'astdump.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        os.makedirs(BUILD, exist_ok=True)
        tmp = p + '.%d' % os.getpid()
        subprocess.check_call(['clang++', '-std=c++17', '-fno-rtti', '-fPIC', '-shared', '-O0',
                               '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
                               '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp])
        os.rename(tmp, p)
    return p


class AstDB:
    def __init__(self, source_text, extra_flags=()):
        """source_text: a driver TU that includes the real sources and forces instantiations"""
        self.byid = {}
        self.funcs = {}      # mangled -> node with body
        self.fqual = {}      # mangled -> qualified name
        self.records = {}    # canonical name -> node
        self.recname = {}    # id -> canonical name
        self.enumconst = {}  # id -> value
        self.enumtype = {}   # name -> True
        self.globalvars = {}
        self.defaults = {}   # ParmVarDecl id -> init expr
        self.owner = {}      # function decl id -> record canonical name
        self.typedefs = {}
        self._dump(source_text, extra_flags)

    def _dump(self, text, flags):
        d = tempfile.mkdtemp(prefix='vfast')
        try:
            f = os.path.join(d, 'driver.cpp')
            with open(f, 'w') as h:
                h.write(text)
            cmd = ['clang++', '-std=c++17', '-include', 'cstdint', '-w', '-I' + REPO + '/src', '-I/usr/include/lua5.2', '-fsyntax-only',
                   *flags, '-fplugin=' + plugin_path(), '-Xclang', '-plugin', '-Xclang', 'vfdump',
                   '-Xclang', '-plugin-arg-vfdump', '-Xclang', REPO + '/src',
                   '-Xclang', '-plugin-arg-vfdump', '-Xclang', d, f]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode != 0:
                raise ExtractionError('clang rejected the driver: ' + p.stderr.decode()[-2000:])
            s = p.stdout.decode('utf-8', 'replace')
        finally:
            subprocess.call(['rm', '-r', '-f', d])
        dec = json.JSONDecoder()
        i = 0
        n = len(s)
        ended = False
        tops = []
        while i < n:
            while i < n and s[i] in ' \r\n\t':
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            if 'vfend' in o:
                ended = True
            else:
                tops.append(o)
        if not ended or not tops:
            raise ExtractionError('AST dump incomplete')
        self.line = 0
        self.file = ''
        for o in tops:
            self._lines(o['decl'])
        for o in tops:
            sc = o['vfscope']
            if o['decl'].get('kind') == 'ClassTemplateSpecializationDecl' and '::' in o['vfqual']:
                sc = o['vfqual'].rsplit('::', 1)[0] + '::'      # explicit instantiation
            self._index(o['decl'], sc, None)
        for o in tops:
            self._collect_globals(o['decl'], o['vfscope'])
        # second pass: bodies of implicit instantiations etc. are indexed in the first pass already

    def _lines(self, n):
        # the JSON dump omits file/line when unchanged: recover them in document order
        def loc(l):
            if 'spellingLoc' in l:
                loc(l['spellingLoc'])
                loc(l['expansionLoc'])
                l['file'] = l['expansionLoc'].get('file'); l['line'] = l['expansionLoc'].get('line')
                return
            if 'offset' in l:
                if 'file' in l:
                    self.file = l['file']
                else:
                    l['file'] = self.file
                if 'line' in l:
                    self.line = l['line']
                else:
                    l['line'] = self.line
        if 'loc' in n:
            loc(n['loc'])
        if 'range' in n:
            loc(n['range'].get('begin', {}))
            loc(n['range'].get('end', {}))
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self._lines(c)

    @staticmethod
    def _targs(n):
        out = []
        for c in n.get('inner', ()):
            if isinstance(c, dict) and c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    out.append(c['type'].get('desugaredQualType', c['type']['qualType']))
                elif 'value' in c:
                    out.append(str(c['value']))
                else:
                    for e in c.get('inner', ()):
                        if e.get('kind') == 'TemplateArgument' and 'type' in e:
                            out.append(e['type'].get('desugaredQualType', e['type']['qualType']))
        return out

    def _index(self, n, scope, owner, intemplate=False):
        k = n.get('kind')
        if k is None:
            return
        if 'id' in n:
            self.byid[n['id']] = n
        name = n.get('name', '')
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl'):
            first = True
            for c in n.get('inner', ()):
                ck = c.get('kind')
                if ck in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl', 'TemplateTemplateParmDecl'):
                    continue
                if k == 'ClassTemplateDecl' and ck == 'CXXRecordDecl':
                    continue    # the uninstantiated pattern
                if k == 'FunctionTemplateDecl' and first and ck in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    first = False
                    self.byid[c['id']] = c
                    continue
                self._index(c, scope, owner)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            if k == 'ClassTemplatePartialSpecializationDecl':
                return
            nm = scope + name
            if not name:
                l = n.get('range', {}).get('begin', {})
                nm = scope + '(anonymous at line %s)' % l.get('line')
            if k == 'ClassTemplateSpecializationDecl':
                nm += '<' + ', '.join(self._targs(n)) + '>'
            nm = canon(nm)
            self.recname[n['id']] = nm
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ())):
                if nm not in self.records or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ())):
                    self.records[nm] = n
            for c in n.get('inner', ()):
                self._index(c, nm + '::', nm)
            return
        if k == 'EnumDecl':
            self.enumtype[scope + name] = n
            v = -1
            for c in n.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    self.byid[c['id']] = c
                    val = None
                    for e in c.get('inner', ()):
                        val = find_const(e)
                    v = v + 1 if val is None else int(val)
                    self.enumconst[c['id']] = v
                    self.enumconst[scope + c['name']] = v
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            m = n.get('mangledName')
            own = owner
            if own is None and 'parentDeclContextId' in n:
                own = self.recname.get(n['parentDeclContextId'])
            self.owner[n['id']] = own
            n['vf_owner'] = own
            q = ((own + '::') if own else scope) + name
            n['vf_qual'] = q
            if m:
                self.fqual[m] = q
                if has_body(n):
                    self.funcs[m] = n
                for c, i in zip([c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl'], range(99)):
                    self.byid[c['id']] = c
                    if c.get('inner') and c.get('init'):
                        self.defaults.setdefault((m, i), c['inner'][-1])
            for c in n.get('inner', ()):
                self._inner(c, q + '::')
            return
        if k in ('VarDecl',):
            self.globalvars[n['id']] = n
            return
        if k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n.get('type', {})
            self.typedefs[canon(scope + name)] = t.get('desugaredQualType', t.get('qualType'))
            return

    def _inner(self, n, scope):
        """declarations nested in function bodies (local structs, static variables)"""
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        if k in ('CXXRecordDecl', 'EnumDecl', 'ClassTemplateSpecializationDecl'):
            self._index(n, scope if k == 'EnumDecl' else self._lex_local(scope), None)
            return
        if 'id' in n and k and k.endswith('Decl'):
            self.byid[n['id']] = n
        for c in n.get('inner', ()):
            self._inner(c, scope)

    @staticmethod
    def _lex_local(scope):
        return ''

    def _collect_globals(self, n, scope):
        pass

    def func_of(self, declid):
        n = self.byid.get(declid)
        if n is None:
            return None
        m = n.get('mangledName')
        return self.funcs.get(m)

    def find(self, qual, nparams=None, pred=None, const=None):
        """definitions whose qualified name equals qual"""
        out = []
        q = canon(qual)
        for m, n in self.funcs.items():
            if canon(n['vf_qual']) == q:
                ps = params(n)
                if nparams is not None and len(ps) != nparams:
                    continue
                if pred is not None and not pred(n, ps):
                    continue
                out.append(n)
        return out

    def one(self, qual, nparams=None, pred=None):
        o = self.find(qual, nparams, pred)
        if len(o) != 1:
            raise ExtractionError('function %s/%s: %d definitions found' % (qual, nparams, len(o)))
        return o[0]

    def record(self, name):
        return self.records.get(canon(name))

    def fields(self, name):
        r = self.record(name)
        if r is None:
            return None
        out = []
        for b in r.get('bases', ()):
            bt = b['type'].get('desugaredQualType', b['type']['qualType'])
            f = self.fields(bt)
            if f:
                out += f
        for c in r.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                out.append((c.get('name', ''), tyof(c), c))
        return out


def find_const(e):
    if not isinstance(e, dict):
        return None
    if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        return e['value']
    for c in e.get('inner', ()):
        v = find_const(c)
        if v is not None:
            return v
    return None


def has_body(n):
    return any(isinstance(c, dict) and c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', ()))


def body(n):
    for c in n.get('inner', ()):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def params(n):
    return [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def tyof(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))


def canon(s):
    s = re.sub(r'\b(const|volatile|struct|class|enum|typename) ', '', s)
    s = re.sub(r'\s+', ' ', s)
    s = s.replace('> >', '>>').replace('> >', '>>').replace(' *', '*').replace(' &', '&')
    s = s.replace('std::__cxx11::', 'std::')
    s = s.replace('std::basic_string<char>', 'std::string').replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::string')
    return s.strip()
