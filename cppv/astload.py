"""Reads the typed syntax trees of /repo's current sources (clang JSON dump) and indexes
functions, records and type aliases.  Nothing is cached between runs."""
import json, os, re, subprocess, sys

CLANG = 'clang++-18'
SKIP_KINDS = {'FullComment', 'ParagraphComment', 'TextComment', 'BlockCommandComment', 'ParamCommandComment'}


class Extraction(Exception):
    """The sources could not be brought into the form the generator needs."""


def _run_clang(path, repo, flt):
    cmd = [CLANG, '-std=c++11', '-w', '-fsyntax-only', '-I' + os.path.join(repo, 'genex'), '-Xclang', '-ast-dump=json']
    if flt:
        cmd += ['-Xclang', '-ast-dump-filter=' + flt]
    cmd.append(path)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Extraction('clang failed on %s: %s' % (path, p.stderr.decode(errors='replace')[-800:]))
    return p.stdout


def _decode_many(text):
    dec = json.JSONDecoder()
    i, n, out = 0, len(text), []
    while i < n:
        while i < n and text[i] in ' \r\n\t':
            i += 1
        if i >= n:
            break
        if text[i] != '{':  # "Dumping x:" lines
            j = text.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        o, i = dec.raw_decode(text, i)
        out.append(o)
    return out


_FILE = re.compile(rb'"file": "([^"]*)",\s*"line"')


def _split_full(raw, repo):
    """Top-level declarations of a whole-TU dump that lie in files under repo/genex."""
    start = raw.find(b'\n  "inner": [\n')
    body = raw[start + len(b'\n  "inner": [\n'):]
    chunks = body.split(b'\n    },\n')
    out, last = [], None
    want = os.path.join(repo, 'genex').encode()
    for c in chunks:
        m = _FILE.findall(c)
        loc = c.find(b'"loc": {')
        rng = c.find(b'"range": {')
        head = c[loc:rng] if 0 <= loc < rng else b''
        hm = _FILE.findall(head)
        cur = hm[0] if hm else last
        # a declaration whose loc carries no file sits in the file of the previous one
        if cur and cur.startswith(want):
            t = c.strip()
            if not t.endswith(b'}'):
                t += b'\n}'
            # the last chunk carries the closing brackets of the TU
            k = t.rfind(b'\n  ]')
            if k > 0 and t[k:].strip().startswith(b']') and len(t) - k < 40:
                t = t[:k]
            try:
                out.append(json.loads(t))
            except ValueError:
                pass
        if m:
            last = m[-1]
    return out


class Func:
    def __init__(self, node, qname, cls, tu, targs):
        self.node, self.qname, self.cls, self.tu, self.targs = node, qname, cls, tu, targs
        self.name = node['name']
        self.params = [x for x in node.get('inner', []) if x['kind'] == 'ParmVarDecl']
        self.body = next((x for x in node.get('inner', []) if x['kind'] in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [x for x in node.get('inner', []) if x['kind'] == 'CXXCtorInitializer']
        self.type = node['type']['qualType']

    @property
    def key(self):
        return self.qname + ('<' + ','.join(self.targs) + '>' if self.targs else '')

    def __repr__(self):
        return 'Func(%s %s)' % (self.key, self.type)


class Record:
    def __init__(self, name, bases):
        self.name, self.bases, self.fields = name, bases, []  # fields: (name, typedict, init node)


class Program:
    """All translation units asked for."""

    def __init__(self, repo='/repo'):
        self.repo = repo
        self.funcs = {}     # key -> [Func with body]
        self.records = {}   # name -> Record
        self.aliases = {}   # name -> type string
        self.globals = {}   # name -> VarDecl node
        self.decl_func = {} # (tu, id) -> Func key and type (declarations and definitions)
        self.by_id = {}
        self.loaded = set()
        self.enums = {}

    def load(self, rel, flt='genex', full=False):
        if (rel, flt, full) in self.loaded:
            return
        self.loaded.add((rel, flt, full))
        path = os.path.join(self.repo, rel)
        if not os.path.exists(path):
            raise Extraction('source file %s does not exist' % rel)
        raw = _run_clang(path, self.repo, None if full else flt)
        decls = _split_full(raw, self.repo) if full else _decode_many(raw.decode(errors='replace'))
        for d in decls:
            self._index(d, [], None, rel, [])

    def load_all(self):
        """every translation unit of the library; clang runs in parallel"""
        from concurrent.futures import ThreadPoolExecutor
        tus = []
        for d, _, fs in sorted(os.walk(os.path.join(self.repo, 'genex'))):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    tus.append(os.path.relpath(os.path.join(d, f), self.repo))
        if not tus:
            raise Extraction('no sources under genex')
        full = [t for t in tus if os.path.dirname(t).endswith('lib')]
        with ThreadPoolExecutor(8) as ex:
            raws = list(ex.map(lambda t: _run_clang(os.path.join(self.repo, t), self.repo, None if t in full else 'genex'), tus))
        for t, raw in zip(tus, raws):
            self.loaded.add((t, 'genex', False))
            self.loaded.add((t, None, True))
            decls = _split_full(raw, self.repo) if t in full else _decode_many(raw.decode(errors='replace'))
            for d in decls:
                self._index(d, [], None, t, [])

    def _qual(self, scope, name):
        return '::'.join([s for s in scope if s] + [name])

    def _index(self, d, scope, cls, tu, targs):
        k = d.get('kind')
        if k == 'NamespaceDecl':
            # with a filter the dump starts at the namespace itself
            for x in d.get('inner', []):
                self._index(x, scope, None, tu, [])
        elif k == 'LinkageSpecDecl':
            for x in d.get('inner', []):
                self._index(x, scope, None, tu, [])
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            name = d.get('name')
            if not name:
                return
            if d.get('completeDefinition'):
                bases = [b['type']['qualType'] for b in d.get('bases', [])]
                r = self.records.get(name)
                if r is None or not r.fields:
                    r = Record(name, [b.split('::')[-1] for b in bases])
                    for x in d.get('inner', []):
                        if x['kind'] == 'FieldDecl':
                            init = x.get('inner', [])
                            init = [i for i in init if i['kind'] not in SKIP_KINDS and not i['kind'].endswith('Comment')]
                            r.fields.append((x.get('name'), x['type'], init[0] if init else None))
                    self.records[name] = r
                for x in d.get('inner', []):
                    self._index(x, scope, name, tu, [])
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            c = cls
            if c is None and 'parentDeclContextId' in d:
                p = self.by_id.get((tu, d['parentDeclContextId']))
                c = p
            ta = []
            for x in d.get('inner', []):
                if x['kind'] == 'TemplateArgument' and 'type' in x:
                    ta.append(x['type']['qualType'].replace('genex::', ''))
            f = Func(d, (c + '::' if c else '') + d['name'], c, tu, ta)
            self.decl_func[(tu, d['id'])] = f
            if f.body is not None and not d.get('isImplicit'):
                lst = self.funcs.setdefault(f.key, [])
                # header functions are seen once per translation unit
                if not any(g.type == f.type for g in lst):
                    lst.append(f)
        elif k == 'FunctionTemplateDecl':
            for x in d.get('inner', []):
                if x['kind'] in ('FunctionDecl', 'CXXMethodDecl') and any(
                        y['kind'] == 'TemplateArgument' for y in x.get('inner', [])):
                    self._index(x, scope, cls, tu, [])
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.aliases[d['name']] = d['type'].get('desugaredQualType') or d['type']['qualType']
        elif k == 'VarDecl':
            self.globals.setdefault(d['name'], d)
        if k in ('CXXRecordDecl',) and d.get('name'):
            self.by_id[(tu, d['id'])] = d['name']

    def find(self, key, type_hint=None):
        c = self.funcs.get(key, [])
        if type_hint:
            c2 = [f for f in c if f.type == type_hint]
            if c2:
                c = c2
        return c

    def find_with_params(self, key, ptypes):
        out = []
        for f in self.funcs.get(key, []):
            if [p['type']['qualType'] for p in f.params] == ptypes:
                out.append(f)
        return out


def show(n, ind=0, out=sys.stdout, maxd=99):
    if not isinstance(n, dict) or 'kind' not in n:
        return
    t = n.get('type', {})
    extra = ' '.join(str(n[k]) for k in ('name', 'opcode', 'castKind', 'value', 'isArrow', 'valueCategory') if k in n)
    rd = n.get('referencedDecl')
    if rd:
        extra += ' ->%s %s' % (rd.get('kind'), rd.get('name'))
    if 'referencedMemberDecl' in n:
        extra += ' ->m'
    out.write('  ' * ind + n['kind'] + ' ' + extra + '  : ' + t.get('qualType', '') + (' == ' + t['desugaredQualType'] if 'desugaredQualType' in t else '') + '\n')
    if maxd > 0:
        for x in n.get('inner', []):
            show(x, ind + 1, out, maxd - 1)
