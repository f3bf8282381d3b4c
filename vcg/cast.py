"""clang AST (JSON) loader.  The AST is produced from /repo's current source on every run."""
import json, subprocess, os, re, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang'
INC = ['-I%s/MDLIB' % REPO, '-I%s/MDLIB/include' % REPO, '-I/usr/include/suitesparse',
       '-I/usr/include/hdf5/serial', '-I' + os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/native']


ENUM_IDS = set()
ENUM_TYPES = set()


class TU:
    def __init__(self, path, ast):
        self.path = path
        self.funcs = {}
        self.enums = {}
        self.records = {}
        self.globals = {}
        self.typedefs = {}
        self._walk(ast)

    def _walk(self, ast):
        lastrec = None
        for n in ast.get('inner', []):
            k = n.get('kind')
            if k == 'FunctionDecl':
                if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                    self.funcs[n['name']] = n
            elif k == 'EnumDecl':
                v = -1
                ENUM_IDS.add(n['id'])
                for c in n.get('inner', []):
                    if c.get('kind') != 'EnumConstantDecl':
                        continue
                    e = _constval(c)
                    v = e if e is not None else v + 1
                    self.enums[c['name']] = v
            elif k == 'RecordDecl':
                fs = [(c['name'], c['type']) for c in n.get('inner', [])
                      if c.get('kind') == 'FieldDecl' and 'name' in c]
                if fs:
                    if n.get('name'):
                        self.records[n['name']] = fs
                    self.records['@' + n['id']] = fs
            elif k == 'TypedefDecl':
                self.typedefs[n['name']] = n['type']
                for c in n.get('inner', []):
                    self._tdrec(n['name'], c)
            elif k == 'VarDecl':
                if n['name'] not in self.globals or 'inner' in n:
                    self.globals[n['name']] = n

    def _tdrec(self, name, c):
        if c.get('kind') == 'EnumType' or (c.get('decl') or {}).get('kind') == 'EnumDecl' or (c.get('ownedTagDecl') or {}).get('kind') == 'EnumDecl':
            ENUM_TYPES.add(name)
        if 'decl' in c and ('@' + c['decl'].get('id', '')) in self.records:
            self.records.setdefault(name, self.records['@' + c['decl']['id']])
        if 'ownedTagDecl' in c and ('@' + c['ownedTagDecl'].get('id', '')) in self.records:
            self.records.setdefault(name, self.records['@' + c['ownedTagDecl']['id']])
        for d in c.get('inner', []):
            self._tdrec(name, d)


def _constval(n):
    if 'value' in n and n.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        try:
            return int(n['value'])
        except ValueError:
            return None
    for c in n.get('inner', []):
        r = _constval(c)
        if r is not None:
            return r
    return None


def load(path, defs=()):
    cmd = [CLANG, '-Xclang', '-ast-dump=json', '-fsyntax-only', '-w', '-ferror-limit=0', '-Wno-everything'] + INC + \
        ['-D' + d for d in defs] + [path]
    r = subprocess.run(cmd, capture_output=True)
    if not r.stdout:
        raise RuntimeError('clang failed on %s: %s' % (path, r.stderr[-2000:]))
    ast = json.loads(r.stdout)
    tu = TU(path, ast)
    tu.rc = r.returncode
    tu.err = r.stderr.decode(errors='replace')
    return tu


_deffile = None


def def_index():
    """function name -> source file, by a textual scan for candidate definitions"""
    global _deffile
    if _deffile is None:
        _deffile = {}
        for f in sorted(glob.glob(REPO + '/MDLIB/*.c')):
            if os.path.basename(f) in NOT_BUILT:
                continue
            txt = open(f, errors='replace').read()
            for m in re.finditer(r'^[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{]*?\)\s*\{', txt, re.M | re.S):
                _deffile.setdefault(m.group(1), [])
                if f not in _deffile[m.group(1)]:
                    _deffile[m.group(1)].append(f)
    return _deffile


NOT_BUILT = {'CollisionAnisotropy.c', 'NeckingReview.c', 'omptest.c'}


def built_sources():
    """sources of libmdoodz, from MDLIB/CMakeLists.txt"""
    txt = open(REPO + '/MDLIB/CMakeLists.txt').read()
    fs = re.findall(r'[\w./-]+\.c\b', txt)
    return [f for f in fs]


class Program:
    """functions of the repository + specification, loaded on demand"""

    def __init__(self, spec, defs=()):
        self.spec = load(spec, ['VSPEC_SYM=1'] + list(defs))
        if self.spec.rc != 0:
            raise RuntimeError('spec does not parse: ' + self.spec.err[-3000:])
        self.tus = {}
        self.loaded = {}

    def tu(self, path):
        if path not in self.tus:
            self.tus[path] = load(path)
        return self.tus[path]

    def find(self, name):
        """(tu, node) of the definition or None; spec definitions take precedence"""
        if name in self.spec.funcs:
            return self.spec, self.spec.funcs[name]
        if name in self.loaded:
            return self.loaded[name]
        r = None
        for tu in self.tus.values():
            if name in tu.funcs:
                r = (tu, tu.funcs[name])
                break
        if r is None:
            for f in def_index().get(name, []):
                tu = self.tu(f)
                if name in tu.funcs:
                    r = (tu, tu.funcs[name])
                    break
        self.loaded[name] = r
        return r

    def repo_has(self, name):
        for f in def_index().get(name, []):
            tu = self.tu(f)
            if name in tu.funcs:
                return tu, tu.funcs[name]
        return None
