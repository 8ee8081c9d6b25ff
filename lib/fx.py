"""Fact base: runs the clang-based extractor over the current /repo sources and gives Python access to the result."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src/helics'
BUILD = VERIF + '/build'
HX = BUILD + '/hx'
CACHE = os.environ.get('VERIF_CACHE', BUILD + '/cache')
GEN = BUILD + '/gen'


class Broken(Exception):
    """analysis broken: an anchor vanished or the sources could not be analysed"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_tool():
    src = open(VERIF + '/tool/hx.cpp', 'rb').read() + open(VERIF + '/tool/build.sh', 'rb').read()
    h = hashlib.sha256(src).hexdigest()[:16]
    stamp = BUILD + '/hx.stamp'
    if os.path.exists(HX) and os.path.exists(stamp) and open(stamp).read() == h:
        return h
    os.makedirs(BUILD, exist_ok=True)
    r = sh(['bash', VERIF + '/tool/build.sh', HX])
    if r.returncode != 0:
        raise Broken('extractor does not build: ' + r.stderr[-2000:])
    open(stamp, 'w').write(h)
    return h


def ensure_gen():
    os.makedirs(GEN + '/helics', exist_ok=True)

    def put(p, s):
        if not os.path.exists(p) or open(p).read() != s:
            with open(p + '.%d' % os.getpid(), 'w') as fh:
                fh.write(s)
            os.replace(p + '.%d' % os.getpid(), p)
    put(GEN + '/helics/helics-config.h', open(VERIF + '/lib/gen/helics-config.h').read())
    for f in ('helics_export.h', 'helics_cxx_export.h'):
        put(GEN + '/' + f, open(VERIF + '/lib/gen/' + f).read())
    for f in ('helics.h', 'helics_api.h'):
        p = SRC + '/shared_api_library/backup/helics/' + f
        if os.path.exists(p):
            put(GEN + '/helics/' + f, open(p).read())


def flags():
    return ['-std=c++20', '-w', '-ferror-limit=20', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-DCLI11_HAS_FILESYSTEM=1',
            '-DUSE_STD_OPTIONAL=1', '-DSPDLOG_FMT_EXTERNAL', '-DHELICS_STATIC_CORE_LIBRARY', '-I' + REPO + '/src', '-I' + SRC,
            '-I' + GEN, '-I' + GEN + '/helics', '-isystem', VERIF + '/shim', '-isystem', VERIF + '/shim/gmlc/utilities',
            '-isystem', REPO + '/ThirdParty', '-isystem', REPO + '/ThirdParty/helics/external']


EXCLUDE = ('network/ipc/IpcBlockingPriorityQueue', 'network/zmq/zmqSocketDescriptor.cpp')


def all_units():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith('.cpp'):
                p = os.path.join(d, f)
                if not any(e in p for e in EXCLUDE):
                    out.append(p)
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO + '/src', REPO + '/ThirdParty', VERIF + '/shim', VERIF + '/lib/gen', VERIF + '/lib/tu', VERIF + '/lib/fx.py'):
        if os.path.isfile(root):
            h.update(open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.cpp', '.hpp', '.h', '.txt', '.in', '.c')):
                    h.update(p.encode())
                    try:
                        h.update(open(p, 'rb').read())
                    except OSError:
                        pass
    return h.hexdigest()[:20]


def _extract(args):
    f, out = args
    r = sh([HX, '-o', out, '-r', REPO + '/src/', '-r', VERIF + '/lib/tu/', f, '--'] + flags())
    p = out + '/' + f.replace('/', '_') + '.json'
    return f, p, r.returncode, r.stderr[-1500:]


class Fn:
    __slots__ = ('d', 'n', 'u', 'file', 'line', 'nodes', 'prog', '_parents', '_cfg', '_cache')

    def __init__(self, d, prog):
        self.d = d
        self.n = d['n']
        self.u = d['u']
        self.file = d['f']
        self.line = d['l']
        self.nodes = d['nodes']
        self.prog = prog
        self._parents = None
        self._cfg = None
        self._cache = {}

    @property
    def cls(self):
        return self.d.get('cls', '')

    @property
    def short(self):
        return self.n.split('::')[-1]

    @property
    def params(self):
        return self.d['params']

    def loc(self, nid=None):
        l = self.line if nid is None else self.nodes[nid]['l']
        return '%s:%d' % (rel(self.file), l)

    @property
    def parents(self):
        if self._parents is None:
            p = {}
            for i, n in enumerate(self.nodes):
                for c in n.get('c', ()):
                    if c >= 0 and c not in p:
                        p[c] = i
            self._parents = p
        return self._parents

    def kids(self, i):
        return [c for c in self.nodes[i].get('c', ()) if c >= 0]

    def walk(self, i=None):
        """node ids of the subtree, preorder"""
        st = [self.d['root']] if i is None else [i]
        if i is None:
            st = [x['e'] for x in self.d.get('inits', ())] + st
            st.reverse()
        seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(self.nodes[x].get('c', ())))

    def calls(self):
        c = self._cache.get('calls')
        if c is None:
            c = [i for i in self.walk() if 'fn' in self.nodes[i] or self.nodes[i]['k'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr')]
            self._cache['calls'] = c
        return c

    def ancestors(self, i):
        p = self.parents
        while i in p:
            i = p[i]
            yield i

    def __repr__(self):
        return '<Fn %s %s:%d>' % (self.n, rel(self.file), self.line)


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


class Prog:
    def __init__(self, units):
        self.units = units
        self.funcs = {}
        self.byname = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.protos = []
        self.over = {}
        self.failed = []

    def load(self, path):
        with open(path) as fh:
            d = json.load(fh)
        if d['errors']:
            self.failed.append(d['tu'])
        for f in d['funcs']:
            if f['u'] in self.funcs:
                continue
            fn = Fn(f, self)
            self.funcs[f['u']] = fn
            self.byname.setdefault(f['n'], []).append(fn)
            for o in f.get('ov', ()):
                self.over.setdefault(o, set()).add(f['u'])
        for r in d['records']:
            if r['n'] not in self.records:
                self.records[r['n']] = r
                for m in r['methods']:
                    for o in m.get('ov', ()):
                        self.over.setdefault(o, set()).add(m['u'])
        for e in d['enums']:
            self.enums.setdefault(e['n'], e)
        for g in d['globals']:
            if g['n'] not in self.globals or ('root' in g and 'root' not in self.globals[g['n']]):
                self.globals[g['n']] = g
        for p in d['protos']:
            self.protos.append(dict(p, tu=d['tu']))

    def fn(self, name, optional=False):
        """the single function (non template pattern) with this qualified name"""
        l = [f for f in self.byname.get(name, ()) if not f.d.get('dep')]
        if not l:
            if optional:
                return None
            raise Broken('anchor vanished: function ' + name)
        return l[0]

    def fns(self, name):
        return [f for f in self.byname.get(name, ()) if not f.d.get('dep')]

    def method_fns(self, cls):
        return [f for f in self.funcs.values() if f.cls == cls]

    def record(self, n):
        if n not in self.records:
            raise Broken('anchor vanished: class ' + n)
        return self.records[n]

    def enum(self, n):
        if n not in self.enums:
            raise Broken('anchor vanished: enum ' + n)
        return self.enums[n]

    def all_over(self, u):
        out, st = set(), [u]
        while st:
            x = st.pop()
            for o in self.over.get(x, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return out

    def targets(self, node):
        """function uids a call node can reach (class hierarchy analysis for virtual calls)"""
        u = node.get('fu')
        if not u:
            return []
        out = [u]
        if node.get('virt'):
            out += sorted(self.all_over(u))
        return out

    def callees(self, fn):
        c = fn._cache.get('callees')
        if c is None:
            c = set()
            for i in fn.calls():
                for t in self.targets(fn.nodes[i]):
                    c.add(t)
            for i in fn.walk():
                n = fn.nodes[i]
                if n['k'] == 'LambdaExpr':
                    c.update(n['fns'])
                elif n['k'] == 'DeclRefExpr' and n.get('dk') == 'func':
                    c.add(n['u'])
            fn._cache['callees'] = c
        return c

    def lambda_fns(self, node):
        return [self.funcs[u] for u in node['fns'] if u in self.funcs]

    def subclasses(self, cls):
        out, ch = set([cls]), True
        while ch:
            ch = False
            for n, r in self.records.items():
                if n not in out and any(b.split('<')[0] in out or b in out for b in r['bases']):
                    out.add(n)
                    ch = True
        return out


def load(units, extra_tus=()):
    """extract the given units (paths relative to src/helics, or absolute) and load them"""
    t0 = time.time()
    toolh = ensure_tool()
    ensure_gen()
    us = []
    for u in units:
        p = u if u.startswith('/') else SRC + '/' + u
        if not os.path.exists(p):
            raise Broken('anchor vanished: source file ' + u)
        us.append(p)
    for t in extra_tus:
        us.append(VERIF + '/lib/tu/' + t)
    key = tree_hash() + toolh
    cache = CACHE + '/' + key
    if not os.path.isdir(cache):
        old = sorted(glob.glob(CACHE + '/*'), key=os.path.getmtime)
        for o in old[:-3]:
            shutil.rmtree(o, ignore_errors=True)
    os.makedirs(cache, exist_ok=True)
    todo = [u for u in us if not os.path.exists(cache + '/' + u.replace('/', '_') + '.json')]
    bad = []
    if todo:
        todo.sort(key=lambda p: -os.path.getsize(p))
        tmp = cache + '/tmp.%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for f, p, rc, err in ex.map(_extract, [(u, tmp) for u in todo]):
                if not os.path.exists(p) or rc != 0:
                    bad.append((f, err))
                else:
                    os.replace(p, cache + '/' + os.path.basename(p))
        for f in glob.glob(tmp + '/*'):
            os.unlink(f)
        os.rmdir(tmp)
    if bad:
        raise Broken('%d unit(s) do not parse: %s' % (len(bad), '; '.join('%s: %s' % (rel(f), e[-600:]) for f, e in bad[:3])))
    prog = Prog([rel(u) for u in us])
    for u in us:
        prog.load(cache + '/' + u.replace('/', '_') + '.json')
    if prog.failed:
        raise Broken('units with errors: %s' % prog.failed[:3])
    prog.t_load = time.time() - t0
    return prog


def macros(path):
    """{name: (parameters or None, replacement text)} after preprocessing a source file"""
    ensure_gen()
    r = sh(['clang++', '-E', '-dM', '-x', 'c++'] + flags() + [SRC + '/' + path])
    if r.returncode:
        raise Broken('cannot preprocess ' + path)
    out = {}
    for l in r.stdout.splitlines():
        m = re.match(r'#define (\w+)(\([^)]*\))?\s*(.*)$', l)
        if m:
            out[m.group(1)] = (m.group(2), m.group(3).strip())
    return out


def stamp():
    """record that the extractor in place was built from the current sources (after tool/build.sh)"""
    src = open(VERIF + '/tool/hx.cpp', 'rb').read() + open(VERIF + '/tool/build.sh', 'rb').read()
    with open(BUILD + '/hx.stamp', 'w') as fh:
        fh.write(hashlib.sha256(src).hexdigest()[:16])
