"""Loading of the dumped IR: builds it from /repo's current tree and wraps the JSON."""
import hashlib, json, os, shutil, struct, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin'
CACHE = os.path.join(VERIF, 'build')


class AnalysisBroken(Exception):
    """The check cannot decide (anchor vanished, zero instances, tool failure): error exit."""


def tool_path():
    p = os.path.join(CACHE, 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        os.makedirs(CACHE, exist_ok=True)
        flags = subprocess.check_output([LLVM + '/llvm-config', '--cxxflags'], text=True).split()
        flags = [f for f in flags if f != '-fno-exceptions']
        tmp = p + '.%d' % os.getpid()
        subprocess.check_call(['g++', '-O1', '-w'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.replace(tmp, p)
    return p


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        out += [os.path.join(d, f) for f in fs]
    return sorted(out)


def build_ir(defines=('USE_READLINE',), passes='function(sroa)', exclude=(), repo=None, extra=()):
    """Compiles every translation unit under src/ with the release flags, links, and returns the dumped module."""
    repo = repo or REPO
    irdump = tool_path()
    tmp = tempfile.mkdtemp(prefix='vf_ir_')
    try:
        incs = ['-I' + d for d, _, _ in os.walk(os.path.join(repo, 'src'))]
        cs = [f for f in sources(repo) if f.endswith('.c') and os.path.relpath(f, repo) not in exclude]
        if not cs:
            raise AnalysisBroken('no C sources under %s/src' % repo)

        def comp(f):
            o = os.path.join(tmp, hashlib.sha1(f.encode()).hexdigest() + '.bc')
            cmd = ['clang', '-std=c99', '-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                   '-DINSTALL_PATH="/etc/ccalc"'] + ['-D' + d for d in defines] + incs + list(extra) + ['-emit-llvm', '-c', f, '-o', o]
            r = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
            return o, r
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(comp, cs))
        for o, r in rs:
            if r.returncode:
                raise AnalysisBroken('compilation failed:\n' + r.stderr[-2000:])
        allbc = os.path.join(tmp, 'all.bc')
        subprocess.check_call([LLVM + '/llvm-link'] + [o for o, _ in rs] + ['-o', allbc])
        opt = os.path.join(tmp, 'opt.bc')
        subprocess.check_call([LLVM + '/opt', '-passes=' + passes, allbc, '-o', opt])
        out = subprocess.run([irdump, opt], capture_output=True)
        if out.returncode:
            raise AnalysisBroken('irdump failed: ' + out.stderr.decode()[-500:])
        return Module(json.loads(out.stdout), [os.path.relpath(c, repo) for c in cs])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Inst:
    __slots__ = ('id', 'op', 'ty', 'sz', 'ln', 'nm', 'd', 'fn', 'blk')

    def __init__(self, d, fn, blk):
        self.d = d
        self.id = d['id']
        self.op = d['op']
        self.ty = d['ty']
        self.sz = d['sz']
        self.ln = d.get('ln', 0)
        self.nm = d.get('nm')
        self.fn = fn
        self.blk = blk

    def __repr__(self):
        return '<%s:%s %s %s>' % (self.fn.name, self.ln, self.op, self.id)

    @property
    def loc(self):
        return '%s:%s (%s)' % (self.fn.file, self.ln, self.fn.name)

    def callee(self):
        if self.op == 'call' and self.d['f'][0] == 'F':
            return self.d['f'][1]
        return None


class Function:
    def __init__(self, name, d, mod):
        self.name = name
        self.d = d
        self.mod = mod
        self.args = d['args']
        self.argnames = d.get('argnames', [a[0] for a in d['args']])
        self.ret = d['ret']
        self.decl = bool(d['decl'])
        self.vararg = bool(d['vararg'])
        self.internal = bool(d['internal'])
        self.noreturn = bool(d['noreturn'])
        f = d.get('file', '')
        i = f.find('/src/')
        self.file = f[i + 1:] if i >= 0 else f
        self.line = d.get('line', 0)
        self.blocks = []
        if not self.decl:
            self.blocks = [[Inst(i, self, bi) for i in b] for bi, b in enumerate(d['blocks'])]
        self.insts = {i.id: i for b in self.blocks for i in b}

    def __iter__(self):
        for b in self.blocks:
            for i in b:
                yield i

    def succs(self, bi):
        t = self.blocks[bi][-1]
        if t.op == 'br':
            return t.d['s']
        if t.op == 'switch':
            return [t.d['d']] + [c[1] for c in t.d['cases']]
        return []

    def calls(self, *names):
        for i in self:
            if i.op == 'call' and (not names or i.callee() in names):
                yield i


class Module:
    def __init__(self, j, units):
        self.units = units
        self.functions = {n: Function(n, d, self) for n, d in j['functions'].items()}
        self.globals = j['globals']
        self.structs = {}
        self.enums = {}
        self.enumconst = {}
        for s in j['structs']:
            if s['tag'] == 4:  # enumeration
                self.enums[s['name']] = {m[0]: m[1] for m in s['members']}
                for m in s['members']:
                    self.enumconst[m[0]] = m[1]
            else:
                self.structs[s['name']] = s
        self._callers = None

    def defined(self):
        return [f for f in self.functions.values() if not f.decl]

    def fn(self, name):
        f = self.functions.get(name)
        if f is None or f.decl:
            raise AnalysisBroken('anchor function %s() not found' % name)
        return f

    def field(self, struct, member):
        """(offset, size) of a struct member, by name, from the debug information"""
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken('anchor struct %s not found' % struct)
        for m in s['members']:
            if m[0] == member:
                return m[1], m[2]
        raise AnalysisBroken('anchor member %s.%s not found' % (struct, member))

    def has_field(self, struct, member):
        s = self.structs.get(struct)
        return s is not None and any(m[0] == member for m in s['members'])

    def sizeof(self, struct):
        s = self.structs.get(struct)
        if s is None:
            raise AnalysisBroken('anchor struct %s not found' % struct)
        return s['size']

    def gstr(self, name, off=0):
        """C string stored in a constant global, or None"""
        g = self.globals.get(name)
        if g is None:
            return None
        if 'str' in g:
            s = g['str']
            e = s.find('\0', off)
            return s[off:e if e >= 0 else None]
        if g.get('const') and 'init' in g and not g['init']:
            return ''
        return None

    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.defined():
                for i in f:
                    if i.op == 'call':
                        c = i.callee()
                        if c:
                            self._callers.setdefault(c, []).append(i)
        return self._callers


def deep(fn, *args):
    """fn(*args) with one large interpreter stack chunk (otherwise deep recursion maps and unmaps a chunk at every boundary crossing)"""
    return fn(*args)


deep.__code__ = deep.__code__.replace(co_stacksize=140000)
