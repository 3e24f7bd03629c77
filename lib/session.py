"""The calculator as a session: its commands are abstractly interpreted in the state earlier commands left, with files, terminal and environment modelled."""
from model import *


class Session(Suite):
    """files: path -> list of lines (with line ends) or None when it cannot be opened"""
    def __init__(self, ctx, files=None, tty=False, init=True, **kw):
        kw.setdefault('max_depth', 600)
        Suite.__init__(self, ctx, **kw)
        self.files = dict(files or {})
        self.tty = tty
        I = self.I
        I.flat_numbers = True
        I.rec_depth = 500
        I.max_states = 3000
        m = I.models
        m['fopen'] = self.fopen
        m['fclose'] = self.fclose
        m['getline'] = self.getline
        m['getdelim'] = lambda I, st, fr, inst, a: self.getline(I, st, fr, inst, [a[0], a[1], a[3]]) if a[2] == ci(10, 32) else [(st, I.fresh(st, 'getdelim'))]
        m['readline'] = self.readline
        m['add_history'] = lambda I, st, fr, inst, a: [(st, UNDEF)]
        for n in ('rl_bind_key', 'rl_initialize', 'using_history', 'clear_history', 'rl_clear_history'):
            m.setdefault(n, lambda I, st, fr, inst, a: [(st, ci(0, 32))])
        m['isatty'] = lambda I, st, fr, inst, a: [(st, ci(1 if self.tty and a[0] == ci(0, 32) else 0, 32))]
        m['time'] = lambda I, st, fr, inst, a: [(st, ('sym', 'time'))]
        m['srand'] = lambda I, st, fr, inst, a: [(st, UNDEF)]
        m['strerror'] = lambda I, st, fr, inst, a: [(st, ('p', ('str', 'strerror'), 0))]
        m['atexit'] = self.atexit
        m['fflush'] = lambda I, st, fr, inst, a: [(st, ci(0, 32))]
        m['__errno_location'] = self.errno
        self.base = None
        if init:
            st = self.P.state()
            r = self.call(st, 'start-up', 'init_commands')
            if r is None:
                return
            st = r[0]
            st.ev = None
            self.base = st

    # ----- environment
    def errno(self, I, st, fr, inst, a):
        r = ('alloca', 'errno', 0, 'errno')
        if r not in st.mem:
            st.mem[r] = {0: (4, ci(2, 32))}
            st.shared.discard(r)
        return [(st, ('p', r, 0))]

    def atexit(self, I, st, fr, inst, a):
        st.info['atexit'] = st.info.get('atexit', ()) + (a[0],)
        return [(st, ci(0, 32))]

    def fopen(self, I, st, fr, inst, a):
        i = I.readstr(st, fr, inst, a[0])
        path = i[1] if i[0] == 'lit' else None
        st.event('open', path)
        if self.files.get(path) is None:
            return [(st, NULL)]
        k = st.info.get('nfiles', 0)
        st.info['nfiles'] = k + 1
        st.info[('file', k)] = (path, 0, True)
        r = ('alloca', 'file', k, 'file')
        st.mem[r] = {}
        return [(st, ('p', r, 0))]

    def fkey(self, I, v):
        s = I.stream(v)
        if s == 'stdin':
            return 'stdin'
        return s[1][2] if s[0] == 'p' and s[1][:2] == ('alloca', 'file') else None

    def fclose(self, I, st, fr, inst, a):
        k = self.fkey(I, a[0])
        if k is None or k == 'stdin':
            if a[0] == NULL:
                raise Fault('null stream', 'fclose(NULL)', inst)
            return [(st, ci(0, 32))]
        path, pos, open_ = st.info[('file', k)]
        if not open_:
            raise Fault('stream closed twice', 'fclose() of a closed stream', inst)
        st.info[('file', k)] = (path, pos, False)
        st.event('close', path)
        return [(st, ci(0, 32))]

    def getline(self, I, st, fr, inst, a):
        k = self.fkey(I, a[2])
        if k is None:
            if a[2] == NULL:
                raise Fault('null stream', 'getline() on NULL', inst)
            return NotImplemented
        if k == 'stdin':
            path, pos, open_ = 'stdin', st.info.get(('pos', 'stdin'), 0), True
        else:
            path, pos, open_ = st.info[('file', k)]
        if not open_:
            raise Fault('read of closed stream', 'getline() on a closed stream', inst)
        lines = self.files.get(path) or []
        buf = I.load(st, a[0], 8, 'ptr')
        line = lines[pos] if pos < len(lines) else None
        n = max(120, len(line) + 1 if line is not None else 0)
        if buf == UNDEF:
            raise Fault('uninitialised buffer', 'getline() with an uninitialised line pointer', inst)
        if buf != NULL:
            I.free(st, fr, inst, buf)
        b = I.alloc(st, inst, ci(n, 64), 'undef')
        I.store(st, a[0], b, 8)
        I.store(st, a[1], ci(n, 64), 8)
        if line is None:
            return [(st, ci((1 << 64) - 1, 64))]
        for j, c in enumerate(line + '\0'):
            st.cells(b[1], True)[j] = (1, ci(ord(c) & 255, 8))
        if k == 'stdin':
            st.info[('pos', 'stdin')] = pos + 1
        else:
            st.info[('file', k)] = (path, pos + 1, True)
        return [(st, ci(len(line), 64))]

    def readline(self, I, st, fr, inst, a):
        pos = st.info.get(('pos', 'stdin'), 0)
        lines = self.files.get('stdin') or []
        if pos >= len(lines):
            return [(st, NULL)]
        st.info[('pos', 'stdin')] = pos + 1
        line = lines[pos].rstrip('\n')
        b = I.alloc(st, inst, ci(len(line) + 1, 64), 'undef')
        for j, c in enumerate(line + '\0'):
            st.cells(b[1], True)[j] = (1, ci(ord(c) & 255, 8))
        return [(st, b)]

    def open_files(self, st):
        return [v[0] for k, v in st.info.items() if isinstance(k, tuple) and k[0] == 'file' and v[2]]

    # ----- output
    def text(self, st, stream):
        """what was written to a stream since the event list was cleared; pieces that are not literal become '<...>'"""
        out = ''
        for e in st.events():
            if e[0] == 'out' and e[1] == stream:
                for p in e[2]:
                    f = self.I.flat((p,))
                    out += f if f is not None else p[1] if p[0] == 't' else '<%s>' % (p[1][1] if p[0] == 's' and len(p[1]) > 1 and isinstance(p[1][1], str) else short(p[-1])[:60])
        return out

    def streams(self, st):
        return {e[1] for e in st.events() if e[0] == 'out'}

    def faults(self, what):
        # commands are concrete: a branch that could not be decided means lost precision, and what is found behind it proves nothing
        if self.I.nforks and self.I.faults:
            k, d, inst, s, stack = self.I.faults[-1]
            self.ctx.undecide('%s: %s (%s) in %s on one of several paths' % (what, k, d, ' > '.join(stack)))
            n = len(self.I.faults)
            self.I.faults.clear()
            return n
        return super().faults(what)

    # ----- commands
    def cmd(self, st, text, what=None):
        """(state, succeeded, stdout, stderr) or None"""
        st = st.copy()
        st.ev = None
        r = self.call(st, what or '"%s"' % text, 'exec_command', self.P.lit(st, text))
        if r is None:
            return None
        s, v = r
        ok = v[1] & 1 if v[0] == 'c' else v
        return s, ok, self.text(s, 'stdout'), self.text(s, 'stderr')

    def cmds(self, st, texts, what=None):
        for t in texts:
            r = self.cmd(st, t, what)
            if r is None:
                return None
            st = r[0]
        return st

    def interactive(self, st, on):
        r = self.call(st.copy(), 'set_interactive', 'set_interactive', ci(1 if on else 0, 1))
        return r[0] if r else None

    def feed(self, st, lines, what, stdin='stdin'):
        """process_input() on lines typed in: (state, verdict or ('exit', status), stdout, stderr) or None"""
        self.files['stdin'] = list(lines)
        st = st.copy()
        st.ev = None
        st.info[('pos', 'stdin')] = 0
        I, P = self.I, self.P
        I.exits.clear()
        I.faults.clear()
        I.cut = 0
        try:
            ex = P.run(st, 'process_input', I.load(st, ('p', ('glob', 'stdin'), 0), 8, 'ptr'))
        except PathLimit as e:
            self.ctx.undecide('%s: %s' % (what, e))
            self.I.faults.clear()
            return None
        self.ctx.count('operations')
        if self.faults(what):
            return None
        ends = [(e.state, e.ret) for e in ex] + [(s, ('exit', s.info.get('exit_code'))) for s in I.exits]
        I.exits.clear()
        if len(ends) != 1:
            if not ends and not I.nforks and I.cut:
                self.ctx.violation('process_input:endless', self.where('process_input'), '%s does not come to an end' % what)
            self.ctx.undecide('%s: %d paths' % (what, len(ends)))
            return None
        s, v = ends[0]
        v = v[1] & 1 if v[0] == 'c' else ('exit', v[1][1] & 255) if v[0] == 'exit' and v[1] and v[1][0] == 'c' else v
        return s, v, self.text(s, 'stdout'), self.text(s, 'stderr')

    def is_interactive(self, st):
        v = self.P.call(st.copy(), 'is_interactive')[1]
        return v[1] & 1 if v[0] == 'c' else v

    def main(self, args, stdin=(), tty=False, files=None, what=None, release=True):
        """one run of the program: (exit status, stdout, stderr, state at exit) or None when it cannot be decided"""
        what = what or 'ccalc %s' % ' '.join(args)
        self.tty = tty
        self.files = dict(files or {})
        self.files['stdin'] = list(stdin)
        I, P = self.I, self.P
        st = P.state()
        argv = P.local(st, 'argv', size=8 * (len(args) + 2))
        for k, a in enumerate(['ccalc'] + list(args)):
            st.mem[argv[1]][8 * k] = (8, P.lit(st, a))
        st.mem[argv[1]][8 * (len(args) + 1)] = (8, NULL)
        I.exits.clear()
        I.faults.clear()
        I.cut = 0
        try:
            ex = P.run(st, 'main', ci(len(args) + 1, 32), argv)
        except PathLimit as e:
            self.ctx.undecide('%s: %s' % (what, e))
            self.I.faults.clear()
            return None
        self.ctx.count('operations')
        if self.faults(what):
            return None
        ends = [(e.state, e.ret) for e in ex] + [(s, s.info.get('exit_code')) for s in I.exits]
        if len(ends) != 1:
            if not ends and not I.nforks and I.cut:
                self.ctx.violation('main:endless', self.where('main'), '%s does not come to an end' % what)
            self.ctx.undecide('%s: %d paths' % (what, len(ends)))
            return None
        s, code = ends[0]
        I.exits.clear()
        out, err = self.text(s, 'stdout'), self.text(s, 'stderr')
        if code is None or code[0] != 'c':
            self.ctx.undecide('%s: exit status %s' % (what, short(code)))
            return None
        if release:
            for h in reversed(s.info.get('atexit', ())):
                if h[0] == 'fn':
                    r = self.call(s, what + ' (at exit)', h[1].lstrip('@'))
                    if r is None:
                        return None
                    s = r[0]
        return code[1] & 255, out, err, s

    def glob(self, name):
        return ('p', ('glob', name), 0)

    # ----- observation
    def ops(self, st):
        """registered operators: (name, placement, arity, precedence, id) in registration order"""
        st = st.copy()
        mod = self.ctx.mod
        C = self.glob('__g_ctx')
        off = mod.field('ParsingContext', 'op_list')[0]
        L = self.I.ptradd(st, C, ci(off, 64))
        n = self.I.load(st, self.I.ptradd(st, L, ci(mod.field('LinkedList', 'first')[0], 64)), 8, 'ptr')
        out = []
        while n != NULL and len(out) < 200:
            d = self.P.call(st, 'listnode_get_data', n)[1]
            nm = self.I.sid(st, self.P.get(st, 'Operator', d, 'name', 'ptr'))
            out.append((nm[1],) + tuple(self.P.get(st, 'Operator', d, f)[1] for f in ('placement', 'arity', 'precedence')) + (d,))
            n = self.P.call(st, 'listnode_get_next', n)[1]
        return out

    def history(self, st):
        """stored results, latest first"""
        out = []
        st = st.copy()
        o = self.P.local(st, 'value', 'undef', 8)
        for k in range(60):
            s, v = self.P.call(st.copy(), 'history_get', ci(k, 64), o)
            if v[0] != 'c' or not v[1] & 1:
                break
            out.append(self.I.load(s, o, 8, 'f64'))
        return out
