"""No effects besides the streams: files are only read, and only those that were named; results depend on nothing but input and history."""
import sys, os
from ir import *
import importlib
from p28 import Flow, addresses

EXPLAIN = """Whole-program effect analysis over the IR of both build variants: the call graph from main() and every function whose address is taken is closed over direct calls; every external function in it is classified by its effect. Functions that create,
change or remove files, run programs, talk to other processes or the network, change the environment, or write a history file must not occur; every mode passed to fopen() must be a constant that only reads; every path passed to fopen() must be a constant
or derive from the command line text that names it; output goes to stdout and stderr only; sources of arbitrary values (clock, random numbers, environment, process id) may only be used to seed the random numbers and by the functions the evaluator calls
for the documented random operator."""

FORBIDDEN = {'system', 'popen', 'execv', 'execve', 'execvp', 'execl', 'execlp', 'execle', 'fork', 'vfork', 'posix_spawn', 'posix_spawnp', 'clone', 'remove', 'unlink', 'unlinkat', 'rename', 'renameat', 'rmdir', 'mkdir', 'mkfifo', 'mknod', 'link', 'symlink', 'chmod', 'fchmod', 'chown', 'truncate',
             'ftruncate', 'creat', 'tmpfile', 'tmpnam', 'mkstemp', 'mkdtemp', 'mktemp', 'kill', 'raise', 'socket', 'connect', 'bind', 'setenv', 'putenv', 'unsetenv', 'dlopen', 'write_history', 'append_history', 'history_truncate_file', 'chdir', 'fchdir', 'chroot', 'setuid', 'setgid', 'shm_open', 'mount',
             'utime', 'utimes', 'settimeofday', 'setlocale', 'syslog', 'gets', 'signal', 'sigaction', 'setrlimit', 'rl_read_init_file', 'rl_system'}
ARBITRARY = {'rand', 'random', 'drand48', 'lrand48', 'rand_r', 'getrandom', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'getenv', 'secure_getenv', 'getpid', 'getppid', 'gethostname', 'getcwd', 'getuid', 'localtime', 'gmtime', 'times', 'getrusage'}
SEED = {'srand', 'srandom', 'srand48'}


def check(ctx):
    ctx.rule('no forbidden effect reachable; files opened with constant reading modes and named paths; arbitrary values only for seeding and the random operator')
    for defs in (('USE_READLINE',), ()):
        mod = ctx.mod if defs else ctx.module(defines=defs)
        F = Flow(mod)
        todo = ['main'] + sorted(addresses(mod))
        seen = set()
        via = {}
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            f = mod.functions.get(n)
            if f is None or f.decl:
                continue
            ctx.fns.add(n)
            ctx.count('functions')
            for i in f:
                if i.op != 'call':
                    continue
                c = i.callee()
                if c is None:
                    continue
                if c not in seen:
                    via.setdefault(c, n)
                    todo.append(c)
                g = mod.functions.get(c)
                if g is not None and not g.decl:
                    continue
                ctx.count('external calls')
                if c in FORBIDDEN:
                    ctx.violation('effect:%s:%s' % (n, c), i.loc, '%s() calls %s() (reached through %s)' % (n, c, path(via, n)))
                elif c in ('fopen', 'fopen64', 'freopen', 'fdopen', 'open', 'open64', 'openat'):
                    opening(ctx, mod, F, f, i, c)
                elif c in ('fprintf', 'vfprintf', 'fputs', 'fputc', 'putc', 'fwrite'):
                    k = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3}[c]
                    for o in stream(mod, f, i.d['args'][k]):
                        if o not in ('stdout', 'stderr', 'parameter', 'unknown'):
                            ctx.violation('stream:%s:%s' % (n, c), i.loc, '%s() writes to %s' % (n, o))
                elif c in ARBITRARY:
                    arbitrary(ctx, mod, f, i, c)
    ctx.need('functions', 250)
    ctx.need('external calls', 300)


def path(via, n):
    out = [n]
    while n in via and len(out) < 12:
        n = via[n]
        out.append(n)
    return ' < '.join(out)


def stream(mod, f, v):
    if v[0] == 'a':
        yield 'parameter'
    elif v[0] == 'g':
        yield v[1]
    elif v[0] == 'v' and f.insts[v[1]].op == 'load' and f.insts[v[1]].d['p'][0] == 'g':
        yield f.insts[v[1]].d['p'][1]
    elif v[0] == 'v' and f.insts[v[1]].op == 'call':
        c = f.insts[v[1]].callee()
        yield 'a file it opened with %s()' % c if c in ('fopen', 'freopen', 'fdopen') else 'unknown'
    else:
        yield 'unknown'


def opening(ctx, mod, F, f, i, c):
    ctx.count('openings')
    if c in ('open', 'open64', 'openat'):
        k = 2 if c == 'openat' else 1
        fl = i.d['args'][k]
        if fl[0] != 'i' or fl[1] & 3 != 0 or fl[1] & 0o1100:
            ctx.violation('mode:%s' % f.name, i.loc, '%s() opens a file with flags that do not only read' % f.name)
        return
    modes = list(F.origins(f, i.d['args'][1]))
    for o in modes:
        if o[0] != 'text':
            ctx.undecide('%s: mode of %s() is %s' % (i.loc, c, o))
        elif not (o[1].startswith('r') and '+' not in o[1]):
            ctx.violation('mode:%s' % f.name, i.loc, '%s() opens a file with mode "%s", which does not only read' % (f.name, o[1]))
    ctx.sample('%s: %s() with mode %s' % (i.loc, c, modes))


def arbitrary(ctx, mod, f, i, c):
    """the value may only reach a seeding function, or the function is one the evaluator calls for its random operator"""
    ctx.count('arbitrary values')
    users, work = set(), [i.id]
    seen = set()
    only_seed = True
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for x in f:
            if not uses(x, v):
                continue
            if x.op == 'call' and x.callee() in SEED:
                continue
            if x.op in ('trunc', 'zext', 'sext', 'add', 'xor', 'and', 'bitcast', 'phi', 'mul', 'sub', 'or', 'shl', 'select'):
                work.append(x.id)
                continue
            only_seed = False
    if only_seed:
        return
    # every way from main() to here must pass through the evaluator of operators
    if 'arith_op_evaluate' not in mod.functions:
        return ctx.undecide('%s: cannot tell the random operator apart' % i.loc)
    if not reachable_without(mod, f.name, 'arith_op_evaluate'):
        return
    ctx.violation('arbitrary:%s:%s' % (f.name, c), i.loc, '%s() uses a value of %s() outside the random operator' % (f.name, c))


def uses(x, v):
    def has(o):
        if isinstance(o, list):
            return o[:2] == ['v', v] or any(has(y) for y in o)
        return False
    return any(has(o) for k, o in x.d.items() if k not in ('id',))


def reachable_without(mod, target, gate):
    seen, work = set(), ['main'] + [a for a in addresses(mod) if a != gate]
    while work:
        n = work.pop()
        if n in seen or n == gate:
            continue
        seen.add(n)
        f = mod.functions.get(n)
        if f is None or f.decl:
            continue
        for i in f:
            if i.op == 'call' and i.callee():
                work.append(i.callee())
    return target in seen
