"""Exhausted memory and files that cannot be opened are noticed before anything relies on them."""
from ir import *
from nullness import *

EXPLAIN = """Whole-program typestate over the IR of both build variants. Every result of an allocator (malloc, calloc, realloc, strdup and so on, and every function found to hand such a result on unchecked), of fopen() and of readline() is followed along
every path: before it is dereferenced, passed on or stored for later, it must have been compared with NULL. On the path where an allocation failed the program must end - with a non-zero status and a message on the error stream - and never return
or go on; where a file or line is missing, the missing object must not be used."""

ALLOC = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,), 'strdup': (), 'strndup': (), 'aligned_alloc': (1,), 'reallocarray': (1, 2)}
FILES = {'fopen': (), 'readline': (), 'fdopen': (), 'getenv': (), 'tmpfile': ()}
FREE = {'free', 'cfree'}


def check(ctx):
    ctx.rule('no use of an allocation, file or line before it was compared with NULL; a failed allocation ends the program with a message and a non-zero status')
    for defs in (('USE_READLINE',), ()):
        mod = ctx.mod if defs else ctx.module(defines=defs)
        ends = noreturn(mod)
        frees = set(FREE)
        src = {n: (s, True) for n, s in ALLOC.items()}
        src.update({n: (s, False) for n, s in FILES.items()})
        done = set()
        todo = True
        while todo:
            todo = False
            for f in mod.defined():
                for i in f:
                    if i.op != 'call' or i.callee() not in src or (f.name, i.id) in done or i.callee() == f.name:
                        continue
                    done.add((f.name, i.id))
                    todo = True
                    one(ctx, mod, f, i, src, ends, frees)
    ctx.need('allocations and openings', 8)


def one(ctx, mod, f, i, src, ends, frees):
    name = i.callee()
    sizes, alloc = src[name]
    ctx.count('allocations and openings')
    ctx.fns.add(f.name)
    what = '%s() uses the result of %s()' % (f.name, name)
    t = Track(mod, f, i, sizes)
    me = ('v', i.id)
    state = {'ended': 0}

    def use(x, st):
        how = 'dereferences' if x.op in ('load', 'store') else 'passes to %s()' % (x.callee() or 'a function')
        ctx.violation('unchecked:%s:%s' % (f.name, name), x.loc, '%s() %s the result of %s() (line %s), which %s' % (f.name, how, name, i.ln, STD[st]))
        return False

    def ret(x, st, returned):
        if returned == 'kept' and not alloc and st == 'null':
            return
        if st == 'ends':
            state['ended'] += 1
            if alloc:
                codes, wrote = failing_exits(mod, returned, ends) if returned not in ('exit', '_exit', '_Exit') else ({x.d['args'][0][1] if x.d['args'][0][0] == 'i' else None}, True)
                if 0 in codes:
                    ctx.violation('status:%s:%s' % (f.name, name), x.loc, '%s() ends the program with status 0 when %s() fails' % (f.name, name))
                elif not wrote:
                    ctx.violation('silent:%s:%s' % (f.name, name), x.loc, '%s() ends the program without a message when %s() fails' % (f.name, name))
            return
        if returned == 'kept':
            ctx.violation('kept:%s:%s' % (f.name, name), x.loc, '%s() keeps the result of %s() (line %s), which %s' % (f.name, name, i.ln, STD[st]))
            return
        if returned and st == 'unchecked':
            if f.name not in src:
                src[f.name] = ((), alloc)
                ctx.sample('%s() hands on unchecked results of %s()' % (f.name, name))
            return
        if st == 'null' and alloc:
            if returned and f.name not in src:
                src[f.name] = ((), alloc)       # callers have to check
            elif not returned:
                ctx.violation('goes on:%s:%s' % (f.name, name), x.loc, '%s() goes on when %s() (line %s) fails' % (f.name, name, i.ln))
    t.run(use, ret, ends, lambda c: c in frees)
    if len(ctx.samples) < 12:
        ctx.sample('%s: result of %s() followed, %d ends on failure' % (i.loc, name, state['ended']))
