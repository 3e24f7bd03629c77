"""The rule file as text: an independent reader, and trees of its rules by the reference grammar."""
import os
from catalog_spec import OPS as CAT
from refparse import Ref, Err, is_num

PROP = {('type', 'function'): (1, None, None), ('equal', 'function'): (2, None, None), ('==', 'infix'): (2, 1, 'left'), ('!=', 'infix'): (2, 1, 'left'), ('CONST', 'function'): (0, None, None),
        ('VAR', 'function'): (0, None, None), ('OP', 'function'): (0, None, None), ('>', 'infix'): (2, 1, 'left'), ('<', 'infix'): (2, 1, 'left'), ('>=', 'infix'): (2, 1, 'left'),
        ('<=', 'infix'): (2, 1, 'left'), ('||', 'infix'): (2, 0, 'left'), ('TRUE', 'function'): (0, None, None), ('FALSE', 'function'): (0, None, None), ('!', 'prefix'): (1, 4, None),
        ('count', 'function'): (None, None, None)}


def operators():
    ops = {k: v[:3] for k, v in CAT.items()}
    ops.update(PROP)
    return ops


class Malformed(Exception):
    pass


def read(text, limit=None):
    """sections of (line number, text of the rule); lines outside any section are listed apart"""
    sections, stray = [], []
    for k, ln in enumerate(text.split('\n'), 1):
        ln = ln.split('#')[0].lstrip(' ')
        if ln.startswith('RULESET'):
            if limit is not None and len(sections) == limit:
                break
            sections.append([])
        elif not ln:
            continue
        elif sections:
            sections[-1].append((k, ln))
        else:
            stray.append((k, ln))
    return sections, stray


class Rules:
    def __init__(self, tokens, ops=None, glue='*'):
        self.ops = ops or operators()
        self.ref = Ref(self.ops, glue)
        self.names = sorted({n for n, _ in self.ops})
        self.tokens = tokens

    def tree(self, s):
        try:
            return self.ref.parse(self.tokens(s, self.names))
        except (Err, IndexError, AssertionError) as e:
            raise Malformed('%s: %s' % (s, e))

    def rule(self, s):
        head, arrow, rest = s.partition('->')
        if not arrow:
            raise Malformed('no arrow in %s' % s)
        after, w, conds = rest.partition(' WHERE ')
        return self.tree(head), self.tree(after), [self.tree(c) for c in conds.split(' ; ')] if w else []


def variables(t, out=None):
    out = [] if out is None else out
    if t[0] == 'v':
        if t[1] not in out:
            out.append(t[1])
    elif t[0] == 'o':
        for c in t[3]:
            variables(c, out)
    return out


def is_list(v):
    return v.startswith('[') and v.endswith(']')


def show(t):
    if t[0] != 'o':
        return str(t[1])
    a = [show(c) for c in t[3]]
    if t[2] == 'infix':
        return '(%s%s%s)' % (a[0], t[1], a[1])
    if t[2] == 'prefix':
        return '%s(%s)' % (t[1], a[0])
    if t[2] == 'postfix':
        return '(%s)%s' % (a[0], t[1])
    return '%s(%s)' % (t[1], ', '.join(a)) if a or t[1] in ('sum', 'prod', 'count') else t[1]
