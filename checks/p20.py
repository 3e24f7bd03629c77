"""The shipped rewrite rules are identities."""
import os
from ir import REPO
from model import parallel
import absint
from p23 import reference
from ruleset import Rules, Malformed, read, show, variables, is_list

EXPLAIN = """Every rule of the shipped rule file is read by an independent reader and parsed by the reference grammar. Both sides are interpreted over the reals - list variables standing for no, one or two
operands in every arrangement, conditions selecting the cases in which the rule applies, derivative rules over unknown functions of the variable - and their difference is brought to normal form,
once with all quantities positive and exponents unknown, and once per cell of a partition of signs and exponents (even, odd, negative, fractional, zero). A rule is reported when the difference is
not zero at a point of a cell on which both sides are defined, or when the right side is undefined where the left side is defined."""

RULE = 'wherever the conditions hold and the left side is defined, both sides of the rule have the same value'


def work(ctx, items):
    import identity
    for sec, k, line, text, rule, earlier in items:
        if absint.late():
            ctx.undecide('%s: out of time' % text)
            continue
        n = seen = 0
        for generic, env in identity.cells(rule, earlier, ctx.thorough):
            if absint.late():
                break
            seen += 1
            r = identity.decide(rule, generic, env)
            ctx.count('cells')
            where = 'simplification.ruleset:%d' % line
            desc = ', '.join('%s=%s' % (v, x) for v, x in env.items())
            if r[0] == 'same':
                n += 1
                ctx.count('cells_decided')
            elif r[0] == 'void':
                n += 1
                ctx.count('cells_undefined')
            elif r[0] == 'differ':
                ctx.violation('rule:%s' % text.replace(' ', ''), where, 'the rule "%s" changes the value for %s: %s' % (text.strip(), desc, r[1]))
                n += 1
            elif r[0] == 'narrow':
                ctx.violation('undefined:%s' % text.replace(' ', ''), where, 'the rule "%s" makes a defined expression undefined for %s: %s' % (text.strip(), desc, r[1]))
                n += 1
            else:
                ctx.undecide('%s with %s: %s' % (text.strip(), desc, r[1]))
        if n:
            ctx.count('rules_decided')
            ctx.sample('line %d: %s' % (line, text.strip()))
        elif not seen:
            ctx.count('rules_never_reached')
        else:
            ctx.undecide('no case of "%s" was decided' % text.strip())


def check(ctx):
    ctx.rule(RULE)
    ctx.mod
    path = os.path.join(REPO, 'simplification.ruleset')
    sections, stray = read(open(path).read())
    R = Rules(reference)
    items = []
    for si, sec in enumerate(sections):
        earlier = []
        for line, text in sec:
            ctx.count('rules')
            try:
                rule = R.rule(text)
            except Malformed as e:
                ctx.violation('malformed:%s' % text.replace(' ', ''), 'simplification.ruleset:%d' % line, 'the rule is malformed: %s' % e)
                continue
            unbound = [v for v in variables(rule[1]) if v not in variables(rule[0])]
            if unbound:
                ctx.violation('unbound:%s' % text.replace(' ', ''), 'simplification.ruleset:%d' % line, 'the right side uses %s, which the left side does not bind' % unbound)
                continue
            items.append((si, len(earlier), line, text, rule, list(earlier)))
            earlier.append(rule)
    parallel(ctx, work, items)
    ctx.need('rules', 60)
    ctx.need('rules_decided', 60)
