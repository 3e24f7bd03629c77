"""Failing expressions: text, column and length of the offending token, and the reason, by construction."""

DIV, CPX, HIS = 'division by zero', 'complex', 'history'
# computations that fail: text, offset of the failing operator, its length, reason
EVAL = [('1/0', 1, 1, DIV), ('1/(2-2)', 1, 1, DIV), ('(0-1)^0.5', 5, 1, CPX), ('sqrt(0-4)', 0, 4, CPX), ('@40', 0, 1, HIS), ('@(30+2)', 0, 1, HIS), ('7 mod 4/0', 7, 1, DIV), ('0^(0-1)', 1, 1, DIV), ('(3-3*1)/(1-1)', 7, 1, DIV),
        ('(1/0+2)*3', 2, 1, DIV), ('root(0-4,2)', 0, 4, CPX)]
CTX = [('', ''), ('2+', ''), ('', '-1'), ('2*3+', '-4'), ('(', ')'), ('max(1,', ',2)'), ('-(', ')'), ('3-(', ')*2'), ('x+', ''), ('x*y-(', ')+z'), ('  ', ' '), ('sqrt(1+(', '))'), ('2^(', ')'), ('(' * 6, ')' * 6), ('foo_bar_baz+' * 4, ''), ('1+' * 30, '+1' * 5), ('sum(1,2,x,', ')')]
# texts that do not parse: text, offset and length of the offending token, reason, may text follow
SYN = [('2+', 2, 1, 'end', 0), ('', 0, 1, 'end', 0), ('   ', 3, 1, 'end', 0), ('2*(', 3, 1, 'end', 0), ('sin(', 4, 1, 'end', 0), ('max(1,', 6, 1, 'end', 0), ('-', 1, 1, 'end', 0), ('2+-', 3, 1, 'end', 0),
       ('(1+2', 4, 1, 'missing closing', 0), ('((1)', 4, 1, 'missing closing', 0), ('max(1,2', 7, 1, 'missing closing', 0), ('2*(3', 4, 1, 'missing closing', 0), ('sin(x', 5, 1, 'missing closing', 0),
       ('2+3)', 3, 1, 'unexpected closing', 1), (')', 0, 1, 'unexpected', 1), ('(1))', 3, 1, 'unexpected closing', 1), ('sin(1))', 6, 1, 'unexpected closing', 1),
       ('1,2', 1, 1, 'delimiter', 1), ('2+3,', 3, 1, 'delimiter', 1), ('(1,2)', 2, 1, 'delimiter', 1), ('sin((1,2))', 6, 1, 'delimiter', 1),
       ('sin(1,2)', 0, 3, 'number of operands', 2), ('sin()', 0, 3, 'number of operands', 2), ('log(1)', 0, 3, 'number of operands', 2), ('log(1,2,3)', 0, 3, 'number of operands', 2),
       ('sin 5', 4, 1, 'opening paren', 1), ('sin+1', 3, 1, 'opening paren', 1), ('max', 3, 1, 'opening paren', 0), ('sin', 3, 1, 'opening paren', 0),
       ('1 & 2', 2, 1, 'character', 1), ('3 4 &', 4, 1, 'character', 1), ('&', 0, 1, 'character', 1), ('"', 0, 1, 'character', 1), ('x:y', 1, 1, 'character', 1), ('7~', 1, 1, 'character', 1)]
SYN_CTX = [('', ''), ('7*(2-1)+', ''), (' ', ''), ('', '+1'), ('4+', ' 5 & 6'), ('foo_bar_baz+' * 4, ''), ('-', '*2')]


def texts():
    """(text, column, length, reason, is it a failing computation)"""
    seen = set()
    for core, off, ln, why in EVAL:
        for a, b in CTX:
            if core[0] == '@' and b[:1] == '!':
                continue
            t = a + core + b
            if t not in seen:
                seen.add(t)
                yield t, len(a) + off, ln, why, True
    for core, off, ln, why, more in SYN:
        for a, b in SYN_CTX:
            if b and not more:
                continue
            if more == 2 and b.strip().startswith('5'):
                continue
            if a and not core.strip():
                if a != ' ' and not a.endswith('+') and not a.endswith('-'):
                    continue
            if core == ')' and a:
                continue
            t = a + core + b
            if t not in seen:
                seen.add(t)
                yield t, len(a) + off, ln, why, False
