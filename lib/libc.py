"""More of the C library on known texts: behaviour fixed by the standard, so that code may use any of these functions."""
from absint import *

KINDS = {'isspace': lambda c: c in ' \t\n\v\f\r', 'isdigit': lambda c: '0' <= c <= '9', 'isalpha': lambda c: 'a' <= c.lower() <= 'z' and ord(c) < 128,
         'isalnum': lambda c: ord(c) < 128 and c.isalnum(), 'isupper': lambda c: 'A' <= c <= 'Z', 'islower': lambda c: 'a' <= c <= 'z', 'isxdigit': lambda c: ord(c) < 128 and c in '0123456789abcdefABCDEF',
         'isblank': lambda c: c in ' \t', 'iscntrl': lambda c: ord(c) < 32 or ord(c) == 127, 'isprint': lambda c: 32 <= ord(c) < 127, 'isgraph': lambda c: 32 < ord(c) < 127,
         'ispunct': lambda c: 32 < ord(c) < 127 and not c.isalnum()}
BITS = ['isupper', 'islower', 'isalpha', 'isdigit', 'isxdigit', 'isspace', 'isprint', 'isgraph', 'isblank', 'iscntrl', 'ispunct', 'isalnum']


def table(st, name, width, value):
    """pointer to a pointer into the middle of a table for -128..255"""
    r, q = ('alloca', name, 0, name), ('alloca', name + '_loc', 0, name)
    if r not in st.mem:
        st.mem[r] = {(k + 128) * width: (width, ci(value(k & 255) & ((1 << 8 * width) - 1), 8 * width)) for k in range(-128, 256)}
        st.mem[q] = {0: (8, ('p', r, 128 * width))}
        st.shared.discard(r)
        st.shared.discard(q)
    return ('p', q, 0)


def mask(k):
    m = 0
    for bit, n in enumerate(BITS):
        if k < 128 and KINDS[n](chr(k)):
            m |= (1 << bit) << 8 if bit < 8 else (1 << bit) >> 8
    return m


def order(a, b):
    return ci(0 if a == b else 1 if a > b else 0xffffffff, 32)


def call(I, st, fr, inst, name, args):
    """results of a call, or None when this function (or this use of it) is not covered"""
    R = lambda v: [(st, v)]
    text = lambda k: I.readstr(st, fr, inst, args[k])
    at = lambda k, off: I.ptradd(st, args[k], ci(off, 64))
    if name == '__ctype_b_loc':
        return R(table(st, 'ctype_b', 2, mask))
    if name == '__ctype_tolower_loc':
        return R(table(st, 'ctype_lower', 4, lambda k: k + 32 if 65 <= k <= 90 else k))
    if name == '__ctype_toupper_loc':
        return R(table(st, 'ctype_upper', 4, lambda k: k - 32 if 97 <= k <= 122 else k))
    if name in KINDS and args[0][0] == 'c':
        return R(ci(int(args[0][1] < 256 and bool(KINDS[name](chr(args[0][1])))), 32))
    if name in ('tolower', 'toupper') and args[0][0] == 'c':
        k = args[0][1]
        if name == 'tolower':
            return R(ci(k + 32 if 65 <= k <= 90 else k, 32))
        return R(ci(k - 32 if 97 <= k <= 122 else k, 32))
    if name in ('strchr', 'strrchr', 'strchrnul', 'index', 'rindex'):
        a = text(0)
        if a[0] == 'lit' and args[1][0] == 'c':
            s, c = a[1] + '\0', chr(args[1][1] & 255)
            k = s.rfind(c) if name in ('strrchr', 'rindex') else s.find(c)
            if k < 0:
                return R(at(0, len(a[1])) if name == 'strchrnul' else NULL)
            return R(at(0, k))
        return None
    if name == 'memchr' and args[1][0] == args[2][0] == 'c':
        for k in range(args[2][1]):
            b = I.load(st, at(0, k), 1, 'i8')
            if b[0] != 'c':
                return None
            if b[1] == args[1][1] & 255:
                return R(at(0, k))
        return R(NULL)
    if name in ('strspn', 'strcspn', 'strpbrk'):
        a, b = text(0), text(1)
        if a[0] == b[0] == 'lit':
            k = 0
            while k < len(a[1]) and (a[1][k] in b[1]) == (name == 'strspn'):
                k += 1
            if name == 'strpbrk':
                return R(at(0, k) if k < len(a[1]) else NULL)
            return R(ci(k, 64))
        return None
    if name == 'strnlen' and args[1][0] == 'c':
        for k in range(args[1][1]):
            b = I.load(st, at(0, k), 1, 'i8')
            if b == UNDEF or b[0] != 'c':
                return None
            if b[1] == 0:
                return R(ci(k, 64))
        return R(args[1])
    if name in ('strcat', 'strncat'):
        a, b = text(0), text(1)
        if name == 'strncat':
            if args[2][0] != 'c' or b[0] != 'lit':
                return None
            b = ('lit', b[1][:args[2][1]])
        if a[0] == b[0] == 'lit':
            I.access(st, fr, inst, at(0, len(a[1])), ci(len(b[1]) + 1, 64), True)
            I.set_alias(st, at(0, len(a[1])), b)
            return R(args[0])
        return None
    if name == 'stpcpy':
        a = text(1)
        if a[0] == 'lit':
            I.access(st, fr, inst, args[0], ci(len(a[1]) + 1, 64), True)
            I.set_alias(st, args[0], a)
            return R(at(0, len(a[1])))
        return None
    if name == 'strncpy' and args[2][0] == 'c':
        out = []
        n = args[2][1]
        for k in range(n):
            b = I.load(st, at(1, k), 1, 'i8')
            if b == UNDEF or b[0] != 'c':
                return None
            if b[1] == 0:
                break
            out.append(b)
        if n:
            I.access(st, fr, inst, args[0], args[2], True)
        for k, b in enumerate(out + [ci(0, 8)] * (n - len(out))):
            I.store(st, at(0, k), b, 1)
        return R(args[0])
    if name in ('strdup', 'strndup', '__strdup', '__strndup'):
        a = text(0)
        if name.endswith('ndup'):
            if args[1][0] != 'c' or a[0] != 'lit':
                return None
            a = ('lit', a[1][:args[1][1]])
        p = I.alloc(st, inst, I.binop('add', 64, I.strlen(st, a), ci(1, 64)), 'undef')
        I.set_alias(st, p, a)
        return R(p)
    if name == 'memcmp' and args[2][0] == 'c':
        x, y = [], []
        for k in range(args[2][1]):
            for l, i in ((x, 0), (y, 1)):
                b = I.load(st, at(i, k), 1, 'i8')
                if b == UNDEF or b[0] != 'c':
                    return None
                l.append(b[1])
            if x[-1] != y[-1]:
                break
        return R(order(x, y))
    if name in ('strcmp', 'strncmp', 'strcoll', 'strcasecmp', 'strncasecmp'):
        a, b = text(0), text(1)
        if a[0] == b[0] == 'lit':
            x, y = a[1], b[1]
            if 'n' in name[3:]:
                if args[2][0] != 'c':
                    return None
                x, y = x[:args[2][1]], y[:args[2][1]]
            if 'case' in name:
                x, y = x.lower(), y.lower()
            return R(order(x, y))
        return None
    if name in ('strtol', 'strtoul', 'strtoll', 'strtoull', 'atoi', 'atol', 'atoll'):
        a = text(0)
        base = 10 if name[0] == 'a' else args[2][1] if args[2][0] == 'c' else None
        if a[0] != 'lit' or base != 10:
            return None
        s, k = a[1], 0
        while k < len(s) and s[k] in ' \t\n\v\f\r':
            k += 1
        j = k + (k < len(s) and s[k] in '+-')
        e = j
        while e < len(s) and '0' <= s[e] <= '9':
            e += 1
        v, end = (int(s[k:e]), e) if e > j else (0, 0)
        if abs(v) >= 1 << 31:
            return None
        if name[0] == 's' and args[1] != NULL:
            I.store(st, args[1], at(0, end), 8)
        return R(ci(v & 0xffffffff, 32) if name == 'atoi' else ci(v & 0xffffffffffffffff, 64))
    if name == 'atof':
        a = text(0)
        return I.external(st, fr, inst, 'strtod', [args[0], NULL]) if a[0] == 'lit' else None
    if name in ('mempcpy', 'bzero', 'explicit_bzero'):
        if name == 'mempcpy':
            I.access(st, fr, inst, args[1], args[2], False)
            I.access(st, fr, inst, args[0], args[2], True)
            I.memcpy(st, args[0], args[1], args[2])
            return R(I.ptradd(st, args[0], args[2]))
        return None
    return None
