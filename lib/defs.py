"""Reference for the definition command: which definitions are legal, by construction of their two sides."""
import re

# left sides: text -> (name, params) when legal on its own, else None
LEFT = {}
for n in ['f', 'mod', 'C', 'foo_bar', 'F', 'sinx', 'an']:
    LEFT['%s(x)' % n] = (n, ('x',))
LEFT.update({
    'f(x,y)': ('f', ('x', 'y')), ' f ( x , y ) ': ('f', ('x', 'y')), 'f(y,x)': ('f', ('y', 'x')), 'f(x,y,z)': ('f', ('x', 'y', 'z')),
    'f(a,b,c,d,g,h,i,j,k,l)': ('f', tuple('abcdghijkl')), 'k': ('k', ()), ' k ': ('k', ()), 'mod': ('mod', ()), 'C': ('C', ()), 'k()': ('k', ()), 'k( )': ('k', ()), 'f(u)': ('f', ('u',)),
    'f(long_name,other_name)': ('f', ('long_name', 'other_name')),
    # not a function or constant / parameters not distinct variables / too many / malformed
    '': None, ' ': None, '1': None, '1+2': None, '+': None, '(f)': None, '-f': None, '2f(x)': None, 'f(x)+1': None, 'f(x)!': None, "f'": None, 'f(x)(y)': None, 'f(x) g': None, 'f x': None,
    'f(1)': None, 'f(x,1)': None, 'f(x+y)': None, 'f(-x)': None, 'f(x!)': None, 'f(pi)': None, 'f(x,e)': None, 'f(sin(x))': None, 'f(2x)': None, 'f(ans)': None, 'f(f(x))': None, 'f(x1)': None,
    'f(x,x)': None, 'f(x,y,x)': None, 'f(x,y,z,x)': None, 'f(y,x,x)': None, 'f(a,b,c,d,g,h,i,j,k,l,m)': None, 'f(a,b,c,d,g,h,i,j,k,l,a)': None, 'f(a,b,c,d,g,h,i,j,k,l,m,n,o,p)': None,
    'f(': None, 'f(x': None, 'f(x,': None, 'f(x,)': None, 'f(,x)': None, 'f)': None, 'f(x))': None, 'f((x)': None, 'f(x;y)': None, '@f': None, '$f(x': None, 'f(x)*1': None, '*f': None, ')': None, 'k+': None, '1k': None,
    # built-in names
    'sin(x)': None, 'sin': None, 'pi': None, 'pi()': None, 'pi(x)': None, 'e': None, 'ans': None, 'max(x,y)': None, 'deriv(x,y)': None, 'gamma(x)': None,
})
# right sides: text -> free variables and operators used, or None when it is never acceptable
RIGHT = {
    'x': 'x', 'x+1': 'x', '2*x^2-x': 'x', '(x)': 'x', 'x!': 'x', '-x': 'x', 'x-y': 'xy', 'y-x': 'xy', 'y/x': 'xy', '5': '', '1+2*3': '', 'pi': '', 'x*0': 'x', '2x y': 'xy', 'y': 'y', 'z': 'z', 'x+y+z': 'xyz',
    'max(x,1,y)': 'xy', 'sum(x)': 'x', 'x C 2': 'x', 'x mod y': 'xy', '(7 mod 4)*x': 'x', 'x-(y-(x-y))': 'xy', 'x^x^x': 'x', '-5': '', '0': '', 'q': 'q', 'x+q': 'xq', 'u': 'u', 'a-l': 'al', 'k': 'k',
    'long_name-other_name': ('long_name', 'other_name'),
    '': None, ' ': None, 'x+': None, '+*': None, ')': None, '(': None, '(x': None, 'x)': None, 'x,y': None, 'sin': None, 'sin(x,y)': None, 'sin()': None, 'x=1': None, 'x == x': None, '=': None, '#': None, 'x;': None, '1.2.3': None,
    '1/0': None, '1/(2-2)': None, '(0-1)^0.5': None, 'x+1/0': None, 'sqrt(0-4)': None, 'max(x,1/0)': None, '0^0': None, '@0': None, 'ans': None, 'x+@3': None,
}
# right sides that use other functions: text -> (names used, free variables)
RIGHT_FN = {'1+f(x)': ('f', 'x'), 'max(1,2,f(x))': ('f', 'x'), 'g(1)+f(x)': ('gf', 'x'), 'f(x)': ('f', 'x'), 'f(x,y)': ('f', 'xy'), 'x+f(x)': ('f', 'x'), 'f(f(x))': ('f', 'x'), '2*f(1)': ('f', ''), 'g(x)': ('g', 'x'), 'g(x)+g(y)': ('g', 'xy'), 'g(g(x))': ('g', 'x'), 'c': ('c', ''), 'c*x': ('c', 'x'), 'g(c)-x': ('gc', 'x'), 'k+1': ('k', '')}
# what exists before: name -> (definition, params, text)
BEFORE = [
    [],
    [('g(x)', 'g', ('x',), 'x*x+1')],
    [('g(x)', 'g', ('x',), 'x*x+1'), ('c', 'c', (), '7')],
    [('f(x)', 'f', ('x',), 'x+100')],
    [('k', 'k', (), '3')],
    [('c', 'c', (), '7'), ('h(u,x)', 'h', ('u', 'x'), 'u-x')],
]
INFIX = ('x C 2', 'x mod y', '(7 mod 4)*x')     # names used as infix operators
TOKEN = re.compile(r"[A-Za-z_\[\]]+|[0-9.]+|\s+|.")


def toks(s):
    return TOKEN.findall(s)


def subst(text, m):
    """text with every word in m replaced by its parenthesised text"""
    return ''.join('(%s)' % m[t] if t in m else t for t in toks(text))


def legal(left, right, funcs):
    """reference: may `left = right` be added when funcs (name -> params) exist?"""
    L = LEFT.get(left)
    if L is None:
        return None
    name, params = L
    if name in funcs or any(p in funcs and p != name for p in params):
        return None
    if right in RIGHT_FN:
        names, free = RIGHT_FN[right]
        if name in names:
            return None        # recursive
        if 'f' in names and 'f' in funcs and right in ('f(x,y)',) and len(funcs['f']) != 2:
            return None
        # unknown names are variables; juxtaposed with parentheses they multiply
        free = [v for v in toks(right) if v[0].isalpha() and v not in funcs]
    else:
        free = RIGHT[right]
        if free is None:
            return None
        free = [v for v in free if v not in funcs]
    if any(v == name for v in free):
        return None
    if any(v not in params for v in free):
        return None
    if name in toks(right) and right not in INFIX:
        return None
    return name, params
