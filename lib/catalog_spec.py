"""The documented operator catalogue (README and interactive help): (name, placement) -> (operands, precedence, associativity, description, section)."""
DYN = None
B, T, M, C, PS = 'Basic operators', 'Trigonometric functions', 'Miscellaneous functions', 'Constants', 'Pseudo operators'
OPS = {
    ('$', 'prefix'): (1, 0, None, 'Identity to parse rest of expression as if put in parentheses', PS),
    ('@', 'prefix'): (1, 8, None, 'History operator', PS),
    ("'", 'postfix'): (1, 7, None, 'Derivative shorthand', PS),
    ('deriv', 'function'): (2, None, None, 'Derivative of expression with respect to variable', PS),
    ('+', 'infix'): (2, 2, 'left', 'Addition', B), ('-', 'infix'): (2, 2, 'left', 'Subtraction', B), ('*', 'infix'): (2, 4, 'left', 'Multiplication', B),
    ('/', 'infix'): (2, 3, 'left', 'Division', B), ('^', 'infix'): (2, 5, 'right', 'Exponentiation', B), ('C', 'infix'): (2, 1, 'left', 'Binomial coefficient', B),
    ('mod', 'infix'): (2, 1, 'left', 'Modulo operator', B), ('+', 'prefix'): (1, 7, None, 'Identity', B), ('-', 'prefix'): (1, 7, None, 'Negation', B),
    ('!', 'postfix'): (1, 6, None, 'Factorial', B), ('%', 'postfix'): (1, 6, None, 'Division by 100', B),
    ('exp', 'function'): (1, None, None, 'Natural exponential function', B), ('root', 'function'): (2, None, None, 'nth root of x', B), ('sqrt', 'function'): (1, None, None, 'Square root', B),
    ('log', 'function'): (2, None, None, 'Logarithm to base n', B), ('ln', 'function'): (1, None, None, 'Natural logarithm', B), ('ld', 'function'): (1, None, None, 'Binary logarithm', B),
    ('lg', 'function'): (1, None, None, 'Logarithm to base 10', B),
    ('sin', 'function'): (1, None, None, 'Sine', T), ('cos', 'function'): (1, None, None, 'Cosine', T), ('tan', 'function'): (1, None, None, 'Tangent', T),
    ('asin', 'function'): (1, None, None, 'Inverse sine', T), ('acos', 'function'): (1, None, None, 'Inverse cosine', T), ('atan', 'function'): (1, None, None, 'Inverse tangens', T),
    ('sinh', 'function'): (1, None, None, 'Hyperbolic sine', T), ('cosh', 'function'): (1, None, None, 'Hyperbolic cosine', T), ('tanh', 'function'): (1, None, None, 'Hyperbolic tangent', T),
    ('asinh', 'function'): (1, None, None, 'Inverse hyperbolic sine', T), ('acosh', 'function'): (1, None, None, 'Inverse hyperbolic cosine', T),
    ('atanh', 'function'): (1, None, None, 'Inverse hyperbolic tangent', T),
    ('max', 'function'): (DYN, None, None, 'Maximum', M), ('min', 'function'): (DYN, None, None, 'Minimum', M), ('abs', 'function'): (1, None, None, 'Absolute value', M),
    ('ceil', 'function'): (1, None, None, 'Round up to nearest integer', M), ('floor', 'function'): (1, None, None, 'Round down to nearest integer', M),
    ('round', 'function'): (1, None, None, 'Round to nearest integer', M), ('trunc', 'function'): (1, None, None, 'Round towards zero to nearest integer', M),
    ('frac', 'function'): (1, None, None, 'Fractional part of x', M), ('sgn', 'function'): (1, None, None, 'Sign of x (-1, 0, 1)', M),
    ('sum', 'function'): (DYN, None, None, 'Sum of all operands', M), ('prod', 'function'): (DYN, None, None, 'Product of all operands', M),
    ('avg', 'function'): (DYN, None, None, 'Arithmetic mean of all operands', M), ('gcd', 'function'): (2, None, None, 'Greatest common divisor', M),
    ('lcm', 'function'): (2, None, None, 'Least common multiple', M), ('rand', 'function'): (2, None, None, 'Random integer between min and max (exclusive)', M),
    ('fib', 'function'): (1, None, None, 'Fibonacci sequence', M), ('gamma', 'function'): (1, None, None, 'Gamma function', M), ('var', 'function'): (DYN, None, None, 'Variance of a population', M),
    ('pi', 'function'): (0, None, None, "Archimedes' constant", C), ('e', 'function'): (0, None, None, "Euler's number", C), ('phi', 'function'): (0, None, None, 'Golden ratio', C),
    ('clight', 'function'): (0, None, None, 'Speed of light [m/s]', C), ('csound', 'function'): (0, None, None, 'Speed of sound in air at 20 °C [m/s]', C), ('ans', 'function'): (0, None, None, 'Last result', C),
}
