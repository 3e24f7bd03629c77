COMMON_NOTE = ('Static: the LLVM IR of the current tree is abstractly interpreted (symbolic payloads, finite ordering domain, enumerated shapes or partition cells); nothing is executed. '
               'Trusted: clang -O0 + SROA as a faithful translation, the models of libc functions, allocation succeeds, x86-64 data layout.')
AI = 'path-sensitive abstract interpretation of LLVM IR against a reference definition'
PROPS = []


def P(**k):
    PROPS.append(k)


P(id='P01', title='Built-in operators compute the documented value',
  statement='Every built-in operator, function and constant yields, for every operand for which it is documented to be defined, the value its documented mathematical definition gives (with operators on integers working on the truncated operands). This includes operand order, argument counts of variadic functions, and the exact constants and unit factors.',
  over=['inputs'], text='all built-in operators x all operand tuples (partitioned into ordering cells / truncation cells / operand counts up to the bound)',
  why='The test-suite evaluates a few operators at one or two points; a wrong branch for negative, fractional, zero or many operands passes it.',
  files=['src/client/core/arith_evaluation.c', 'src/client/core/arith_context.c'],
  mech=[('operator evaluator', 'src/client/core/arith_evaluation.c'), ('operator registry', 'src/client/core/arith_context.c')], obs=['result of evaluating an operator'],
  tech='abstract interpretation of the evaluator per operator; normal forms and ordering cells compared with documented formulas')
P(id='P02', title='Undefined operations are reported, never computed',
  statement='Exactly the operands for which a built-in operator is documented as undefined make the evaluation fail, each with the error that names the reason: division by zero, zero raised to a power that is not positive, a negative base with a non-integer exponent, square roots and nth roots of negative numbers, derivatives that remain to be evaluated, references to history entries that do not exist; a failing operand makes the whole expression fail with its own error; a variable, an unresolved history reference and an operator that is not an arithmetic one are errors, not values. When evaluation succeeds, no error is reported.',
  over=['inputs'], text='all built-in operators x all operands (partitioned) and all positions and kinds of failing operands',
  why='Tests evaluate valid expressions; a dropped guard or a swallowed sub-error is invisible to them.',
  files=['src/client/core/arith_evaluation.c', 'src/client/core/arith_context.c'],
  mech=[('operator evaluator', 'src/client/core/arith_evaluation.c')], obs=['error reported by evaluation'],
  tech='abstract interpretation of the evaluator on undefined cells and abstract operand results')
P(id='P03', title='One catalogue: registry, evaluator, documentation and help agree',
  statement='The calculator offers exactly the documented operators, functions and constants, each with its documented placement, number of operands, precedence and associativity; every one of them is evaluated by the evaluator (none is "unknown"); and the help command lists each of them exactly once, in its documented form, in every listing that is meant to be complete, showing for constants the value they evaluate to. User-defined functions and constants appear in the lists of their kind.',
  over=['inputs'], text='all registered operators, all help listings',
  why='Registration, evaluator switch, documentation and help are four parallel tables kept in step only by position; the tests check one of them.',
  files=['src/client/core/arith_context.c', 'src/client/core/arith_evaluation.c', 'src/client/commands/cmd_help.c', 'README.md'],
  mech=[('registry', 'src/client/core/arith_context.c'), ('help', 'src/client/commands/cmd_help.c')], obs=['registered operators', 'rows of the help listings'],
  tech='abstract interpretation of the registration and help code, cross-checked tables')
P(id='P18', title='Expression trees: copy, compare, substitute, list variables, splice, release',
  statement='Copying an expression gives an independent equal expression; two expressions compare equal exactly when they have the same shape, operators, variables (name and id) and constants; substituting for a variable replaces all and only its occurrences and reports how many; listing variables returns each distinct variable once, assigns matching ids and reports when the given room is too small; splicing a list in place of an operand keeps all other operands in order. Releasing an expression releases every part exactly once, and none of these operations loses or reuses released memory.',
  over=['inputs'], text='all expression trees (enumerated shapes, symbolic constants, all equal/different name patterns)',
  why='Unit tests use a handful of fixed trees; sharing, ids, small buffers, wide nodes and leaks are not looked at.',
  files=['src/engine/tree/tree_util.c', 'src/engine/tree/node.c'],
  mech=[('tree operations', 'src/engine/tree/tree_util.c'), ('node representation', 'src/engine/tree/node.c')], obs=['returned trees and counts'],
  tech='shape-enumerating abstract interpretation with symbolic payloads and heap typestate')
P(id='P27', title='Vectors and linked lists are sequences',
  statement='After any sequence of insertions, removals, clears, trims and growth, a vector or linked list holds exactly the elements a sequence would hold: count, access by index, first/last element, neighbours and iteration (also after reset) agree with it, elements keep their content and order, and no operation touches memory outside the container or forgets to release it.',
  over=['inputs', 'histories'], text='all operation sequences up to the bound, symbolic element contents',
  why='Tests push and delete a handful of elements; capacity edges, deletions at either end and backward links are not looked at.',
  files=['src/util/vector.c', 'src/util/linked_list.c', 'src/util/iterator.c'],
  mech=[('vector', 'src/util/vector.c'), ('linked list', 'src/util/linked_list.c')], obs=['container contents'],
  tech='abstract interpretation from enumerated container states against a reference sequence, with heap typestate')
P(id='P31', title='Tries are maps with longest-prefix lookup and ordered iteration',
  statement='After any sequence of insertions and removals, a trie contains exactly the inserted words that were not removed, each with its own payload, whatever prefixes they share; removing one word never affects another; the longest stored prefix of any string (also with characters a trie never holds) is found with its payload; iteration yields every word once in order; duplicates are refused; every node is released.',
  over=['inputs', 'histories'], text='all word sets over the universe of prefix relations, all single operations, all legal characters',
  why='Tests use one word list; removal of prefixes or extensions of other words and characters outside the alphabet are not covered.',
  files=['src/util/trie.c'], mech=[('trie', 'src/util/trie.c')], obs=['lookups, iteration'],
  tech='abstract interpretation from enumerated trie states against a reference map, with heap typestate')
P(id='P32', title='String helpers and string builder do what their names say',
  statement='Character classification, stripping, prefix test, splitting, line extraction and skipping of escape sequences give the documented result for every string and never read or write outside it; a string builder always holds the concatenation of what was appended since the last clear, terminated, within its buffer, for every length of text and every capacity.',
  over=['inputs'], text='all characters; all strings over the class alphabet up to the bound; all append sequences around the capacity edges',
  why='Off-by-one accesses at the ends of strings and buffers do not show up in results.',
  files=['src/util/string_util.c', 'src/util/string_builder.c'], mech=[('helpers', 'src/util/string_util.c'), ('builder', 'src/util/string_builder.c')], obs=['results and buffers'],
  tech='abstract interpretation over enumerated class strings with exact buffer bounds')
P(id='P04', title='Operators group by precedence, associativity and placement',
  statement='Every well-formed sequence of numbers, variables (every other word), operators, parentheses, function calls and juxtaposed operands is accepted and read as exactly one tree: an operator belongs to the right operand of a pending operator exactly when it has higher precedence, or equal precedence and associates to the right; prefix and postfix operators follow the same rule; juxtaposition stands for the implicit operator; parentheses and argument lists override; arguments keep their order; each node carries the position of the token it stems from.',
  over=['inputs'], text='all operator order types x all token sequences up to the bound',
  why='Tests check a few dozen expressions by value; wrong grouping of rare combinations (postfix after right-associative, low prefix operators, juxtaposition next to functions) gives no error.',
  files=['src/engine/parsing/parser.c', 'src/engine/tree/operator.c'], mech=[('shunting-yard parser', 'src/engine/parsing/parser.c')], obs=['parsed tree'],
  tech='abstract interpretation of the parser over all order types and token-kind sequences against a reference grouping')
P(id='P22', title='Malformed input is rejected with the right error at the right place',
  statement='A token sequence is accepted if and only if it is well-formed (operands and operators alternate, parentheses match, delimiters separate arguments of functions, functions with operands have a parameter list of the right length, names start with a letter). Otherwise the first error and the token at which it occurs are reported, no result is produced, and everything built so far is released. This also holds when the input is only checked.',
  over=['inputs'], text='all token-kind sequences up to the bound and all single-token edits of longer inputs',
  why='Tests list 25 malformed inputs; combinations (an operator before a closing parenthesis behind an outer operand, nested delimiters) are endless.',
  files=['src/engine/parsing/parser.c'], mech=[('parser error handling', 'src/engine/parsing/parser.c')], obs=['error kind, error token, live memory'],
  tech='abstract interpretation of the parser over all token-kind sequences against a reference recogniser, with heap typestate')
P(id='P05', title='A printed expression reads back as the same expression',
  statement='For every expression over the calculator\'s operators (and any other consistent set of symbolic operators, also ones whose names could run together), the printed text contains the parentheses, spaces and separators needed so that reading it yields the same expression again (a negative constant as a negation); the coloured form differs from the plain one only by colour codes.',
  over=['inputs'], text='all operator trees up to depth 3 (selected deeper) over the built-in operators and over all order types',
  why='Tests compare a dozen strings; a parenthesis missing in a rare combination silently shows a different expression.',
  files=['src/engine/tree/tree_to_string.c', 'src/util/string_builder.c'], mech=[('printer', 'src/engine/tree/tree_to_string.c')], obs=['printed text'],
  tech='abstract interpretation of printer, tokenizer and parser over all operator combinations (round trip)')
P(id='P06', title='An operator context maps (name, placement) to operators',
  statement='After any sequence of additions and deletions, looking up a name and placement yields exactly the operator added for it and not deleted since, with its arity, precedence, associativity and name, at an address that does not change while it exists; all present operators have distinct identifiers; a second operator of the same name and placement, and an infix operator whose associativity contradicts another infix operator of the same precedence, are refused without effect; the tokenizer recognises exactly the names of the present operators, also when an operator sharing its name with another placement, or being a prefix of another name, is deleted; only operators that take two or any number of operands can become the implicit operator. Destroying a context releases everything.',
  over=['histories'], text='all histories of additions / deletions up to the bound over a universe of operators with every relation between two of them',
  why='Tests add a fixed list of operators; deletion, re-use of identifiers and names shared between placements are not exercised.',
  files=['src/engine/parsing/context.c', 'src/engine/tree/operator.c', 'src/util/trie.c'], mech=[('operator context', 'src/engine/parsing/context.c')], obs=['lookup results, tokens, identifiers'],
  tech='abstract interpretation of every history against a reference map, with heap typestate')
P(id='P23', title='Input is split into words, numbers, operator names and single characters',
  statement='For every input string and every set of operator names that do not start with a digit, the tokens are the maximal runs of letters (with _ [ ]), the longest operator name starting outside a word, the maximal runs of digits and dots, and single characters otherwise (blanks and characters no operator may contain included); nothing is lost, added or reordered: the tokens concatenated are the input. Tokens are independent terminated strings and are all released by free_tokens().',
  over=['inputs'], text='all strings up to the bound over character-class representatives x keyword-set shapes',
  why='Tests tokenize six strings; keywords overlapping words, numbers, each other and non-ASCII characters are endless.',
  files=['src/engine/parsing/tokenizer.c', 'src/util/trie.c'], mech=[('tokenizer', 'src/engine/parsing/tokenizer.c')], obs=['token list'],
  tech='abstract interpretation of the tokenizer over class strings against a reference, with exact buffer bounds')
P(id='P19', title='Rules match completely and rewrite exactly what they match',
  statement='For every pattern, a match is found exactly when there is an assignment of expressions to its variables, and of runs of consecutive operands to its list variables, under which pattern and expression are equal - each variable standing for the same thing everywhere - and under which every condition holds; all such assignments are found, and every condition is checked fully instantiated. Applying a rule rewrites the first matching part in preorder to the right-hand side with the assigned expressions copied in, gives new parts the position of the replaced part, leaves everything else untouched and loses or shares no memory; a rule set applies the first applicable rule again and again until none applies or the limit is reached, and reports the number of applications. Rules whose right-hand side has unknown variables, patterns with more than ten variables and more than three conditions on one variable are refused.',
  over=['inputs'], text='all patterns x expressions x conditions up to the bound, rules and rule sets over them',
  why='Tests match a few patterns; repeated lists, empty lists, conditions on lists and nested lists interact combinatorially, and a missed or wrong match shows up only in some simplification.',
  files=['src/engine/transformation/matching.c', 'src/engine/transformation/transformation.c', 'src/engine/transformation/rewrite_rule.c'],
  mech=[('matching', 'src/engine/transformation/matching.c'), ('rules', 'src/engine/transformation/rewrite_rule.c')], obs=['matchings, rewritten trees'],
  tech='abstract interpretation of matcher and rewriter over enumerated patterns and expressions against a declarative reference matcher, with heap typestate')
P(id='P33', title='Rule conditions mean what they say',
  statement='In a rule condition, type(e) compares equal to CONST, VAR or OP exactly for constants, variables and operator expressions, equal(a, b) holds exactly for equal expressions, ==, !=, <, >, <=, >= compare the values of their operands, || and ! combine truth values (every non-zero value is true), TRUE and FALSE are constants, and count(...) is the number of its operands; arithmetic is evaluated as in expressions; == and the other comparisons group to the left and bind tighter than ||. A condition that cannot be evaluated does not hold; evaluating one never terminates the program and releases what it used.',
  over=['inputs'], text='all conditions over operand kinds, ordering cells and truth tables up to the bound',
  why='Only the conditions in the shipped rule file are exercised by tests, mostly one way.',
  files=['src/client/simplification/propositional_evaluation.c', 'src/client/simplification/propositional_context.c'],
  mech=[('condition evaluation', 'src/client/simplification/propositional_evaluation.c')], obs=['verdict of propositional_checker'],
  tech='abstract interpretation of parser and condition checker over enumerated conditions against their documented meaning')
P(id='P07', title='Built-ins cannot be redefined; clear removes exactly what it names',
  statement='Whatever definitions and clear commands came before, every built-in operator, function and constant stays available and unchanged: defining or clearing one is refused. "clear name" removes exactly the user-defined function or constant of that name - also when the name is shared with an infix operator or starts like another name - and nothing else; "clear" alone removes all user-defined functions and constants; clearing what does not exist is refused. A removed name can be defined anew and means the new thing everywhere, while functions that were defined with its help keep working.',
  over=['inputs', 'histories'], text='all histories of definitions and clear commands up to the bound over conflicting names',
  why='Tests define and clear one or two functions; shared names, order of definition and removal and rules that survive their function only show in longer histories.',
  files=['src/client/commands/cmd_clear.c', 'src/client/commands/cmd_definition.c', 'src/client/core/arith_context.c', 'src/engine/parsing/context.c'],
  mech=[('clear command', 'src/client/commands/cmd_clear.c'), ('function management', 'src/client/core/arith_context.c')], obs=['registered operators', 'results of uses'],
  tech='abstract interpretation of whole command histories against a reference map of functions, with heap typestate')
P(id='P08', title='A rejected definition leaves no trace; an accepted one adds one function',
  statement='When a definition is rejected - for whatever reason and at whatever stage: malformed or illegal left side, name or parameters, built-in name, syntax error, recursion, unbound variable or failing computation on the right side - the set of functions, every result computed afterwards, the stored results and the parser are exactly as before, nothing leaks, and the same name can be defined afterwards, with another number of parameters. A name that is already defined is refused until it is cleared. An accepted definition adds exactly one function and changes nothing else.',
  over=['inputs', 'histories'], text='all kinds of rejected and accepted definitions x existing definitions',
  why='Tests check that a bad definition is refused, not what is left behind (a registered name, a rule, a token that no longer parses).',
  files=['src/client/commands/cmd_definition.c', 'src/client/core/arith_context.c'],
  mech=[('definition command', 'src/client/commands/cmd_definition.c')], obs=['registered operators', 'results and history after the definition'],
  tech='abstract interpretation of definitions with before/after comparison of functions, uses, history, and heap typestate')
P(id='P09', title='Definitions mean substitution of arguments for parameters',
  statement='A definition f(x,..)=e is accepted exactly when its left side is a name that is not (or no longer) that of a function or constant, with distinct parameters (at most the documented number) and its right side is a well-formed expression over the parameters, not using f itself, and computable; f=e and f()=e define constants. Afterwards f has that name and that number of operands, and every use means the right side with the parenthesised arguments in place of the parameters, simultaneously: arguments that contain variables named like parameters, nested uses and functions of functions included.',
  over=['inputs'], text='left sides x right sides x existing definitions x argument lists up to the bound',
  why='Tests define a few functions over numbers; capture of parameter names, order of arguments and precedence of the substituted text need specific combinations.',
  files=['src/client/commands/cmd_definition.c', 'src/client/core/arith_context.c', 'src/engine/transformation/rewrite_rule.c'],
  mech=[('definition command', 'src/client/commands/cmd_definition.c'), ('function expansion', 'src/client/core/arith_context.c')], obs=['verdict of the definition', 'printed result of uses'],
  tech='abstract interpretation of definition and use against a reference acceptor and textual substitution')
P(id='P10', title='History: each constant result is stored once, and ans and @ read it',
  statement='After any sequence of commands the stored results are exactly the constant results of evaluated expressions and the fold results of tables, in order: an evaluation with a constant result (positive, negative, fractional or zero, with or without simplification rules) adds exactly that value, nothing else adds, changes or removes one - no failing command, no symbolic result, no definition, clear, help, load of a missing file or table without fold. ans and @0 give the latest result, @k the k-th before it, for any number of results; reading further back than the first result is an error.',
  over=['inputs', 'histories'], text='all command sequences up to the bound, long sequences across growth of the store',
  why='Tests evaluate isolated expressions; wrong order, duplicates, lost negative results or growth edges only show in sequences.',
  files=['src/client/core/history.c', 'src/client/commands/cmd_evaluation.c', 'src/client/commands/cmd_table.c'],
  mech=[('history', 'src/client/core/history.c'), ('evaluation', 'src/client/commands/cmd_evaluation.c')], obs=['stored results', 'values of ans and @'],
  tech='abstract interpretation of command sequences against a reference list of results, with and without the parsed rule file')
P(id='P13', title='Loading a file is like typing its lines',
  statement='Loading a file executes its lines one after the other as if typed: comments (#) and blank lines are skipped, a failing line is reported and the remaining lines still run, nested loads work, the last line counts with or without line end and whatever its length, and the load succeeds exactly when the file can be read and every line succeeds. Definitions and results made by the file stay; the interactive mode is restored; lines of a file are neither prompted for nor echoed; every opened file is closed; nothing is leaked.',
  over=['inputs', 'histories'], text='all files up to the bound over a vocabulary of lines, nested, missing and odd files, interactive or not',
  why='The tests load no file at all.',
  files=['src/client/commands/cmd_load.c', 'src/client/commands/commands.c', 'src/util/console_util.c'],
  mech=[('load command', 'src/client/commands/cmd_load.c'), ('input loop', 'src/client/commands/commands.c'), ('line reader', 'src/util/console_util.c')], obs=['output, verdict, functions, history, open files'],
  tech='abstract interpretation of the input loop over enumerated files against a reference calculator, with resource typestate')
P(id='P24', title='Each input line is taken for the right command',
  statement='An input line is a help, license, table, definition, clear, load or simplification command exactly when it has the documented form (help, help operators and license as the whole line; table, clear and load by their first word; a definition by an equals sign), a comment or a blank line does nothing, quit ends the input, and everything else - including near misses, upper case and words that merely start like a command - is evaluated as an expression. The first documented form in that order wins, so every line is carried out exactly once, by one command.',
  over=['inputs'], text='all lines of a vocabulary of command forms and near misses, alone and after conflicting definitions',
  why='Tests call the parser, not the dispatcher; near misses and conflicts between forms are not tried.',
  files=['src/client/commands/commands.c', 'src/client/commands/cmd_load.c', 'src/client/commands/cmd_clear.c', 'src/client/commands/cmd_help.c'],
  mech=[('dispatch', 'src/client/commands/commands.c')], obs=['verdict, output, functions, history'],
  tech='abstract interpretation of the dispatcher over a line vocabulary against a reference dispatcher')
P(id='P25', title='Command-line switches and exit status',
  statement='Switches are read from the left up to --commands (short and long forms); an unknown one ends the run with an error and a non-zero status before anything is carried out; --help and --version print and end with status 0. The words after --commands are carried out as commands in order, the first failing one ends the run with a non-zero status; afterwards the run ends with status 0, or continues with typed lines when --interactive is given. Without --commands the typed lines are processed; the exit status is zero exactly when all succeeded. The notice is shown exactly when lines are processed on a terminal and --quiet is absent. At exit every block and file is released.',
  over=['inputs'], text='all lists of switches and commands up to the bound x terminal or not x rule file present or not',
  why='main() is not linked into the tests at all.',
  files=['src/client/main.c', 'src/util/console_util.c'], mech=[('entry point', 'src/client/main.c')], obs=['exit status, output, commands carried out'],
  tech='abstract interpretation of main() from start to exit handlers against a reference, with heap and file typestate')
P(id='P11', title='Modes differ only in presentation; scripts get nothing but results',
  statement='Interactive and non-interactive mode give the same verdicts, functions and stored results for every command. In non-interactive mode standard output contains exactly the results - one line per evaluated expression, the rows and fold result of a table, help pages - and no prompt, echo, prefix, acknowledgement or escape sequence; interactively every result appears with the same text after "= " and definitions and clears are acknowledged.',
  over=['inputs', 'histories'], text='all commands of a vocabulary, alone and after each other, and typed input, in both modes',
  why='The tests call the library; what ends up on the terminal or in a pipe is never looked at.',
  files=['src/util/console_util.c', 'src/client/commands/cmd_evaluation.c', 'src/client/commands/commands.c', 'src/client/commands/cmd_table.c', 'src/engine/tree/tree_to_string.c'],
  mech=[('console helpers', 'src/util/console_util.c'), ('commands', 'src/client/commands/commands.c')], obs=['stdout, verdict, functions, history'],
  tech='relational abstract interpretation of command sequences in both modes, and comparison with a reference calculator')
P(id='P12', title='Every failing command says why, on the error stream only',
  statement='Every command that fails returns failure and writes a message to standard error that names the reason (division by zero, complex result, missing history, unexpected or missing parenthesis, delimiter, operand count, end of input, unexpected character, built-in or already defined name, recursion, unbound variable, parameters that are not distinct variables or too many, unknown name, malformed table, non-constant bound, zero step and so on), wherever the failing part stands: alone, in a definition, in a table, in an argument or inside a user-defined function. It prints no result. A command that succeeds writes nothing to standard error.',
  over=['inputs'], text='all failing cores x contexts x places they can stand in, and all succeeding commands of a vocabulary, in both modes',
  why='Tests check error codes of the parser, never the message a user or script sees.',
  files=['src/client/core/arith_context.c', 'src/client/commands/cmd_definition.c', 'src/client/commands/cmd_table.c', 'src/client/commands/cmd_clear.c', 'src/client/commands/cmd_load.c', 'src/util/console_util.c'],
  mech=[('error reporting', 'src/client/core/arith_context.c'), ('console helpers', 'src/util/console_util.c')], obs=['stderr, stdout, verdict'],
  tech='abstract interpretation of the command interpreter on constructed failures with known reason')
P(id='P26', title='Tables: rows, direction, undefined points, fold',
  statement='"table e ; from ; to ; step" prints one row per value from the first bound to the second inclusive, the step taken in the direction of the second bound whatever its sign, with the value and e at that value in ten decimals or "Error" where e is undefined, right-aligned; interactively with a header (variable and expression) and row numbers from 1. "fold f ; init" combines all defined values in order - x the intermediate result, y the current value - prints the result and stores it as the latest one; without fold nothing is stored. A table with the wrong parts, more than one variable, bounds or start value that are not constant, foreign variables in the fold, a zero or vanishing step, or a failing part is refused without printing rows; a fold that fails on the way is reported and stores nothing. The command always terminates.',
  over=['inputs'], text='all expressions x ranges x folds x modes of the vocabulary, and malformed tables',
  why='There is no test for the table command.',
  files=['src/client/commands/cmd_table.c', 'src/table/table.c'], mech=[('table command', 'src/client/commands/cmd_table.c'), ('rendering', 'src/table/table.c')], obs=['printed rows, fold result, history'],
  tech='abstract interpretation of the table command against a reference loop, with heap typestate')
P(id='P34', title='Error markers point at the offending token',
  statement='In interactive mode an error with a position is shown on one line below the input whose marker (~ and ^) covers exactly the columns of the offending token as typed - the failing operator or function name, the unexpected or missing parenthesis, delimiter or character, the end of the input, the illegal left side or table part - at any nesting depth, whatever precedes it in the line (blanks, a definition or table prefix), also for failures inside user-defined functions (the use is marked), and whether the message fits to the left of the marker or not. Non-interactive messages have no marker.',
  over=['inputs'], text='all failing cores x contexts x places they can stand in',
  why='Token positions pass through tokenizer, parser, substitution and evaluation; no test looks at the column.',
  files=['src/client/core/arith_context.c', 'src/util/console_util.c', 'src/engine/parsing/parser.c', 'src/engine/transformation/rewrite_rule.c', 'src/client/commands/cmd_table.c', 'src/client/commands/cmd_definition.c'],
  mech=[('error position', 'src/client/core/arith_context.c'), ('marker', 'src/util/console_util.c')], obs=['stderr'],
  tech='abstract interpretation of the command interpreter on constructed failures with known offending token')
FLOWNOTE = 'Static: dataflow and typestate over the LLVM IR of the whole program, both build variants, nothing executed. Trusted: clang -O0 + SROA as a faithful translation, the table of effects of library functions; calls through pointers may reach every function whose address is taken.'
P(id='P28', title='Typed text is data: formats are fixed and agree with their arguments',
  statement='No text that comes from the user, a file or an expression is ever interpreted as a format: every format that reaches a printf-like function, directly or through any helper, is a fixed text, and its directives agree in number, type and width with the arguments supplied. Argument lists of helpers are started, consumed once and ended on every path. Calls that announce a number of further arguments pass exactly that many.',
  over=['inputs'], text='all call sites of printf-like functions and helpers, all paths over argument lists, both build variants',
  why='A name containing a percent sign, or a wide value printed on another platform, is in no test.',
  files=['src/util/console_util.c', 'src/util/string_builder.c', 'src/table/table.c', 'src/engine/tree/tree_to_string.c', 'src/client/commands/cmd_help.c', 'src/client/commands/cmd_table.c'],
  mech=[('console helpers', 'src/util/console_util.c'), ('string builder', 'src/util/string_builder.c')], obs=['output'], note=FLOWNOTE,
  tech='interprocedural dataflow of format parameters with directive matching, and typestate of argument lists')
P(id='P30', title='Exhausted memory and missing files are noticed before anything relies on them',
  statement='When memory is exhausted at any allocation of the program, it ends with a message and a non-zero status instead of going on with a missing object; a file that cannot be opened and a line that cannot be read are noticed before they are used. This holds for every allocation, opening and line read, on every path.',
  over=['fault_sequences'], text='all call sites of allocators, fopen and readline and of helpers handing on their results, all paths, both build variants',
  why='Allocation failures do not happen in tests.',
  files=['src/util/alloc_wrappers.c', 'src/util/console_util.c', 'src/client/commands/cmd_load.c', 'src/client/simplification/simplification.c', 'src/util/vector.c', 'src/engine/tree/node.c'],
  mech=[('allocation', 'src/util/alloc_wrappers.c')], obs=['exit status, stderr'], note=FLOWNOTE,
  tech='path-sensitive typestate analysis of possibly missing results over the control-flow graphs, interprocedural')
P(id='P37', title='No effects besides the streams; files are only read',
  statement='Whatever is typed or loaded, the calculator never creates, changes or removes files, runs programs, opens connections, or changes its environment; it opens files for reading only, writes only to standard output and standard error, and its results do not depend on clock, environment or chance, except for the random operator.',
  over=['inputs'], text='all functions reachable from main() and from function pointers, all external calls, both build variants',
  why='Tests cannot show the absence of an effect.',
  files=['src/client/main.c', 'src/client/commands/cmd_load.c', 'src/client/simplification/simplification.c', 'src/util/console_util.c', 'src/client/core/arith_evaluation.c'],
  mech=[('opening of files', 'src/client/commands/cmd_load.c')], obs=['external calls'], note=FLOWNOTE,
  tech='whole-program effect analysis over the call graph with constant propagation of modes and paths')
P(id='P20', title='The shipped rewrite rules are identities',
  statement='Every rule of the shipped rule file simplification.ruleset keeps the value of the expression it is applied to: whenever its conditions hold and its left side is defined, its right side has the same value, for all values of its variables and any number of operands for its list variables. Rules for derivatives state true derivatives.',
  over=['inputs'], text='all rules x all values of their variables (unknown positive quantities, and a partition of signs and exponents) x list variables of every length up to the bound',
  why='Tests simplify 23 expressions; a rule that is wrong for negative, fractional or further operands silently changes results.',
  files=['simplification.ruleset'], mech=[('rules', 'simplification.ruleset')], obs=['values of simplified definitions'], py='python3-vt',
  note='Static: the rule file is read and parsed by an independent reader; both sides are interpreted over the reals and compared by normal form (computer algebra, no solver, nothing of the program is run). Trusted: sympy; floating-point rounding is not considered. Two rules narrow the domain and are listed as known findings.',
  tech='normal-form comparison of both sides of each rule over a partition of signs, exponents and operand counts')
P(id='P35', title='Rule files are read completely or refused with the line that is wrong',
  statement='Loading a rule file puts exactly the rules written in it in force - in the section they stand in, in their order, with their conditions; comments, blank lines, indentation, headings with further text, lines of any length and a missing last line end make no difference - and reports their number. A file with a malformed line, too many conditions or variables, an unbound variable, or too few sections is refused with a message that names the line, and leaves no rules in force and nothing allocated; a missing file is told apart from a malformed one.',
  over=['inputs'], text='all forms of rule files: every section, position, kind of malformed line, kind of condition, and file end',
  why='Tests load one well-formed file.',
  files=['src/engine/transformation/rule_parsing.c', 'src/client/simplification/simplification.c', 'src/engine/transformation/rewrite_rule.c'],
  mech=[('rule file parser', 'src/engine/transformation/rule_parsing.c'), ('loading', 'src/client/simplification/simplification.c')], obs=['number of rules', 'stderr', 'simplified expressions'],
  tech='abstract interpretation of the loader on constructed rule files against an independent reader, with heap typestate')
P(id='P38', title='Simplification keeps the value, and derivatives are derivatives',
  statement='With the shipped rules in force, the simplified form of an expression has the value of the expression wherever both are defined, whatever the signs of its variables; an expression with derivatives (shorthand or explicit, nested, several of them) becomes its true derivative. A shorthand derivative of an expression with several variables, a derivative with respect to something that is not a variable, a derivative for which there is no rule and an undefined operation are each reported as what they are. Nothing is leaked.',
  over=['inputs'], text='expressions covering every family of rules, all signs of their variables',
  why='Tests compare 23 expressions with an expected form; whether values are kept for all arguments no test can tell.',
  files=['src/client/simplification/simplification.c', 'simplification.ruleset', 'src/engine/transformation/rewrite_rule.c', 'src/engine/tree/tree_util.c'],
  mech=[('simplifier', 'src/client/simplification/simplification.c')], obs=['simplified tree', 'error codes'], py='python3-vt',
  note=COMMON_NOTE + ' Values are compared by computer-algebra normal form; constants folded in floating point are read as the simple fraction next to them.',
  tech='abstract interpretation of the simplifier; value of the resulting tree compared by normal form over sign cells')
P(id='P14', title='Everything is released when the program ends',
  statement='Whichever way a run ends - end of input, quit, quit inside a loaded file, a failed -c command, a switch that only prints - and whatever happened before (definitions accepted, refused, replaced and cleared, tables, rule files loaded, refused or replaced), afterwards the heap is empty and every file that was opened is closed. Only the line and the file that are being processed when a loaded file quits the program are exempt, as documented.',
  over=['histories', 'inputs'], text='sessions of commands of every kind, ways to end them, terminal or not, rule file installed or not',
  why='The tests never run main(), its exit handlers or a refused rule file, and no test looks at the heap.',
  files=['src/client/main.c', 'src/client/commands/commands.c', 'src/client/commands/cmd_definition.c', 'src/client/commands/cmd_table.c', 'src/client/commands/cmd_load.c', 'src/client/simplification/simplification.c', 'src/engine/transformation/rule_parsing.c'],
  mech=[('exit handler', 'src/client/commands/commands.c')], obs=['allocated blocks and open files at the end'],
  tech='abstract interpretation of whole runs with heap and file typestate')
P(id='P15', title='No input makes the program touch memory it does not own',
  statement='Whatever is typed, in whatever state earlier lines left the program - unbalanced or deeply nested brackets, names, numbers and argument lists of any length, control and non-ASCII characters, format directives, results that do not exist, damaged rule files - no memory outside of live blocks is read or written, none before it was written, nothing is released twice, and no number is converted to an integer it does not fit; the program goes on to the next line.',
  over=['inputs', 'histories'], text='adverse command lines and sessions: every command at its borders, every character class in every place, generated and damaged expressions, definitions, tables and rule files',
  why='Tests feed well-formed lines one at a time; a stray access shows only for particular input in a particular state, and mostly not at all.',
  files=['src/client/commands/cmd_definition.c', 'src/client/commands/cmd_table.c', 'src/client/commands/cmd_help.c', 'src/client/core/arith_context.c', 'src/client/core/arith_evaluation.c', 'src/engine/parsing/parser.c', 'src/engine/parsing/tokenizer.c', 'src/engine/transformation/rule_parsing.c', 'src/util/string_util.c'],
  mech=[('parser', 'src/engine/parsing/parser.c'), ('command dispatch', 'src/client/commands/commands.c')], obs=['every access, release and conversion'],
  tech='abstract interpretation of whole sessions with heap typestate and value bounds')
P(id='P29', title='Every command comes to an end', na='Termination depends on run-time magnitudes: recursion of fib, loops of gcd, binomial and factorial, steps of tables and the confluence of the rewrite rules. No static ranking argument in reach bounds them (fib(200) is meant to be computed and practically never ends). Endless loops on decided paths are reported by the other checks.',
  statement='Every command line, whatever is typed, is answered after finitely many steps.', over=['inputs'], text='all inputs', why='Tests cannot show termination.',
  files=['src/client/core/arith_evaluation.c', 'src/client/simplification/simplification.c'], mech=[('evaluator', 'src/client/core/arith_evaluation.c')], tech='-')
P(id='P36', title='Tables are drawn as aligned grids',
  statement="Whatever cells, alignments, lines and spanning areas a table is given, it is printed as one aligned grid: every line of the table has the same display width (escape sequences count nothing), every column starts at the same place in every row, the text of every cell appears complete, with all its lines, in its own place and aligned as set for the cell, its row or its column, lines run exactly where they were set, crossings join exactly the lines that meet, and nothing of a neighbour or a line shows inside a spanning area, which is cut back to the free cells where it meets cells already set. Printing changes nothing about a later printing. The value tables, help pages and function lists of the calculator are such grids.",
  over=['inputs'], text='all sequences of calls of the table interface within its stated preconditions, and all tables the commands print', why='The tests print five tables and check nothing about them; a column that is one too narrow shows only with particular spans, lines and texts.',
  files=['src/table/table.c', 'src/util/string_util.c', 'src/client/commands/cmd_table.c', 'src/client/commands/cmd_help.c'], mech=[('table printer', 'src/table/table.c'), ('sizes of columns and rows', 'src/table/table.c')], obs=['bytes written by print_table'],
  tech='abstract interpretation of the table interface against a reference layout')
P(id='P40', title='A drawn tree shows every node under its parent',
  statement='The drawing of an expression tree (up to 32 levels deep) consists of one line per node, each below its parent and in the order of the operands, with its name or value as it prints elsewhere, a branch symbol that tells whether another operand follows, and a vertical line exactly below every ancestor that has operands still to come. Drawing leaves the tree as it is.',
  over=['inputs'], text='all tree shapes and labels', why='The drawing is meant for finding faults and is not tested at all; a wrong drawing misleads whoever relies on it.',
  files=['src/engine/tree/tree_to_string.c'], mech=[('drawing of trees', 'src/engine/tree/tree_to_string.c')], obs=['printed lines'],
  tech='abstract interpretation of the drawing function against the tree it is given')
P(id='P39', title='Results are accurate to the printed digits', na='Accuracy of floating-point evaluation is a quantitative statement about rounding in long chains of library calls; the formulas are decided by P01, the rounding error is not bounded by any static argument in reach here.',
  statement='The digits printed for a result are correct.', over=['inputs'], text='all expressions', why='Rounding errors accumulate with the length of expressions.',
  files=['src/client/core/arith_evaluation.c', 'src/engine/tree/tree_to_string.c'], mech=[('evaluator', 'src/client/core/arith_evaluation.c')], tech='-')
