#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit; output is committed)."""
import json, os
R = 'src/randvar.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                    'mechanism': [dict(name=a, where=b) for a, b in mech],
                    'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'A die keeps exactly the probabilities it was built from',
     'A die built from faces and non-negative integer weights lists each distinct face once, in ascending order, with a probability equal to that face\'s share of the total weight and weights in lowest terms, whatever the order, repetition or type (booleans count as 0/1) of the faces given; building from a number, nested sequences, ranges or other dice gives every listed element the same weight. '
     'The truncation setting or argument cuts faces toward zero before equal faces are merged, the ignore-zero setting removes exactly the faces of total weight zero, and a die with no faces is the constant 0. '
     'Negative or non-integer weights and mismatched lengths are rejected.',
     ['inputs', 'configurations'], 'all face lists (any integers or reals, any order and repetition) and all non-negative integer weights, under each settings combination',
     'tests build a few dozen literal dice; order, repetition, zero weights, float/bool faces and settings combine freely in users\' programs',
     [R, 'src/factory.py', 'src/seq.py', 'src/settings.py'],
     [('sort, group and normalise on construction', R + ' RV.__init__/_sort_and_group'), ('flattening of nested sources', 'src/factory.py get_seq')],
     [('vals/probs', 'faces and integer weights', R)], ['RV.vals', 'RV.probs'])
prop('C02', 'Arithmetic, comparisons and logic on dice are exact',
     'An operator applied to two dice gives every possible result exactly the probability that the operator yields it on independent rolls of the two operands; this holds for the arithmetic, comparison and and/or operators with a die on the left, on the right (order respected) or on both sides, with numbers and with sequences (a sequence counts as its sum), and for negation, absolute value, logical not, rounding, floor, ceiling and truncation. '
     'A die combined with itself is treated as two independent rolls.',
     ['inputs'], 'all faces and weights of both operands and all numbers, per operator and operand kind',
     'tests check literal dice for each operator; wrong handling shows only for particular sign, order, equality or zero patterns of faces and weights',
     [R, 'src/seq.py'], [('convolution', R + ' RV._convolve/_rconvolve/_rdict')], (), ['RV.vals', 'RV.probs'])
prop('C03', 'Rolling n dice gives the exact distribution of their sum',
     'Rolling n copies of a die gives exactly the distribution of the sum of n independent rolls; zero dice give the constant 0, a negative count gives the negated sum, a sequence count means its sum, a fractional count is rounded up, and a count that is itself a die gives the mixture over its outcomes. '
     'A side count of m means faces 1..m, a negative side count -m means faces -m..-1, zero sides mean the constant 0, a sequence means its elements as equally likely faces, and the textual form "ndm" means the same as rolling n dice of m sides.',
     ['inputs', 'histories'], 'all face values and weights, all counts up to the bound, all side counts up to the bound',
     'tests roll common dice; the divide-and-double algorithm, memo table and special cases depend on n, sign and faces',
     ['src/roller.py', R, 'src/altcast.py'], [('divide and double with memo', 'src/roller.py _roll_int_rv'), ('dispatch on count/side kinds', 'src/roller.py roll/_roll')],
     [('memo of rolls', 'rolls already computed', 'src/roller.py _MEMOIZED_ROLLS')], ['roll', 'D'])
prop('C04', 'Position selection gives exact order statistics',
     'Selecting position k of a pool of n independently rolled dice gives exactly the distribution of the k-th highest roll (k-th lowest under the lowest-first order), 0 when k is outside 1..n; selecting a sequence of positions gives exactly the distribution of the sum of the rolls at those positions, repeats included. '
     'A result that is not a plain pool (a constant, an arithmetic result, a roll whose count is a die) counts as a single die, and using a die as a position is rejected.',
     ['inputs', 'configurations'], 'all faces and weights, all pools and positions within the bound, both position orders',
     'tests use uniform dice and the default order; closed-form order statistics go wrong only for some weight and position combinations',
     [R, 'src/seq.py', 'src/roller.py'], [('closed-form order statistic', R + ' RV._get_kth_order_statistic'), ('expansion of a pool into sorted rolls', R + ' RV._get_expanded_possible_rolls/_sum_at')],
     [('source', 'how many of which die a result is a pool of', R)], ['operator @'])
prop('C05', 'Calling a function with dice averages over all their rolls',
     'Calling a function that expects a number with a die, or one that expects a sequence with dice, gives exactly the distribution obtained by calling it on every possible roll (for a sequence: the sorted rolls of the pool) and mixing the results with the probabilities of those rolls, several such parameters being independent; results may be numbers, dice or sequences (counted as their sum) and blank or missing results are dropped with the rest rescaled. '
     'Otherwise an argument is converted to the expected kind (sequence to its sum, number to a one-element sequence, number or sequence to a die), and unannotated arguments, keyword arguments and defaults reach the function unchanged.',
     ['inputs', 'programs'], 'all argument dice, weights and numbers, and all function results (an arbitrary function of the roll)',
     'tests call a handful of fixed functions; the guarantee is for any function and any die',
     ['src/decorators.py', R], [('casting decorator', 'src/decorators.py anydice_type_casting'), ('mixture', R + ' RV.from_rvs')], (), ['anydice_casting'])
prop('C06', 'Mixtures weight every component by its share',
     'Combining dice, numbers and blanks with integer weights gives a die in which each component contributes its own probabilities multiplied by its share of the total weight of the non-blank components, whatever the scale of each component\'s internal weights; without weights all components count equally. '
     'Blank or missing components are dropped together with their weights, and if nothing remains the result is blank.',
     ['inputs'], 'all component dice, all weights, all placements of blanks within the bound',
     'tests mix small literal dice; scale errors show only when the components\' totals differ in particular ways',
     [R, 'src/blackrv.py'], [('common scale for components', R + ' RV.from_rvs')], (), ['RV.from_rvs'])
prop('C07', 'Sequences index, compare and combine as documented',
     'A sequence lists its sources\' numbers, nested sequences and ranges in order and after them the faces of any dice among them (a range a..b gives the whole numbers from a to b, fractions cut toward zero, and nothing when b is below a), is 1-indexed with 0 for any position outside it, and selecting with a sequence of positions adds up the selected elements (a plain number is read as its decimal digits). '
     'Arithmetic and logic use the sum of the sequence; comparing with a number counts the elements that satisfy the comparison, comparing with a die compares the sum, and comparing two sequences compares position by position, all of which must hold (a missing element is lower than any number), with "not equal" the exact negation of "equal".',
     ['inputs'], 'all element values, lengths and nesting within the bound, all positions',
     'tests use a few literal sequences; sign, length difference and position boundaries combine freely',
     ['src/seq.py', 'src/factory.py', 'src/utils.py'], [('sequence operators', 'src/seq.py')], (), ['Seq', 'get_seq'])
prop('C08', 'The dice function library computes what its names say',
     'For every die, pool, sequence and number, the library functions are exact: absolute value, contains, count of values in a sequence, highest / lowest / middle n of a pool, highest and lowest of two numbers, maximum of a die, true division, reverse and sort return exactly the value or distribution their definition gives, including for n below 1 or above the pool size and for pools of one or zero dice (positions counted from the highest, the default order). '
     'The re-roll function (great weapon fighting) re-rolls exactly once each die that shows at most the threshold.',
     ['inputs'], 'all arguments: faces, weights, pool sizes and n within the bound, arbitrary numbers',
     'tests evaluate literal pools; boundary n, ties, negative faces and non-uniform weights are not covered',
     ['src/funclib.py', 'src/decorators.py', R], [('library', 'src/funclib.py')], (), ['absolute_X ... sort_X', 'funclib.gwf'])
prop('C09', 'Exploding a die re-rolls its maximum to the set depth',
     'Exploding a die to depth k gives exactly the distribution of rolling it, and while the last roll shows the die\'s highest face and fewer than k extra rolls have been made, rolling again and adding; the depth comes from the argument or else from the current "explode depth" setting, and depth 0 leaves the die unchanged.',
     ['inputs', 'configurations'], 'all faces and weights of the die, all depths within the bound',
     'tests explode uniform dice; non-uniform weights, zero or negative maxima and changed settings are not covered',
     ['src/funclib.py'], [('recursive helper', 'src/funclib.py explode/_explode_helper')], (), ['explode_X'])
prop('C10', 'Summaries describe the die exactly',
     'Mean and standard deviation are the exact moments of the distribution; the probability table lists every face with its probability; the cumulative form gives each face the probability of a result not above it; filtering removes exactly the listed faces and rescales the rest. '
     'Cutting a table removes the least likely faces only as long as the total removed probability stays below the cut, and removes nothing else.',
     ['inputs'], 'all faces and weights, all cut thresholds, all filter lists within the bound',
     'tests compare rounded text for a few dice',
     [R], [('moments, table, cdf, filter', R + ' RV.mean/std/get_vals_probs/get_cdf/filter')], (), ['RV.mean', 'RV.std', 'RV.get_vals_probs', 'RV.get_cdf', 'RV.filter'])
prop('C11', 'Results do not depend on what was computed before',
     'No operation changes the dice, sequences or options it is given (faces, weights, pool structure and printed name stay the same), and the result of any operation depends only on its arguments and the current settings, never on which rolls, selections or function calls were evaluated earlier in the process.',
     ['histories', 'inputs'], 'all pairs and triples of earlier and later operations within the bound, for all faces and weights',
     'tests run each expression once; a stale cache entry or a mutated shared die shows only for a particular earlier history',
     ['src/roller.py', R, 'src/utils.py', 'src/funclib.py', 'src/decorators.py'], [('memo key', 'src/roller.py _roll_int_rv'), ('immutability by convention', R)],
     [('memo of rolls', 'n, faces, weights -> result', 'src/roller.py _MEMOIZED_ROLLS'), ('memo of factorials', 'n -> n!', 'src/utils.py')], ['roll', 'operator @', 'str'])
prop('C12', 'Compiled expressions evaluate with the dice language\'s precedence',
     'Every expression of the dice language, once compiled and executed, has the value given by the language\'s grammar: unary operators bind tightest, then d, @, power, multiplication and division, addition and subtraction, comparisons, and, or; all binary operators associate to the left, parentheses group, "/" is floor division, "=" is equality, sequences, ranges, decimals, lengths and calls are evaluated in place. '
     'This holds for every combination of operators and operand kinds, with or without the integer-operator option.',
     ['programs', 'inputs'], 'all expressions up to the bound over all operators, with arbitrary numbers, sequences and dice as operand values',
     'tests compile fixed programs with literal operands; a precedence or parenthesising slip shows only for particular operator pairs and values',
     ['src/parser/myparser.py', 'src/parser/python_resolver.py', 'src/parser/parse_and_exec.py'],
     [('grammar and precedence table', 'src/parser/myparser.py'), ('code generation', 'src/parser/python_resolver.py')], (), ['compile_anydice'])
prop('C13', 'Compiled statements follow the dice language\'s control flow',
     'Compiling and executing a program performs exactly its statements: assignments, outputs in order with their names, settings, if / else if / else on numbers, loops over sequences in order, functions with typed and untyped parameters (a variable a function assigns is its own by default), results (the first result reached ends the call; none means blank), recursion and nesting. '
     'A function sees its parameters and, under the default option, the program\'s variables without changing them; under the non-local-scope option a called function works on a copy of its caller\'s variables.',
     ['programs', 'inputs', 'configurations'], 'all programs built from the statement forms within the bound, arbitrary values of the variables tested and assigned',
     'tests compile fixed programs; statement forms nest and combine freely',
     ['src/parser/python_resolver.py', 'src/parser/myparser.py', 'src/decorators.py'], [('statement translation', 'src/parser/python_resolver.py resolve_node')], (), ['compile_anydice'])
prop('C14', 'Text and names survive compilation intact',
     'Text in output names, settings and sequences reaches the program\'s results character for character, with only bracketed variable names replaced by their values, and can never change the meaning of the compiled program; every function name the language allows can be defined and called, also when it matches a library function, a compiler-internal or a Python name, without affecting calls to other functions.',
     ['programs', 'inputs'], 'all strings up to the bound over all characters, all function names built from language and Python words',
     'tests use ordinary words; escaping and collisions depend on particular characters and names',
     ['src/parser/python_resolver.py', 'src/parser/myparser.py'], [('string escaping', 'src/parser/python_resolver.py STRING'), ('collision handling', 'src/parser/python_resolver.py resolve')], (), ['compile_anydice'])
prop('C15', 'Programs outside the language are rejected, others are accepted',
     'Compiling raises an error for every text that is empty, contains an illegal character or unclosed string, does not follow the grammar (numbers are ASCII digits, an empty pair of quotes counts as nothing), calls a function that is nowhere defined, makes no output, or is given unknown options, and succeeds for every other text; nothing is silently dropped.',
     ['programs'], 'all token sequences up to the bound',
     'tests reject a handful of malformed programs',
     ['src/parser/myparser.py', 'src/parser/parse_and_exec.py', 'src/parser/python_resolver.py'], [('lexer/parser error lists', 'src/parser/parse_and_exec.py compile_anydice'), ('existence check', 'src/parser/python_resolver.py resolve')], (), ['compile_anydice'])
prop('C16', 'Settings accept exactly their legal values and take effect',
     'Setting a named option to a legal value makes exactly that option have that value until it is changed or reset; an illegal value or name is rejected and leaves every option unchanged; resetting restores every option to its default, also after the options were used.',
     ['histories', 'configurations'], 'all sequences of set and reset calls within the bound, all values of each kind',
     'tests set each option once or twice',
     ['src/settings.py'], [('validation', 'src/settings.py settings_set'), ('reset', 'src/settings.py settings_reset')], [('SETTINGS', 'current options', 'src/settings.py')], ['settings_set', 'settings_reset'])
prop('C17', 'Sampling draws faces with their probabilities',
     'Drawing random results returns only faces of positive probability, each with exactly its probability given the random source, one value without a count and exactly the requested number of independent values with a count; numbers and sequences are sampled as the die they denote.',
     ['inputs', 'histories'], 'all dice, counts within the bound, all outcomes of the random source',
     'tests cannot settle random behaviour by sampling',
     ['src/roller.py'], [('weighted choice', 'src/roller.py roller')], (), ['roller'])
prop('C18', 'Text faces are ordered, hashed and added consistently',
     'Text faces and their sums with numbers and other text form a total order above all numbers that agrees with equality; equal values hash alike whatever order they were built in; addition collects like terms, is commutative and associative, and dice and sequences with text faces group, add, compare, count, index, sort and explode them exactly like numbers, with a text on either side.',
     ['inputs'], 'all texts, coefficients and numbers within the bound',
     'tests add and compare a few literals',
     ['src/string_rvs.py', 'src/factory.py', R], [('term map', 'src/string_rvs.py StringVal')], (), ['StringVal via get_seq/roll'])
prop('C19', 'Blank dice behave as documented in every combination',
     'A blank die (nothing rolled) is absorbed by addition, subtraction and or, turns every other operator\'s result blank, has length 0 (between two blanks the left one decides), and the special blank of a blank roll count stays itself under arithmetic, is 1 under comparison and logic and has length 1; passing either where a number or sequence is expected gives the special blank without calling the function, and rolling with a blank count or blank or empty die gives the corresponding blank.',
     ['inputs'], 'all operators, operand kinds and sides',
     'tests cover selected combinations',
     ['src/blackrv.py', 'src/decorators.py', 'src/roller.py', R], [('operator table', 'src/blackrv.py')], (), ['BlankRV'])
prop('C20', 'Very large pools stay accurate and consistent',
     'When the total weight of a result grows beyond the internal limit, reported probabilities stay within 1e-12 of the exact ones, remain non-negative and sum to one, and every later operation on the reduced result (selection, mixing, summaries) is still consistent with the reported probabilities.',
     ['inputs'], 'all weights, including totals far beyond the limit',
     'tests never reach the limit with checkable values',
     [R], [('weight reduction', R + ' _INTERNAL_PROB_LIMIT_VALS')], (), ['RV.probs'])
prop('C21', 'The function depth limit always truncates and always recovers',
     'Calls nested deeper than the configured maximum return blank instead of being executed, calls within it always execute, and after any call returns or raises an error the depth available to later calls is the same as before it.',
     ['histories', 'fault_sequences'], 'all call trees, limits and points of failure within the bound',
     'tests recurse once without failures',
     ['src/decorators.py', 'src/settings.py'], [('depth counter', 'src/decorators.py max_func_depth')], [('current depth', 'nesting level', 'src/settings.py SETTINGS')], ['anydice_casting', 'max_func_depth'])
prop('C22', 'Printed output reports the die faithfully',
     'The printed report of a die shows its name, its mean and deviation rounded to two decimals, and one row per face of the probability table with the percentage to two decimals and a bar proportional to it; blank dice and empty sequences give an empty report, and the report goes to exactly the chosen printer or is returned.',
     ['inputs', 'configurations'], 'all dice, widths, names and option combinations within the bound',
     'tests compare whole texts for a few dice',
     ['src/output.py', R], [('rendering', 'src/output.py output')], (), ['output'])
prop('C23', 'Numbers act as digit sequences where the language says so',
     'Under the integer-operator option, length of a number is its count of decimal digits, position selection in a non-negative number picks the decimal digit (0 outside), not / and / or on numbers give 0 or 1, and for any other operand kinds these operators mean the same as without the option.',
     ['inputs'], 'all integers within the digit bound, all positions, all operand kinds',
     'tests use a few literals',
     ['src/utils.py', 'src/seq.py'], [('integer operators', 'src/utils.py')], (), ['myMatmul, myLen, myInvert, myAnd, myOr'])

prop('C24', 'Dice are named in dice notation',
     'A roll of n m-sided dice is named "ndm", the count left out when its absolute value is at most 1 and a minus sign in front when exactly one of n and m is negative; with n or m 0 the sides read "{0..0}"; a roll of any other die is "nd{?}" ("d{0..0}" for no dice), rolling a single rolled m-sided die keeps the m, a computed die is "d{?}", a blank "d{}", a sequence "{?}"; no operation changes the name of its operands, and the same names appear for variables in the names of outputs. Counts that are themselves dice are outside the claim.',
     ['inputs', 'histories'], 'all counts and sides within the bound, all operations',
     'tests list selected notations',
     [R, 'src/roller.py', 'src/seq.py', 'src/blackrv.py'], [('name rules', R + ' __str__'), ('left and right hand side', 'src/roller.py')], (), ['str of roll results', 'output named'])
prop('C25', 'Dice are equal exactly when their distributions are',
     'Comparing two dice, numbers or sequences for equality as dice (dices_are_equal) answers yes exactly when they have the same faces with the same probabilities (a face kept with probability zero counts as a face), however their faces, weights or computation were written and in either argument order; equal dice have equal hashes; a blank equals only a blank.',
     ['inputs'], 'all pairs of dice within the bound',
     'tests compare hand-picked results',
     [R], [('comparison', R + ' dices_are_equal'), ('canonical form', R + ' _sort_and_group'), ('hash', R + ' __hash__')], (), ['RV.dices_are_equal, hash'])
prop('C26', 'Restricted execution gives the same results as ordinary execution',
     'Executing a compiled program with the restricted executor produces the same outputs with the same values and names, the same errors and the same settings afterwards as executing it with the ordinary executor, for every program of the language (variable names start with a letter; names starting with an underscore are refused); supplied variables and functions are visible to the program in both, and apart from settings one execution leaves nothing behind that a later one can see.',
     ['inputs', 'histories', 'configurations'], 'all programs and inputs within the bound, all compiler options',
     'tests execute a handful of programs this way',
     ['src/parser/parse_and_exec.py'], [('executors', 'src/parser/parse_and_exec.py safe_exec, unsafe_exec')], (), ['safe_exec', 'unsafe_exec'])
prop('C27', 'Compilation depends on the text and the options only',
     'Whether a text is accepted and what the compiled program does depend only on the text and the options given: programs compiled before (accepted or rejected, with any options) and programs executed before change neither the acceptance nor the behaviour of a later one; compiling changes no settings and not the given options; and a compiled program can be executed again, with other programs in between, giving the same outputs and names for the same inputs and settings.',
     ['histories', 'inputs', 'configurations'], 'all histories of the listed programs and all inputs within the bound, all compiler options',
     'tests compile each program once, in one order',
     ['src/parser/parse_and_exec.py', 'src/parser/myparser.py', 'src/parser/python_resolver.py'], [('entry point', 'src/parser/parse_and_exec.py compile_anydice'), ('state of a compilation', 'src/parser/python_resolver.py'), ('lexer and parser', 'src/parser/myparser.py')], (), ['compile_anydice', 'unsafe_exec'])
prop('C28', 'Requests without a meaning are refused and leave no trace',
     'A die is refused (with an error) when its weights are not whole numbers of at least 0 or not as many as its faces; so is a mixture with a weight missing, left over or negative; a die or pool used as a condition, as a bound of a range or compared as a sequence; a selection whose positions are a die, a blank or fractional; a roll with a fractional or floating count, or with a text that is no dice notation; a sequence or die with an element that is not a number, text, sequence or die; and a probability cut outside [0, 1). '
     'The refusal changes no setting and none of the operands, and later requests are answered as if it had not been made.',
     ['inputs', 'histories'], 'all values in the offending place within the bound',
     'tests try selected invalid values',
     [R, 'src/seq.py', 'src/roller.py', 'src/utils/mymath.py'], [('weights', R + ' RV.__init__, from_rvs'), ('condition', R + ' __bool__'), ('elements', 'src/seq.py get_seq'), ('roll', 'src/roller.py roll')], (), ['exceptions of the public operations'])

prop('C29', 'Errors name the place where the program goes wrong',
     'When a program is rejected for illegal characters or an unclosed string, the error lists each of them, in order, with its offset, line and column in the text; when it is rejected because it does not follow the grammar, the first place named is the first token at which the text can no longer be continued to a program, with its text, offset, line and column. '
     'Lines count from 1 (also across comments, blank lines and strings), columns from 1, offsets from 0; a program that merely ends too early names no place.',
     ['programs'], 'all token sequences and all layouts of lines and columns up to the bound',
     'tests only look at whether errors occurred, never at their places',
     ['src/parser/myparser.py', 'src/parser/parse_and_exec.py'], [('error rules and line counting', 'src/parser/myparser.py t_ANY_error, t_ANY_eof, p_error, find_column')],
     [('current line', 'lines read so far', 'src/parser/myparser.py lexer.lineno')], ['compile_anydice'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
