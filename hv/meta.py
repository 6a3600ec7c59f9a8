"""Levels, notes and assumptions per property (MANIFEST.json and the evidence are written from this)"""

PROOF = 'contract-based deductive verification: pyvc obligations over the source of /repo, discharged by z3'
BOTH = PROOF + '; bounded contract replay as the labelled stand-in for what has no obligation'

PARSER = ['the step obligations see the line and token patterns as match predicates (with the facts on groups that the parsed pattern gives); the texts they take and the groups they '
          'make are decided separately, against independent forms (pattern.*, marked regular languages)',
          'two patterns with the same marked language and the same rounds, without lazy repeats, divide a text the same way (argued)',
          'a line holds no line feed (the line split is by contract)']
INDUCTION = 'the induction over the lines, statements or sub-expressions that composes the step obligations is argued in DESIGN.md and not machine-checked'
CALLBACKS = 'fetchFn returns a text or null or raises; urlFn is total; logFn, if there is one, is callable and does not raise'
MODELS = 'models are schema-valid, with exactly one key per statement and expression'
FLOATTEXT = ['str(float) is the shortest text that reads back: whole numbers below 1e16 as digits and ".0", fractions ending in a non-zero digit, otherwise an exponent; '
             'float(str(x)) == x, int(str(n)) == n and float(str(n)) == n for |n| <= 2^53 are host facts',
             'the matching of a deterministic pattern on a text it accepts takes the whole text (the languages are decided on the pattern of the current source)',
             'floats are reals: negative zero is covered by the replay only']
RECURSION = "Python's recursion limit is outside the obligations (very deep expressions or calls)"

META = {
    'C01': ('exploration', 'lowering of every line from every parser state and execution of every statement kind are discharged obligations; the simulation between the lowered '
            'templates and the structured reading is covered by the bounded replay against a big-step interpreter of the source text', BOTH,
            PARSER + [INDUCTION, 'the lowered templates have the structured meaning: argued, not machine-checked']),
    'C02': ('proof', 'the tree of every text: operand, argument list, operator insertion (any depth of the tree), whole expression; insert keeps the precedence form (lemma); the token '
            'patterns against independent forms, as regular languages', PROOF, PARSER + [INDUCTION, RECURSION]),
    'C03': ('proof', 'every expression kind and operator, for all operand values', PROOF,
            [MODELS, INDUCTION, 'value_string by contract (a function of the value); its text is covered by the replay of C13']),
    'C04': ('proof', 'variable reads, calls, assignments, argument binding, the merge of the library into the globals', PROOF, [MODELS, CALLBACKS, INDUCTION]),
    'C05': ('exploration', 'no host exception escapes from expression evaluation, statements, includes and the library functions under contract (discharged); the other library '
            'functions by the bounded replay', BOTH, [MODELS, CALLBACKS, RECURSION]),
    'C06': ('exploration', 'the step of every line from every parser state, the end of the text, error columns and the caret are discharged, and so are the '
            'line and token patterns (regular languages); the invariance under prepended lines by the bounded replay', BOTH, PARSER + [INDUCTION, RECURSION]),
    'C07': ('exploration', 'lowering obligations and the label invariant lemma (every jump target defined once, every label used) are discharged; schema validity and lint of the '
            'models by the bounded replay', BOTH, PARSER + [INDUCTION, 'str() of integers is injective']),
    'C08': ('proof', 'every statement kind, from any state, for all models', PROOF, [MODELS, CALLBACKS, INDUCTION]),
    'C09': ('proof', 'the statement counter through statements, function calls, callbacks and includes', PROOF, [MODELS, CALLBACKS, INDUCTION, RECURSION]),
    'C10': ('exploration', 'parse_script is the fold of a step over logical lines; blanks around a line do not change what it is taken for, blanks before a token do not change the token, '
            'line ends and continuations are cut as documented (discharged); whole programs under layout edits by the bounded replay', BOTH, PARSER + [INDUCTION]),
    'C11': ('proof', 'the order, its axioms (reflexive, antisymmetric, transitive, unaffected by the spelling of numbers) and every consumer: the six operators, systemCompare, '
            'arraySort, dataSort, mathMin/mathMax, arrayIndexOf', PROOF, ['list.sort with cmp_to_key is a stable sort', 'NaN is excluded', INDUCTION]),
    'C12': ('exploration', 'self-composition obligations: operators and library functions on the int and the float spelling of an argument; a few functions by the bounded replay '
            'only (DESIGN.md)', BOTH, ['the numbers inside containers have the same spelling in both runs (bounded replay covers mixed ones)',
                                       'value_string and value_compare see the number, not the spelling (value_compare: discharged)']),
    'C13': ('proof', 'the text of every number (value_string, with the live clean-up pattern as a regular language), the number literal of the parser, value_parse_number and '
            'value_parse_integer for all texts', PROOF, FLOATTEXT),
    'C14': ('proof', 'value_json: the encoder is called with sorted keys and no NaN, and the clean-up of the live pattern leaves every token of a standard JSON text alone except the '
            'fraction of whole numbers; jsonParse and jsonStringify end to end by the bounded replay as well', PROOF,
            ['json.JSONEncoder.encode yields a standard JSON text of the value (keys sorted on demand) and json.loads is its inverse'] + FLOATTEXT[:1]),
    'C15': ('exploration', 'array, object and string functions under contract for all arguments (discharged); the remaining functions and histories of calls by the bounded replay',
            BOTH, ['callbacks do not mutate the array being searched or sorted', 'host str and re methods are uninterpreted functions']),
    'C16': ('exploration', 'datetimeNew against calendar arithmetic, getters, datetime arithmetic, the ISO text of a datetime and the parse of that text are discharged; '
            'date-only texts, texts that are no datetime and real time zones by the bounded replay', BOTH,
            ['components of at most 10^9 in size, all of one spelling', 'aware datetimes are convertible to local time', 'differences are whole milliseconds',
             'isoformat and fromisoformat are inverse on an existing local datetime with a whole-minute offset']),
    'C17': ('exploration', 'the include statement (fetch, execution, options, errors), the resolution of a reference against the file that holds it and what is fetched '
            'from a location are discharged; whole include trees by the bounded replay', BOTH, [CALLBACKS, MODELS, INDUCTION]),
    'C18': ('proof', 'lint_script and its helpers for all models: the sets of names are the names defined and used (loop invariants), no failure, the model is never written, every '
            'warning is given only when its condition holds and unknown-label and redefinition warnings exactly then; lemmas: an expression without calls has no effect, an evaluation '
            'does not depend on a local that does not occur', PROOF,
            [MODELS, INDUCTION, 'functions nested in functions are outside (known finding)', 'a warning is recognised by the start of its text',
             'the sets of names are found by their variable names in lint_script (otherwise the obligation is undecided)']),
    'C19': ('exploration', 'dataSort, dataFilter and dataCalculatedField (with and without variables), truthiness, comparison and number parsing are discharged; dataTop, dataAggregate, '
            'dataJoin and the CSV typing by the bounded replay against relational oracles', BOTH,
            ['row expressions by contract: evaluation does not change the table', 'sort keys are arrays that start with a field name', 'list.sort is stable']),
    'C20': ('proof', 'diffLines of include/diff.bare: loop invariants over the parsed script, for all texts and line arrays; the include files are checked completely', PROOF,
            ['inputs are texts or arrays of texts', 'library calls by their contracts (library.*; objectNew assumed)', 'regexSplit is a function of the text',
             'numbers are mathematical integers'])
}
META = {prop: {'level': level, 'note': note, 'technique': technique, 'assumptions': assumptions} for prop, (level, note, technique, assumptions) in META.items()}
