"""Writes properties.jsonl and MANIFEST.json (run by hand after a change of the property list)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SMF, HF, AF = 'structmeta-derive/src/struct_meta.rs', 'structmeta/src/helpers.rs', 'structmeta/src/arg_types.rs'
PF, TF, TA, SU, LF = 'structmeta-derive/src/parse.rs', 'structmeta-derive/src/to_tokens.rs', 'structmeta-derive/src/to_tokens_attribute.rs', 'structmeta-derive/src/syn_utils.rs', 'structmeta-derive/src/lib.rs'
BOTH = 'every parameter list the derive accepts (fields, types, names, options) and every token sequence given to the parser it generates'
PROG = 'every definition a user may put under the derive'
TV = 'product analysis (typestate / value flow) of the MIR of generated parsers against an executable specification'
CFT = 'compile-fail witnesses: the compiler has to reject every invalid definition, and accept every documented one'

# id, title, statement, over, quantifier, why tests cannot, files, mechanism
P = []


def p(id, title, statement, over, text, why, mech, technique, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, technique=technique, level=level, note=note))


TVN = ('Every abstract path of each analysed parser is compared with the specification on the facts the parser itself established about the token sequence, for token sequences of every length (loop states are widened and run to a fixed point). '
       'Exhaustive over token sequences per parameter list; parameter lists are a systematic corpus (plus seeded random ones). Trusts rustc\'s lowering and the model of syn\'s parse API. ')
p('S01', 'A parameter given twice is rejected',
  'A parser generated for an attribute parameter list never succeeds when the same parameter is given twice, whichever of the styles `name`, `name = value` and `name(args)` the two occurrences use and whatever stands between them. The same holds for a repeated name that goes to the rest parameter.',
  ['programs', 'inputs'], BOTH, 'The tests repeat a few parameters directly; the guarantee is about every pair of positions, styles and parameter kinds, and about rest names.',
  [('duplicate test in each match arm', SMF + ' NamedParam::build_arm_parse, RestParam::build_arm_parse')], TV, 'translation_validation', TVN)
p('S02', 'Missing required parameters are rejected, optional ones get their default',
  'A generated parser never succeeds when a required named or unnamed parameter is absent. An absent optional parameter yields exactly its documented default: none, false, an unset flag or an empty collection.',
  ['programs', 'inputs'], BOTH, 'The tests omit single parameters of a few lists; the guarantee is about every subset of parameters of every list.',
  [('constructor arguments', SMF + ' NamedParam::build_ctor_arg, UnnamedParam::build_ctor_arg')], TV, 'translation_validation', TVN)
p('S03', 'Unknown names are rejected or go to the rest parameter exactly once',
  'Without a rest parameter, an argument whose name belongs to no parameter never makes a generated parser succeed. With a rest parameter, such an argument, in a style the rest parameter supports, is stored in it exactly once under its own name with its own value, and arguments that belong to a declared parameter are never stored there.',
  ['programs', 'inputs'], BOTH, 'The set of unknown names is infinite, and they interact with every declared name and style.',
  [('name lookup', HF + ' try_parse_name, name_index_of'), ('rest arm', SMF + ' RestParam::build_arm_parse')], TV, 'translation_validation', TVN)
p('S04', 'Every argument value reaches the parameter of its name',
  'On success the value of each named parameter is the value that was written in the argument with that name (including names set with `name = "..."` and raw identifiers), independent of the order in which arguments are written and fields are declared. No value is lost, exchanged or reused.',
  ['programs', 'inputs'], BOTH, 'The routing goes through index tables whose order differs from the order of the fields; tests look at a few orders.',
  [('index tables by style', SMF + ' Params::build, named_ps'), ('index lookup', HF + ' find')], TV, 'translation_validation', TVN)
p('S05', 'Parameters accept only the styles of their type, and record which was used',
  'A parameter whose type documents the styles `name`, `name = value` or `name(args)` succeeds only with one of its own styles. For a parameter with several styles, the value says which one was used: a value is present iff the argument had one.',
  ['programs', 'inputs'], BOTH, 'All pairs of parameter type and argument style, in every context of other parameters, cannot be sampled.',
  [('style predicates', SMF + ' NamedParamType::is_flag, is_name_value, is_name_args'), ('style detection', HF + ' try_parse_name')], TV, 'translation_validation', TVN)
p('S06', 'Unnamed parameters are filled in order, with their arity, before named ones',
  'Unnamed arguments fill the required, then the optional, then the variadic unnamed parameters in declaration order; fewer than the required or more than the declared number is rejected. An unnamed argument after a named argument is rejected, and a variadic parameter keeps all its values in order.',
  ['programs', 'inputs'], BOTH, 'The number of unnamed arguments is unbounded, and so are the combinations of required, optional, variadic and named parameters.',
  [('positional loop', SMF + ' Params::build')], TV, 'translation_validation', TVN)
p('S07', 'Arguments are separated by single commas and the whole input is consumed',
  'A generated parser succeeds only when the arguments are separated by exactly one comma each, with at most one comma after the last argument, and nothing is left over. A trailing comma after at least one argument never changes the result.',
  ['programs', 'inputs'], BOTH, 'Token sequences of every length, with a comma missing or doubled at every place, for each parameter list.',
  [('separator handling', SMF + ' Params::build')], TV, 'translation_validation', TVN)
p('S08', 'Named and unnamed arguments are told apart by the documented rule',
  'When a parameter list has unnamed and named parameters, an argument is read as named exactly when its first tokens have the shape of a style that some named parameter uses (and its name passes the name filter); otherwise it is read as an unnamed value. Without an applicable unnamed parameter every argument is read as named, and the decision never depends on what follows that shape.',
  ['programs', 'inputs'], BOTH, 'The rule depends on the styles of all parameters, the filter, the position and the next two tokens.',
  [('decision list', HF + ' try_parse_name'), ('flags passed to it', SMF + ' Params::build')], TV, 'translation_validation', TVN)
p('S09', 'The snake_case filter accepts exactly ASCII lower case, digits and underscore',
  'With `name_filter = "snake_case"`, an identifier is treated as a parameter name iff all its characters are in a-z, 0-9 or underscore. Every other identifier is read as the beginning of an unnamed value, or rejected where no unnamed value can stand.',
  ['programs', 'inputs'], BOTH + '; every identifier, Unicode ones included', 'Identifiers are unbounded and over all of Unicode; tests look at a handful of ASCII ones.',
  [('filter predicate', HF + ' is_snake_case'), ('filter selection', SMF + ' NameFilter::to_code')], 'character-set summary of the filter predicate (interval analysis over all code points) inside the product analysis', 'translation_validation', TVN)
p('S10', 'The error of a failing value parser reaches the caller unchanged',
  'When the parser of a parameter value (or of an unnamed value) fails, the generated parser fails with that very error: it neither succeeds, nor replaces the error, nor tries another interpretation of the argument.',
  ['programs', 'inputs'], BOTH, 'Failing at each value position of each list is not sampled, and tests compare the success value.',
  [('error propagation', SMF + ' NamedParamType::build_parse_value')], TV, 'translation_validation', TVN)
p('S11', 'Stored name spans are the spans of the argument\'s own name',
  'The span that a parameter records (flags, `name = value` and `name(args)` wrappers, also inside the rest parameter) is the span of the name token of that very argument in the input.',
  ['programs', 'inputs'], BOTH, 'The tests ignore spans (equality of the wrapper types ignores them).',
  [('span passed to the arms', SMF + ' NamedParam::build_arm_parse'), ('span of the identifier', HF + ' try_parse_name')], TV, 'translation_validation', TVN)
p('S12', '`name = value` is recognised whatever the value begins with or the spacing',
  'After a parameter name, an equals sign that is not part of `==` or `=>` begins a `name = value` argument, also when the value begins with punctuation that directly follows the equals sign. `name ==` and `name =>` are never read as `name = value`.',
  ['programs', 'inputs'], BOTH, 'Needs values that begin with each punctuation character without a space in between.',
  [('equals detection', HF + ' peek_eq_op and the parse of `=` in try_parse_name')], TV, 'translation_validation', TVN)
p('S13', 'A field type has the same meaning however it is spelled',
  'A recognised field type (flag, optional, list, map, value and argument wrappers) is treated alike when it is written with a path prefix or passed through a macro fragment, and a type that merely resembles one (other name, other number of parameters) is treated as an ordinary value type.',
  ['programs'], PROG + ' with each spelling of the recognised types', 'The tests use one spelling of each type.',
  [('type recognition', SMF + ' NamedParamType::from_type, get_element; ' + SU)], TV + ' on the same list under different spellings', 'translation_validation', TVN)
p('S14', 'Invalid parameter lists are rejected at the definition, valid ones are accepted',
  'The derive for attribute parameter lists reports an error at the definition for: enums and unions, duplicate names, two rest parameters, an unnamed parameter after a variadic one, a required unnamed parameter after an optional one, an unnamed parameter of a flag or wrapper type, and malformed or unknown `struct_meta` arguments. Every parameter list that follows the documentation compiles.',
  ['programs'], PROG, 'The compile-fail tests cover a few definitions and are ignored by default.',
  [('validation', SMF + ' Params::from_fields, Param::from_field, ArgsForStruct, ArgForField')], CFT, 'other',
  'Each rule is instantiated in several shapes and positions (struct shapes, attribute forms, field positions). Trusts the compiler front end; definitions outside the corpus are not decided.')
p('S15', 'Errors of a parameter list point at the argument that caused them',
  'When a generated parser rejects an argument because it is repeated, unknown, in a wrong style, out of order, one too many or not separated by a comma, the location of the error is the place where that argument begins (or the comma is missing). The error for an absent parameter points at no argument: it is located at the macro call or at the end of the list.',
  ['programs', 'inputs'], BOTH, 'The tests in use do not look at locations at all, and an error depends on everything read before it.',
  [('errors of the runtime', HF + ' try_parse_name'), ('errors of the generated code', SMF + ' NamedParam::build_arm_parse, RestParam::build_arm_parse, Params::build')], TV, 'translation_validation', TVN)
p('S16', 'Errors of a parameter list name the parameter and its forms',
  'The message for a repeated, missing, unknown or wrongly styled named argument contains the name of that very parameter (not of another one). For a known name in a wrong style it offers exactly the forms the parameter (or the rest parameter) has: `name = ...`, `name(...)` or flag `name`; for an unknown name, any other name it suggests is one of the declared parameters and differs from the written one by one character or by two swapped neighbours, and when exactly one declared parameter does, that one is suggested. The message for a missing parameter shows no form the parameter does not have.',
  ['programs', 'inputs'], BOTH, 'The tests in use do not look at messages; names and forms come from index tables sorted by style.',
  [('messages of the runtime', HF + ' try_parse_name, name_of, msg, find_similar_name'), ('messages of the generated code', SMF + ' NamedParam::build_arm_parse, NamedParam::build_ctor_arg')], TV + ', with error texts as terms over the identifiers of the input', 'translation_validation', TVN + 'Error texts composed with values the analysis does not know are not decided.')
p('S17', 'Parenthesised argument lists are parsed completely and in order',
  'For a parameter given as `name(args)`, the values inside the parentheses are parsed from that group only: one value, or for a list parameter all comma-separated values in order with an optional trailing comma; tokens left over in the group are an error.',
  ['programs', 'inputs'], BOTH, 'Groups of every length and content, next to other parameters.',
  [('nested parse', SMF + ' NamedParamType::build_parse_value')], TV, 'translation_validation', TVN)
p('C05', 'Generated parsers and emitters and their runtime support never panic',
  'Whatever the input, a parser or token emitter generated by one of the derives, including the runtime functions it calls to find names and to compose error messages, returns a result: it never panics, whatever the identifiers in the input look like.',
  ['programs', 'inputs'], BOTH, 'A panic needs a particular identifier or token sequence; the tests reach few of the error paths.',
  [('runtime support', HF), ('generated code', SMF + ' Params::build; ' + PF + ' code_from_enum, code_from_fields')], 'reachability of panic terminators in the product analysis, and in an analysis of the name suggestion with symbolic characters', 'translation_validation', TVN)
p('C06', 'Generated parsers return after finitely many steps',
  'Whatever the input, a parser generated by one of the derives, including the runtime functions it calls to find names and to compose error messages, returns after finitely many steps, provided the parsers of the field types do: every pass of a loop moves on in the input or in a finite list, and no call repeats itself with the arguments it was given. The same holds for generated token emitters.',
  ['programs', 'inputs'], BOTH, 'A hang needs a particular token sequence or identifier (an error in a loop that is not left, a name of a particular length); the tests reach few of the error paths and none waits for a loop to end.',
  [('loop of the parser', SMF + ' Params::build'), ('runtime support', HF + ' try_parse_name, find_similar_name, distance'), ('generated code', PF + ' code_from_enum, code_from_fields; ' + TF)], 'progress on every cycle of the product of generated parser and specification; repeated calls and loop states in the runtime support', 'translation_validation', TVN)
p('P01', 'A derived parser reads the fields in declaration order',
  'A parser derived for a struct (or for the chosen variant of an enum) reads one value per field, in declaration order, each starting exactly where the previous one ended, and stores every value in its own field. It accepts exactly when all of them can be read, and consumes nothing behind the last.',
  ['programs', 'inputs'], 'every struct or enum definition and every token sequence', 'Tests run a few definitions on inputs that parse.',
  [('field sequence', PF + ' code_from_fields')], TV, 'translation_validation', TVN)
p('P02', 'Delimiter fields open and close exactly where declared',
  'For a field that declares an opening delimiter, the following fields are read from inside that group, up to the field that declares the closing one or to the end of the definition, in any nesting; the group must have the declared kind (any kind for the generic macro delimiter), and reading continues directly behind the group.',
  ['programs', 'inputs'], 'every nesting of the three delimiters over the fields and every token sequence', 'Nesting depth and the placement of closing marks are unbounded; the tests have a few.',
  [('scope stack', PF + ' code_from_fields'), ('macro delimiter', HF + ' parse_macro_delimiter')], TV, 'translation_validation', TVN)
p('P03', 'Enum variants are tried in order without side effects',
  'A derived enum parser tries the variants in declaration order and returns the first one that can be read at the original position; a failed attempt consumes no input, and after success the input stands exactly behind the chosen variant. If no variant can be read, it fails.',
  ['programs', 'inputs'], 'every enum definition and every token sequence', 'Tests have few enums whose variants overlap.',
  [('variant sequence', PF + ' code_from_enum')], TV, 'translation_validation', TVN)
p('P04', 'Peeked variants are committed to without backtracking',
  'A variant with peeked fields is chosen iff the next tokens match all its peeked fields in order; once chosen, its result (value or error) is the result of the parser. When they do not match, the variant is skipped whatever else could be read.',
  ['programs', 'inputs'], 'every enum with peeked fields and every token sequence', 'Needs inputs that match the peeked tokens and then fail, or match a prefix of them.',
  [('predicates', PF + ' code_from_enum, to_predicate')], TV, 'translation_validation', TVN)
p('P05', '`any` and `terminated` select the documented way of reading a field',
  'A field marked `any` accepts every identifier including keywords, a field marked `terminated` reads the whole rest of its buffer as a separated list with optional trailing separator, and both together read such a list of identifiers including keywords. Fields without these marks do neither.',
  ['programs', 'inputs'], 'every combination of these marks and every token sequence', 'Combinations inside groups, variants and with peeking are not tested.',
  [('choice of the parse function', PF + ' code_from_fields'), ('attribute parsing', PF + ' ParseAttribute')], TV, 'translation_validation', TVN)
p('P06', 'Errors of field parsers are returned unchanged',
  'When a field of a struct, or of a variant that is committed to or tried last, cannot be read, the derived parser fails with the error of that field\'s own parser. It never succeeds with another value instead.',
  ['programs', 'inputs'], 'every definition and every token sequence', 'Tests look at values of successful parses.',
  [('error propagation', PF + ' code_from_fields, code_from_enum')], TV, 'translation_validation', TVN)
p('P07', 'Invalid parser definitions are rejected, valid ones are accepted',
  'The parser derive reports an error at the definition for unions, mismatched or unmatched closing delimiters, characters that are no delimiters, unknown or malformed attribute arguments, a peeked field inside a group or behind a field that is not peeked, and more than three peeked fields. Every definition that follows the documentation compiles.',
  ['programs'], PROG, 'The compile-fail tests cover four definitions and are ignored by default.',
  [('validation', PF + ' code_from_fields, to_predicate, ParseAttribute; ' + TA)], CFT, 'other', 'As for S14: each rule is instantiated in several shapes and positions; definitions outside the corpus are not decided.')
p('T01', 'Emitted tokens are the fields in declaration order, each once',
  'The token emission derived for a struct or an enum value appends, for exactly the fields of that value\'s own variant, the tokens of each field once and in declaration order, after what is already in the stream, and nothing else.',
  ['programs', 'inputs'], 'every definition and every value of it', 'Tests emit a few values.',
  [('field sequence', TF + ' code_from_fields, code_from_enum')], 'effect-sequence analysis of the MIR of generated emission code against an executable specification', 'translation_validation', TVN)
p('T02', 'Emitted groups mirror the declared delimiters',
  'Fields between a declared opening delimiter and its closing mark are emitted inside one group of the kind and span held by the delimiter field (for the generic macro delimiter: the kind it holds), in any nesting; fields behind the closing mark are emitted behind the group. A delimiter that is not closed extends to the end of the definition.',
  ['programs', 'inputs'], 'every nesting of delimiters over the fields and every value', 'Nesting and unclosed delimiters are unbounded; the tests have a few.',
  [('scope stack', TF + ' code_from_fields, Scope::into_code'), ('macro delimiter', HF + ' surround_macro_delimiter')], 'effect-tree analysis of the MIR of generated emission code against an executable specification', 'translation_validation', TVN)
p('T03', 'Invalid emission definitions are rejected, valid ones are accepted',
  'The token emission derive reports an error at the definition for unions, mismatched or unmatched closing delimiters, characters that are no delimiters, and malformed `to_tokens` arguments. Every definition that follows the documentation compiles, including enums without variants.',
  ['programs'], PROG, 'The compile-fail tests cover three definitions and are ignored by default.',
  [('validation', TF + ' code_from_fields, Scope::into_code; ' + TA)], CFT, 'other', 'As for S14.')
p('T04', 'Parsing and emission use the same layout',
  'For a definition that derives both, the emitted tokens of a value have the very layout the derived parser reads: the same field order, the same groups around the same fields. So emission followed by parsing meets every field at its place.',
  ['programs', 'inputs'], 'every definition that derives both', 'Round-trip tests exist for few definitions.',
  [('layout, once for each derive', PF + ' code_from_fields; ' + TF + ' code_from_fields')], 'both generated implementations compared with one layout specification on their MIR', 'translation_validation', TVN)
p('C01', 'Derived implementations work for generic types',
  'All three derives accept types with lifetimes, type and const parameters, defaults, inline bounds and where clauses; the implementation carries the bounds of the definition and behaves as for a concrete type.',
  ['programs', 'inputs'], 'every generic definition', 'The tests have one generic definition per derive.',
  [('impl header and bounds', SU + ' impl_trait_result'), ('inner functions', PF + ' code_from_enum')], TV + '; generic witnesses have to compile', 'translation_validation', TVN)
p('C02', 'Generated code does not depend on names at the place of use',
  'Generated code compiles and behaves the same whatever the fields, types, variants and surrounding modules are called: field names equal to internal variables or keywords, local modules named like the used crates, types and macros in scope with names the generated code uses, a trait in scope that gives every type methods called `parse`, `insert`, `push`, `to_string` or `into_iter`, and tokens that come from `macro_rules` macros.',
  ['programs'], PROG, 'The tests have no name collisions.',
  [('absolute paths and call-site identifiers', SMF + ', ' + PF + ', ' + TF)], TV + '; witnesses with colliding names have to compile', 'translation_validation', TVN)
p('C03', 'The derives report errors and never panic or hang',
  'For every definition, valid or not, each derive returns generated code or a compile error with a message; it never panics or hangs, except for the explicit request to dump the generated code.',
  ['programs'], PROG, 'A panic needs a particular malformed definition; compile-fail tests are few and ignored by default.',
  [('validation', SMF + ', ' + PF + ', ' + TF + ', ' + TA)], 'compile-fail and compile-pass witnesses; any panic of a derive is reported by the compiler at the definition, and an expansion that does not end is bisected to the definition', 'other',
  'Decides the definitions of all corpora; definitions outside them are not decided.')
p('C04', 'Expansion and parsing are deterministic and free of side effects',
  'What the derives generate depends on the definition alone, and what a generated parser or emitter returns depends on its input alone: no clock, environment, file system, random numbers, shared mutable state, source location or order of a hashed collection has any influence, and nothing is printed.',
  ['programs', 'histories'], 'every definition, expanded in any order and process, and every call of generated code', 'Nondeterminism shows only across processes and builds.',
  [('ordered map of parameters', SMF + ' Params'), ('generated code', SMF + ', ' + PF + ', ' + TF)], 'effect analysis over resolved MIR calls (deny rules on callees, statics and hashed iteration)', 'other',
  'Sound for direct effects in the derive crate, the helper crate and sampled generated code, assuming the listed foreign functions are the only sources of such effects.')
p('A01', 'Argument wrapper types compare, combine and convert by presence and value',
  'A flag is true iff it was given; two flags are equal iff both or neither were given; combining two flags gives the first given one; a flag made from a truth value is given iff it is true; the default and the constant are not given. `name = value` and `name(args)` wrappers are equal iff their values are, whatever their spans; copies keep span and value.',
  ['inputs'], 'every value of the wrapper types', 'The tests use few values and no spans.',
  [('implementations', AF)], 'abstract execution of the MIR of the operations over all presence combinations and symbolic values', 'translation_validation',
  'Complete over the presence of spans, symbolic in spans and values.')

p('C07', 'Generated code is valid in every edition and wherever items may stand',
  'A valid definition compiles in each edition from 2018 on, and at every place an item may have: in modules, functions, methods, constants, closures and blocks, with private, aliased, relative or macro-made field types, next to other attributes and derives, and under an imported name of the derive.',
  ['programs'], PROG, 'The tests define types at the top of files and functions of one edition.',
  [('generated code', SMF + ' Params::build; ' + PF + ' code_from_enum, code_from_fields; ' + TF), ('impl header', SU + ' impl_trait_result')],
  'type checking of the expansions: every kind of parameter, field and variant at every place in every edition', 'other',
  'Decides the definitions, places and editions of the corpus. The 2015 edition is left out: paths of other crates are written differently there.')

p('C09', 'Generated code raises no warnings of its own',
  'The compiler says nothing about a type with the derives that it does not say about the type without them (what is dead code aside): no lint that is on by default, and none about unsafe code, is raised by the generated code, however fields, variants and types are called, deprecated or documented, in any edition; the generated code is free of unsafe code, and it compiles where lints are denied or forbidden.',
  ['programs'], PROG, 'The tests do not look at warnings.',
  [('generated variables and functions', PF + ' to_var_ident, code_from_enum; ' + TF + ' to_var_ident, to_pattern'), ('impl header', SU + ' impl_trait'), ('generated code', SMF + ' Params::build')],
  'lints of the compiler over the expansions: definitions with and without the derive under every lint that is on by default, at the levels warn and forbid', 'other',
  'Decides the definitions of the corpus (every kind of parameter, field and variant, at every place, in every edition; unusual names, deprecated fields and types, uninhabited types) for the lints of the installed compiler that are on by default and a few that are often asked for. Lints of clippy are not part of it.')

p('C08', 'Errors about a definition point at the field or attribute that causes them',
  'When a derive rejects a definition because of one of its fields or attributes (a parameter out of order, repeated, or of a wrong kind, a mismatched delimiter, a misplaced peek, an unknown argument), the location of the error lies in that field or attribute. For attribute parameter lists the same holds when the compiler rejects the generated code because a value type cannot be parsed.',
  ['programs'], 'every invalid definition', 'The compile-fail tests look at one place for a few of the messages.',
  [('validation', SMF + ' Params::from_fields, Param::from_field; ' + PF + ' code_from_fields; ' + TA + ' ToTokensAttribute'), ('spans of the generated code', SMF + ' build_parse_expr, ParamInfo')],
  'places in the compiler\'s diagnostics against the part of the definition marked as the cause', 'other',
  'Decides the definitions of the corpus, enumerated up to four fields.')

p('D01', 'A requested dump shows exactly the generated code',
  'With `dump` in an attribute of the type, in any of its spellings and next to other options, a derive ends in a compile error whose text holds exactly the code it would otherwise have generated; without that request it never does.',
  ['programs'], PROG, 'No test requests a dump: it stops the compilation.',
  [('dump', SU + ' impl_trait_result'), ('requests', SMF + ' ArgsForStruct; ' + PF + ' ParseAttribute; ' + TA + ' ToTokensAttribute')],
  'comparison of two macro expansions: the dumped text in the place of the derive, and the derive without the request', 'other',
  'Decides the definitions of the corpora; expansions are compared as the compiler prints them.')

NA = [('N01', 'Emission followed by parsing reproduces every value', 'Parsing the emitted tokens of a value with the derived parser yields an equal value.',
       'Depends on the field types\' own token emission and parsing, arbitrary foreign code over unbounded values; the part the derives decide (one layout for both) is claimed as T04.'),
      ('N02', 'Error messages are helpful', 'The text of an error tells the user what is wrong and what to write instead.',
       'What is helpful is not a property of the program text; the decidable part (the names and forms a message contains, its location, that composing it never panics and ends) is claimed as S15, S16, C05 and C06.'),
      ('N03', 'Parsing time is linear in the input', 'The generated parsers take time linear in the number of tokens for a fixed definition.',
       'A quantitative runtime bound that depends on syn\'s cursors and on the value parsers of the user; no static cost argument in reach bounds those.')]


def main():
    sys.path.insert(0, os.path.join(V, 'sa'))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            files = sorted({w for a, b in x['mech'] for w in b.replace(',', ' ').replace(';', ' ').split() if w.endswith('.rs')})
            f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['text']},
                                'why_tests_cant': x['why'], 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in x['mech']]}}) + '\n')
        for id, title, st, reason in NA:
            f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': ['inputs'], 'text': 'every definition and input'},
                                'why_tests_cant': 'quantifies over all definitions and inputs', 'anchors': {'files': ['structmeta/src/lib.rs'], 'mechanism': [{'name': 'generated code', 'where': LF}]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 sa/setup.py',
         'checks': [{'property': x['id'], 'quick_cmd': './check.sh %s quick' % x['id'], 'thorough_cmd': './check.sh %s thorough' % x['id'],
                     'technique': x['technique'], 'level': x['level'], 'level_note': x['note'].strip()} for x in P],
         'not_applicable': [{'property': a, 'reason': d} for a, b, c, d in NA],
         'notes': 'Static analysis only: the compiler expands the derives on witness definitions, and the analyses work on the compiler\'s MIR and diagnostics; no code of the repository\'s runtime crate or of the generated parsers is run. No hooks in /repo.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    import registry
    assert set(registry.CHECKS) == {x['id'] for x in P}, set(registry.CHECKS) ^ {x['id'] for x in P}
    for x in P:
        assert len(x['title']) <= 80, x['id']
        assert x['statement'].count('. ') <= 2, x['id']


main()
