#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, G, U, V = 'src/args.cpp', 'src/argument.cpp', 'src/usage.cpp', 'src/valid.cpp'
HG, HA, HB = 'include/blet/args/argument.h', 'include/blet/args/args.h', 'include/blet/args.h'
UT, EX, VEC, SI = 'include/blet/args/utils.h', 'src/exception.cpp', 'include/blet/args/vector.h', 'single_include/blet/args.h'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
ST = [('registry', 'ordered arguments, names -> argument, per argument definition', A + ' arguments_/argumentFromName_'),
      ('values', 'per argument exists/count/values', HG + ' ArgumentElement'),
      ('cursor', 'position in argv, index of the first "--"', A + ' parseArguments')]
DEMO = 'The parser is exercised only by test/parseArguments.cpp (13 fixed command lines, not even built in the stable suite).'

prop('P01', 'Every command-line token is accounted for exactly once',
 'After parseArguments() returns normally, the tokens after the program name are partitioned: each one is exactly one of an option occurrence (with or without an attached value), a value of one option or positional argument, the first "--", or an additional argument. '
 'The values an argument reports are exactly the tokens (or attached parts) given to it, byte for byte and in command-line order, except values of earlier occurrences that the argument\'s action says are replaced. '
 'No token is dropped, duplicated, altered or given to two arguments.',
 ['inputs', 'configurations'], 'every set of defined arguments, every parser mode, every argv that parses successfully', DEMO + ' A partition claim ranges over all definitions x all token sequences.',
 [A], [('token loop', A + ':parseArguments'), ('value consumption', A + ':parseArgument_'), ('positional consumption', A + ':parsePositionnalArgument_')],
 ['Args::operator[] accessors', 'Args::getAdditionalArguments'], ST)

prop('P02', 'All spellings of an option occurrence are equivalent',
 'For an option that takes a value, "-o V", "-oV", "-o=V", "--opt V" and "--opt=V" (and "-opt V", "-opt=V" in alternative mode) leave the argument and the rest of the parse in the same state, for every V that can be written in that form, and any flag of the same argument can be used. '
 'A cluster "-abc" of valueless options is the same as "-a -b -c", and "-abV" / "-ab V" the same as "-a -b V" when b takes one value. '
 'Only the first "=" separates, so a value may itself contain "=", be empty after "=", or contain any byte.',
 ['inputs', 'configurations'], 'every pair of command lines that differ only in the spelling of option occurrences', DEMO + ' It is a relation between two runs, over all values and all option kinds.',
 [A, UT], [('split at first =', UT + ':takeArg'), ('cluster decoding', A + ':parseShortArgument_'), ('long options', A + ':parseLongArgument_')],
 ['Args::operator[] accessors'], ST)

prop('P03', 'Options take exactly as many values as they are defined for',
 'An option takes 0 values (store_true, store_false, help, version), 1 (default, append), exactly n (nargs n, append with n), or a maximal run of values (infinite, extend; in complete groups of n for extend with nargs n) that ends only at "--", at the end, or at a token that is recognisably one of the defined options. '
 'A fixed number of values is taken literally, whatever the tokens look like, but never past "--" or the end; if fewer remain, or a value is attached to an option that cannot take exactly one, the parse is refused.',
 ['inputs', 'configurations'], 'every option kind and nargs, every following token sequence', DEMO + ' Needs all kinds x all lengths x all look-alike tokens around the boundary.',
 [A], [('bounds', A + ':parseArgument_'), ('stop rule', A + ':endOfInfiniteArgument_')],
 ['Args::operator[] accessors', 'ParseArgumentException'], ST)

prop('P04', 'Positional arguments are filled in order; leftovers are additional or refused',
 'Tokens that belong to no option fill the positional arguments in filling order (required ones first, each group in definition order, as long as the required flag is set when the argument is defined), each one taking exactly its number of tokens (one, n, a maximal run, or complete groups of n) and each being filled at most once. '
 'When all positionals are filled, every further such token is reported verbatim and in order as an additional argument, or, in strict mode, the parse is refused naming the first of them.',
 ['inputs', 'configurations'], 'every set of positional definitions (kinds, required flags, order) mixed with options, strict or not', DEMO,
 [A, G], [('positional assignment', A + ':parsePositionnalArgument_'), ('ordering', G + ':compareOption_')],
 ['Args::operator[] accessors', 'Args::getAdditionalArguments', 'ParseArgumentException'], ST)

prop('P05', 'Repeated occurrences replace or accumulate as the action says',
 'When an option occurs k times, a single-valued, n-valued or infinite option keeps only the values of the last occurrence, while append and extend keep the values of all occurrences, in order, grouped per occurrence or per n values when nargs is n. '
 'The first occurrence replaces the defaults, in whatever form (separate, attached, clustered) it is written. '
 'count() is k for every option (0 if absent), valueless occurrences inside clusters included.',
 ['inputs', 'histories'], 'every sequence of occurrences of every option kind, in every spelling', DEMO + ' The property is over sequences of occurrences; tests try one.',
 [A], [('list handling and count', A + ':parseArgument_'), ('cluster count', A + ':parseShortArgument_')],
 ['Argument::count', 'Argument conversions'], ST)

prop('P06', 'Absent arguments read as their defaults and as not existing',
 'After a successful parse an argument that does not occur reports isExists() false, count() 0 and exactly its default value(s) (empty when it has none), through every accessor, and an argument that occurs reports isExists() true and none of its defaults unless given on the command line. '
 'operator bool is isExists(), negated for store_false, and a boolean option reads "true"/"false" accordingly. '
 'The definition itself (names, action, nargs, help, metavar, required, defaults) is not changed by parsing.',
 ['inputs', 'configurations'], 'every argument kind with and without defaults, present or absent, in every definition set', DEMO,
 [A, G, HG], [('reset to defaults', G + ':clear_/defaultsConstructor_'), ('bool', HG + ':operator bool')],
 ['Argument accessors'], ST)

prop('P07', 'A parse succeeds only if every required argument is present',
 'parseArguments() returns normally only if each required argument occurs in argv; otherwise, unless help or version was requested or the line is malformed, it throws ParseArgumentRequiredException naming a missing required argument, before any validator or destination is run. '
 'A default value never satisfies the requirement, a required argument that occurs always does, and arguments that are not required never cause this exception.',
 ['inputs', 'configurations'], 'every assignment of required flags to arguments of every kind, every argv', DEMO,
 [A], [('required check', A + ':parseArguments')], ['exception type and argument()'], ST)

prop('P08', 'Help and version requests take precedence and are always available',
 'If the help option occurs in a well-formed command line, parseArguments() reports help even when required arguments are missing or values are invalid, and before version; it throws HelpException carrying the usage text in exception mode and otherwise prints the usage to stdout and exits with status 0; version likewise with the version text. '
 'When no help option is defined, whichever of -h and --help is free is added as help option before parsing, and a user defined help or version option works under any flag. '
 'No validator or destination runs in that case. In every other case the library writes nothing to stdout or stderr.',
 ['inputs', 'configurations', 'histories'], 'every placement of help/version tokens among other tokens, every definition of help/version options, both modes', DEMO,
 [A, G], [('automatic help', A + ':parseArguments'), ('help/version registration', G + ':typeConstructor_')],
 ['HelpException/VersionException', 'stdout and exit status', 'Args::argumentExists'], ST)

prop('P09', 'No value outside a validator is ever accepted',
 'If parsing returns normally, every argument that occurs and has a validator had all of its values, in order and flattened, accepted by it: a number for ValidNumber, a number within the closed interval (bounds in either order) for ValidMinMax, one of the listed strings for ValidChoise, an existing path / directory / regular file for ValidPath, and whatever a custom validator returned true for; otherwise ParseArgumentValidException names the argument. '
 'Values rewritten by a validator are the values then reported and delivered. '
 'Validators are not run for absent arguments or when parsing stopped earlier.',
 ['inputs', 'configurations'], 'every validator x every argument kind x every value list, boundaries and non-numbers included', DEMO + ' addArgument tests never run a validator.',
 [V, A], [('validation pass', A + ':parseArguments'), ('validators', V)], ['ParseArgumentValidException', 'Argument accessors', 'files on disk'], ST)

prop('P10', 'Malformed command lines are refused with the right exception and culprit',
 'An unknown option, a value attached to an option that cannot take exactly one value, a value-taking option inside a cluster that cannot absorb the rest, missing values, an incomplete group of positional values, or (in strict mode) an extra token makes parseArguments() throw a ParseArgumentException whose argument() is the offending option as typed without dashes (or the positional name or token) and whose what() states that reason. '
 'A command line with none of these defects never raises it. '
 'Every failure is reported through the documented exception hierarchy, for the first defect in command-line order.',
 ['inputs', 'configurations'], 'every definition set and every malformed argv', DEMO,
 [A, EX], [('error sites', A), ('exceptions', EX)], ['exception dynamic type, what(), argument()'], ST)

prop('P11', 'Names are unique and lookup always finds the argument that owns the name',
 'After any sequence of addArgument, flag, removeArguments, clear and other definition calls, each name belongs to at most one argument, argumentExists / operator[] / updateArgument find exactly the names each argument lists, and unknown names throw AccessDeniedException. '
 'A name already in use, an ill-formed flag or an empty list is refused with ArgumentException; removing a name removes only that name, the argument disappears exactly when its last name is removed, and removed names can be used again.',
 ['histories'], 'every sequence of definition calls', 'addArgument/removeArguments tests run a dozen single calls; the invariant is over all histories.',
 [A, G, HA], [('uniqueness', A + ':addArgument, ' + G + ':flag'), ('removal', A + ':removeArguments')],
 ['argumentExists', 'operator[]', 'getNameOrFlags'], ST)

prop('P12', 'A refused definition call changes nothing',
 'When addArgument, removeArguments, flag, action, nargs or defaults throws ArgumentException, the parser and all its arguments are observably exactly as before the call: names, actions, nargs, defaults, help and version roles, usage text and all later parse results. '
 'Only one argument can be the help option and only one the version option at any time, and a positional argument refuses option-only actions and flags.',
 ['histories'], 'every refused call after every history', 'Tests only check that the exception is thrown, never what the object looks like afterwards.',
 [A, G, HG], [('rollback', G + ':define_'), ('checks before effects', A + ':addArgument/removeArguments, ' + G + ':flag')],
 ['getAction/getNargs/getDefaults/getNameOrFlags', 'getUsage', 'parseArguments'], ST)

prop('P13', 'An argument\'s behaviour depends on its definition, not on how it was built',
 'An argument behaves according to its final action, nargs, defaults, required flag, validator and destination only: the order of the definition calls, earlier values that were overwritten, flags given at addArgument or by flag(), and changes made before or after dest() or through updateArgument() make no difference. '
 '(nargs(\'+\') stands for the infinite action; among positionals, the moment required() is called may fix their relative order.) '
 'In particular the kind of the argument is a function of (option or positional, action, nargs).',
 ['histories', 'configurations'], 'all permutations and overwriting sequences of definition calls that end in the same definition, followed by any parse', 'A relation between histories; tests define each argument in one order only.',
 [G, HG], [('kind', G + ':typeConstructor_'), ('defaults', G + ':defaultsConstructor_'), ('dest copy', G + ':Argument(const Argument&)')],
 ['getters', 'getUsage', 'parseArguments'], ST)

prop('P14', 'Destinations receive exactly the parsed values',
 'After a successful parse each destination holds what the argument reports: a scalar holds the converted value (or default; true/false for boolean kinds), a vector is extended by one element per value in order, a vector of vectors by one row per group, and a custom function is called exactly once with isExists and those values. '
 'Texts convert as strtod reads them (the full precision of the type; "true"/"false" or 1/0 for boolean kinds), character arrays get the text cut to fit and terminated. '
 'This holds for every supported element type and for absent arguments, and lists without values deliver nothing. '
 'Destinations are not written when the command line is refused before validation, or help or version is reported.',
 ['inputs', 'configurations'], 'every destination type x argument kind x value list', 'The stable tests never parse, so no destination is ever written.',
 [HG], [('delivery', HG + ':ArgumentType/ArgumentVectorType/ArgumentVectorVectorType::toDest_'), ('conversion', HG + ':strTo/boolTo')],
 ['the user variables passed to dest()'], ST)

prop('P15', 'Each parse depends only on the definitions and that argv',
 'Calling parseArguments() again on the same object gives the same outcome and the same reported values, counts, additional arguments and exceptions as calling it on a freshly built object with the same definitions, whatever was parsed before and whether earlier parses succeeded or threw. The values reported after a call that throws are, likewise, the same whatever was parsed before. '
 '(Vector destinations keep what earlier parses stored and are extended.)',
 ['histories', 'inputs'], 'every sequence of command lines parsed by one object', 'No test parses twice.',
 [A, G], [('reset', A + ':parseArguments, ' + G + ':clear_')], ['Argument accessors', 'getAdditionalArguments'], ST)

prop('P16', 'clear() gives back a freshly constructed object',
 'After clear() the object is indistinguishable from a new one: no arguments, default modes, widths, empty texts, no help/version option, no additional arguments, and every later definition or parse behaves as on a new object.',
 ['histories'], 'every history of definitions, settings and parses before clear(), every continuation after it', 'clear() is never called by the stable tests.',
 [A], [('reset', A + ':clear')], ['all getters', 'getUsage', 'parseArguments'], ST)

prop('P17', 'The usage text describes exactly the defined arguments',
 'getUsage() is the custom text if one was set; otherwise it shows every defined argument once in the synopsis and once in its section, options before positionals, options sorted (required first, then short before long, then by name) and positionals in filling order, with all flags, the metavar (custom or derived from the name and repeated or dotted per arity), brackets exactly on the non-required ones, help text, "(required)" or "(default: ...)". '
 'Lines are laid out in the configured widths: text is only broken at spaces, no word is lost, and description and epilog appear around the sections. '
 'The program name is the basename of the configured or first parsed binary name.',
 ['configurations', 'histories'], 'every set of definitions, texts and widths', 'getUsage tests compare three fixed texts.',
 [U, G], [('layout', U + ':getUsage'), ('wrap', U + ':s_multilineWrap'), ('metavar', G + ':metavarDefault_'), ('order', G + ':compareOption_')],
 ['Args::getUsage', 'HelpException::what'], ST)

prop('P18', 'Owned validators and arguments are released exactly once, others never',
 'A validator handed over as deletable is destroyed exactly once - when replaced, when its argument is removed, on clear(), or with the parser - and never while its argument can still use it; a validator handed over as not deletable is never destroyed by the library. '
 'This holds through dest(), copies of arguments, refused calls and exceptions, no operation reads freed memory, and destroying the parser leaves nothing allocated.',
 ['histories'], 'every history of valid/dest/remove/clear/parse/copy/destroy calls', 'Tests never count validator lifetimes.',
 [HG, G, A], [('ownership flag', HG + ':valid/dest'), ('deletion', G + ':~Argument, ' + A + ':removeArguments/clear')],
 ['destructor calls of validators', 'allocation balance', 'address sanitizer'], ST)

prop('P19', 'All accessors report the same values',
 'For every argument, getString(), the stream operator, std::string conversion, operator[] / size(), the vector<string> and the vector<vector<string>> conversions describe the same values: the string is the elements joined by ", " with groups in parentheses, the vector is the elements flattened in order, the vector of vectors has one row per group. '
 'Conversions that make no sense for the kind throw Exception, and every name of the argument gives the same answers.',
 ['inputs', 'configurations'], 'every argument kind, before and after any parse', 'Tests check single conversions of single kinds.',
 [G, HG], [('conversions', G + ':operator std::vector'), ('string', G + ':getString')], ['all Argument accessors'], ST)

prop('P20', 'The header-only distribution behaves like the library',
 'A program using single_include/blet/args.h observes the same outcomes, values, texts and exceptions as one using the library, for every definition and command line: the header-only variant satisfies all the guarantees above.',
 ['programs', 'inputs', 'configurations'], 'every program using the public API', 'single_include is only compiled by the tests, never compared with the library.',
 [SI], [('amalgamation', SI)], ['the same observations made on both builds'], ST)

prop('P21', 'Numeric reading: prefix rule, sign, fraction and exponent',
 'After a parse, isNumber() of a value is true exactly when its text (after leading blanks) begins with a decimal number, and getNumber() is then the value of the longest such prefix, also through the numeric conversion operator and for each element and sub-element; otherwise getNumber() throws. '
 'A decimal prefix followed by an exponent mark without digits ("1e", "7e+") and a magnitude beyond the largest double are not numbers. '
 'This applies to defaults of absent arguments and to values rewritten by validators as well, and a valueless kind is never a number.',
 ['inputs'], 'every value text of every argument kind', 'Tests read five one-digit numbers.',
 [G, HG], [('conversion', G + ':toNumber_'), ('access', HG + ':getNumber')], ['isNumber, getNumber, operator T'], ST)

prop('P22', 'After "--" nothing is interpreted as an option',
 'Every token after the first "--" is a positional value or an additional argument, verbatim, even if it looks like an option, is a further "--", or names help, version or a defined flag, and no option before "--" takes it. '
 'The first "--" itself is never a value, and tokens before it are parsed as if the command line ended there, apart from positional arguments being filled further.',
 ['inputs', 'configurations'], 'every argv containing one or more "--" at any place, every definition set', DEMO,
 [A, UT], [('end index', UT + ':endOptionIndex'), ('rest as positionals', A + ':parseArguments')], ['Argument accessors', 'getAdditionalArguments'], ST)

prop('P23', 'Alternative mode only adds spellings, with whole-name priority',
 'With alternative mode on, "-name" and "-name=V" mean "--name" and "--name=V" whenever that long option exists (also for deciding where a run of values ends, and for one-letter names), and any other token is read as without the mode; with it off, "-name" is never the long option. '
 'The mode can be switched between parses and affects nothing else.',
 ['inputs', 'configurations'], 'every token that is both a cluster and a possible long name, both modes', DEMO,
 [A], [('alternative lookup', A + ':parseShortArgument_/endOfInfiniteArgument_')], ['Argument accessors', 'exceptions'], ST)

prop('P24', 'Separate parser objects do not influence each other',
 'Interleaving calls on several Args objects gives on each one exactly the results of its own calls alone: definitions, modes, parses, usage, help/version roles and lifetimes of one object never show in another. This includes objects used by different threads at the same time (one thread per object) and parses made from inside a validator or destination of another object.',
 ['histories', 'schedules'], 'every interleaving, concurrent or not, of call sequences on different objects', 'Each test uses one object at a time, in one thread.',
 [A, G], [('no shared state', A)], ['all observations on each object'], ST)

prop('P25', 'Every way of writing a list of strings gives the same list',
 'A list of names, defaults or choices given as a single string, an array, an initializer list, args.vector(...) with any supported number of strings, a Vector grown by + or push_back, or a Vector sized first and filled, has exactly the given strings in the given order, and definition calls treat them identically.',
 ['inputs', 'programs'], 'every list length (0..20 and more) and contents, every construction form', 'Tests use vector() with at most four strings.',
 [HB, VEC], [('builders', HB + ':vector'), ('constructors', VEC)], ['getNameOrFlags', 'getDefaults', 'accepted choices'], ST)

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
