"""The properties, and the check that decides each."""

EXPL = "exploration"
MC = "model_checking"
FAULT = "fault_enumeration"

PROPERTIES = []
NOT_APPLICABLE = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, level, note, **extra):
    PROPERTIES.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                **extra,
            },
            "check": {"technique": technique, "level": level, "note": note},
        }
    )


prop(
    "C01",
    "Option occurrences resolve by source precedence, then by order",
    "For every file, the resolved options are exactly what folding all option occurrences in the order "
    "inherited configuration, selected configuration, in-file comments, command line gives: the last "
    "occurrence of a replaceable option wins, arguments meant for pylint and flake8 accumulate in that "
    "order, and selected groups expand to the linter arguments the merged group definitions give. "
    "Option names are case-insensitive; an unknown option, a missing or a superfluous argument has no "
    "effect on anything else.",
    ["configurations", "inputs"],
    "every sequence of option occurrences, distributed over the four sources in every way",
    "tests sample a few hand-written merges; the space is all orders and distributions of occurrences",
    ["edulint/config/config.py", "edulint/config/arg.py", "edulint/options.py"],
    [
        ("parsing of CLI and in-file options", "edulint/config/config.py:parse_args"),
        ("combining and folding of sources", "edulint/config/config.py:Config"),
        ("translations of option groups", "edulint/config/config.py:apply_translates"),
        ("option table", "edulint/options.py:get_option_parses"),
    ],
    "bounded exhaustive enumeration of occurrence sequences on the real resolver against a fold",
    EXPL,
    "all sequences of length <=3 (<=4 thorough) over a 14-occurrence alphabet in all distributions over "
    "four sources, real files and CLI",
)
prop(
    "C02",
    "Enabling and disabling checks is last-one-wins; other arguments pass verbatim",
    "The set of checks that can be reported for a file is what remains after applying all enabling and "
    "disabling requests in order, where 'all' covers every check and ids and symbolic names are "
    "interchangeable. Every other argument given for pylint or flake8 reaches that linter unchanged and "
    "in its original order.",
    ["configurations", "inputs"],
    "every sequence of enable/disable requests and other linter arguments, in-file and on the CLI",
    "tests check single enable/disable pairs; the guarantee is about every sequence",
    ["edulint/config/config.py", "edulint/linting/linting.py"],
    [
        ("enable/disable resolution", "edulint/config/config.py:ImmutableConfig"),
        ("linter invocation", "edulint/linting/linting.py:lint_edulint"),
    ],
    "bounded exhaustive enumeration of argument sequences, each linted for real, against a fold",
    EXPL,
    "all sequences of <=4 (<=5 thorough) enable/disable requests over a 10-request alphabet linted end to "
    "end; all sequences of <=3 (<=4) verbatim arguments",
)
prop(
    "C03",
    "The governing configuration file is the documented one and inherits as if prepended",
    "A file is governed by the configuration named on the command line, else by the one named in the "
    "file, else by the nearest implicit configuration file in its directory or a parent, else by the "
    "default; relative names are resolved against the working directory, the linted file and the "
    "inheriting configuration respectively. A configuration acts as if the one it inherits from were "
    "prepended to it, and inherits from the empty one unless it says otherwise. A missing, invalid or "
    "cyclic configuration is reported and never replaced by another.",
    ["configurations", "inputs"],
    "every directory tree, selection, working directory and inheritance graph",
    "tests use absolute fixtures in one directory and never run from another working directory or with a cycle",
    ["edulint/config/config.py", "edulint/config/file_config.py" , "edulint/config/utils.py"],
    [
        ("search for implicit configuration", "edulint/config/config.py:search_for_config_in_parents"),
        ("resolution of relative paths", "edulint/config/file_config.py:get_path_relative_to"),
        ("inheritance", "edulint/config/config.py:parse_config_file"),
        ("grouping of files by configuration", "edulint/config/config.py:get_config_many"),
    ],
    "exhaustive enumeration of directory trees, selections and three-node inheritance graphs",
    EXPL,
    "27 trees x 8 in-file x 5 CLI selections x working directories and spellings; all 729 three-file "
    "inheritance graphs x 3 starts",
)
prop(
    "C04",
    "Unusable configuration is reported and otherwise changes nothing",
    "An entry of a configuration or language file, a comment or a command line option that is malformed, "
    "unknown or of a wrong type is reported by a warning naming it and has no effect on the configuration, "
    "the problems or the translations given by everything else. Lists, numbers and tables in a "
    "configuration file mean the same as their plain string form. No content of these files makes a lint fail.",
    ["inputs", "configurations"],
    "every kind of value, of wrong type or malformed, at every place of a configuration or language file",
    "tests cover a few unknown options; the guarantee is about every value at every place",
    ["edulint/config/file_config.py", "edulint/config/config.py", "edulint/config/language_translations.py"],
    [
        ("reading of configuration files", "edulint/config/file_config.py:load_toml_file"),
        ("conversion of values", "edulint/config/config.py:parse_config_file"),
        ("parsing of translations", "edulint/config/language_translations.py:parse_lang_file"),
    ],
    "exhaustive enumeration of values at all places of the files against the configuration without them",
    EXPL,
    "about 30 kinds of TOML values at every place of both kinds of files, comments and CLI options; oracle: "
    "the same configuration with the entry removed, and the plain string form of valid values",
)
prop(
    "C05",
    "Ignoring in-file configuration: only what is asked for stops working, and is told",
    "With in-file configuration of edulint or of all linters ignored, no edulint option written in the "
    "file has any effect on its problems. Every comment that is effective configuration of a linter asked "
    "to be reported yields exactly one problem EDL001 at its line, whatever its spelling, and text that "
    "configures nothing yields none. All other problems are those without the setting.",
    ["inputs", "configurations"],
    "every spelling and placement of configuration comments of the three linters x every setting",
    "tests check a handful of spellings; the guarantee is about every form the linters obey",
    ["edulint/linting/linting.py", "edulint/config/config.py", "edulint/linting/checkers"],
    [
        ("search for configuration comments", "edulint/linting/linting.py:lint_one"),
        ("in-file options ignored", "edulint/config/config.py:get_config_one"),
    ],
    "exhaustive enumeration of comment spellings and placements x settings, with the effect of each "
    "comment on the real linters as oracle",
    EXPL,
    "whether a comment is effective is decided by linting with and without it, not by a pattern",
)
prop(
    "C06",
    "Linting many paths together equals linting every file below them alone",
    "Linting several files and directories at once reports, for every Python file named or found below a "
    "named directory, exactly the problems linting that file alone reports, with the same texts, each "
    "once, however the paths are ordered, nested, repeated or spelled. Results are ordered by the named "
    "paths, then by path, line and column. No file's configuration, messages or translations influence "
    "another file's problems.",
    ["inputs", "configurations"],
    "every directory layout, distribution of in-file configurations and way of naming the paths",
    "tests lint one or two files of one configuration; the guarantee is about every combination",
    ["edulint/linting/linting.py", "edulint/config/config.py", "edulint/config/language_translations.py"],
    [
        ("grouping of paths by configuration", "edulint/config/config.py:get_config_many"),
        ("linting of every group", "edulint/linting/linting.py:lint_many"),
        ("ordering of results", "edulint/linting/linting.py:sort"),
        ("translation of messages", "edulint/config/language_translations.py:LangTranslations"),
    ],
    "bounded exhaustive enumeration of layouts, configurations and path spellings against per-file results",
    EXPL,
    "all layouts of a bounded tree x ordered selections of <=3 paths x spellings, all triples of in-file "
    "configurations, all pairs of language configurations; reference = each file alone",
)
prop(
    "C08",
    "The result of a lint does not depend on what the process did before",
    "Linting a file in a process that has already done any amount of linting, successful or failed, gives "
    "exactly what a fresh process gives for the file's current content and options. No run leaves output "
    "streams redirected, the working directory, the module search path or the environment changed, and "
    "the work done for a file does not grow with the number of earlier runs.",
    ["histories", "fault_sequences"],
    "every sequence of lints, edits of files, changes of directory and linter failures",
    "tests lint each file once per process with the same content; the guarantee is about every sequence",
    ["edulint/linting/linting.py", "edulint/linting/checkers", "edulint/linting/analyses"],
    [
        ("in-process pylint and its caches", "edulint/linting/linting.py:lint_pylint"),
        ("in-process flake8 and redirected streams", "edulint/linting/linting.py:lint_any"),
        ("state of tweakers and analyses", "edulint/linting/tweakers.py:get_tweakers"),
    ],
    "explicit-state search over operation histories of one real process, forked at every step, against "
    "a fresh process",
    MC,
    "every transition runs the real linter; the reference is the same lint in a fresh process",
)
prop(
    "C09",
    "Commands print exactly the problems found and exit with the documented status",
    "`check` prints exactly the problems found, in order, each file's under its own header, and its JSON "
    "output reads back to the same problems and configurations. It exits with 0 when every file was "
    "linted and nothing was found, with 1 when only problems were found, and with 2 whenever some file "
    "could not be linted, was configured unusably, or the result could not be written. Every other "
    "command exits with 0 exactly when it did what was asked.",
    ["inputs", "configurations", "fault_sequences"],
    "every combination of command, output options, files and linter failures",
    "tests check the exit status of few invocations; the contract is about their whole product",
    ["edulint/edulint.py", "edulint/linting/problem.py", "edulint/linting/linting.py"],
    [
        ("printing and exit status", "edulint/edulint.py:check_code"),
        ("commands", "edulint/edulint.py:main"),
        ("problem round trip", "edulint/linting/problem.py:Problem"),
    ],
    "exhaustive enumeration of invocations of the real command line against the library's results",
    EXPL,
    "product of commands, options, files, configurations and injected failures",
)
prop(
    "C10",
    "Only documented overrides hide or reword problems, and the source of a problem is named truly",
    "The problems reported are exactly those the linters report for the effective options, minus those "
    "on a line where a problem documented to override them is reported for the same file and minus those "
    "a documented option makes uninteresting; only documented rewordings change a text. The source named "
    "for a problem is the option or group whose request enabled the check, and none if it is not known.",
    ["inputs", "configurations"],
    "every pair of overriding and overridden problems on same and different lines and files, every option",
    "tests check a few pairs in one file; the guarantee is about every pair, line and file",
    ["edulint/linting/linting.py", "edulint/linting/overrides.py", "edulint/linting/tweakers.py"],
    [
        ("overriding of problems", "edulint/linting/linting.py:apply_overrides"),
        ("table of overrides", "edulint/linting/overrides.py:get_overriders"),
        ("rewording and dropping", "edulint/linting/tweakers.py:get_tweakers"),
        ("attribution", "edulint/config/config.py:apply_translates"),
    ],
    "exhaustive enumeration of sets of problems from stand-in and real linters against the documented tables",
    EXPL,
    "all pairs of codes of the documented table x same/other line x same/other file; all values of the "
    "dropping options; all subsets of groups for attribution",
)
prop(
    "C11",
    "A translated message says what the original does, for every check of every linter",
    "With a language selected, each problem whose check has a usable translation is reported with the "
    "translation, its placeholders filled with the parts of that very message, and everything else keeps "
    "its original text; unusable translations are reported and leave the original. A translation never "
    "changes which problems are reported, where, or how they are attributed.",
    ["inputs", "configurations"],
    "every message of edulint, pylint and flake8, every form of translation and of extracted parts",
    "tests translate a handful of messages; the guarantee is about every message any linter can produce",
    ["edulint/config/language_translations.py", "edulint/linting/linting.py", "edulint/linting/overrides.py"],
    [
        ("translations of messages", "edulint/config/language_translations.py:LangTranslations"),
        ("patterns extracting the parts", "edulint/config/language_translations.py:get_patterns"),
    ],
    "exhaustive enumeration of all message definitions of all linters, filled with adversarial parts",
    EXPL,
    "every message template of edulint, pylint (with extensions) and flake8 filled with every combination of "
    "an alphabet of parts, and real problems of a corpus; oracle: the parts put in",
)
prop(
    "C12",
    "Every file can be linted, and every problem lies within its file",
    "Linting never fails because of what a file contains: any text, encoding, and any program, valid or "
    "not, gives a list of problems, a file that cannot be parsed is reported as such, and no checker fails "
    "internally. Every problem names the linted file, a line within it, and an end not before its start.",
    ["programs", "inputs"],
    "every program over all kinds of statements and expressions up to a nesting depth, and unusual texts",
    "tests lint dozens of students' files; the guarantee is about every program",
    ["edulint/linting/analyses", "edulint/linting/checkers", "edulint/linting/linting.py"],
    [
        ("control flow graphs", "edulint/linting/analyses/cfg/visitor.py:CFGVisitor"),
        ("variable events", "edulint/linting/analyses/variable_scope.py:VarEventListener"),
        ("data dependencies", "edulint/linting/analyses/data_dependency.py:collect_reaching_definitions"),
        ("checkers", "edulint/linting/checkers"),
    ],
    "bounded exhaustive enumeration of programs, each linted with all checkers",
    EXPL,
    "every expression of an alphabet in every expression position, all pairs of statements, all nestings of "
    "depth 2 (3 thorough) of compound statements, invalid programs, encodings",
)
prop(
    "C13",
    "Remote configurations: fresh when due, cached otherwise, never torn",
    "A configuration named by URL is the server's current document whenever the cached one is older than "
    "five minutes and the server answers, and otherwise the newest complete document fetched for that "
    "very URL in the last 500*24*60 seconds; when there is none, the configuration is reported unavailable. This holds "
    "after a crash at any point of a run and for any interleaving of concurrent runs.",
    ["crash_points", "histories", "schedules", "fault_sequences"],
    "every history of runs, clock advances, server answers, crash points and interleavings of two runs",
    "tests never crash a run, advance the clock past the limits or run two at once",
    ["edulint/config/file_config.py"],
    [
        ("fetching of remote configurations", "edulint/config/file_config.py:_load_external_config_file"),
        ("caching of what was fetched", "edulint/config/file_config.py:CachedHTTPGet"),
    ],
    "explicit-state search over histories of the real code with crash injection, and preemption-bounded "
    "exploration of two concurrent runs",
    MC,
    "every transition runs the real resolver in a simulated file system, clock and network; all states "
    "reachable within the depth bound, all crash points incl. torn writes",
)
prop(
    "C14",
    "Explanations come from the newest complete document fetched, else the package",
    "`explain` shows the explanation in the newest complete valid explanations document fetched, and the "
    "packaged one while there is none; an update is attempted at most once per ten minutes, by any "
    "command that does not disable it, and by none that does. A failed, invalid or interrupted update "
    "leaves the explanations already there usable.",
    ["crash_points", "histories", "schedules", "fault_sequences"],
    "every history of commands, clock advances, server answers, crash points and interleavings",
    "tests never let an update fail, crash in the middle, or race with a lookup",
    ["edulint/explanations.py", "edulint/edulint.py"],
    [
        ("update and lookup", "edulint/explanations.py:update_explanations"),
        ("when commands update", "edulint/edulint.py:main"),
    ],
    "explicit-state search over histories of the real command line with crash injection, and "
    "preemption-bounded exploration of an update against a lookup",
    MC,
    "every transition runs the real main() in a simulated file system, clock and network",
)
prop(
    "C15",
    "The version notice is truthful, rate limited and survives crashes",
    "A run tells about a newer version exactly when the latest usable release known (not yanked, with "
    "files, properly numbered) is newer than the installed one by version order; the package index is "
    "asked at most once per ten minutes and never when the check is disabled. No answer of the index, no "
    "crash and no concurrent run makes a later run fail, lie or stay silent for longer than that period.",
    ["crash_points", "histories", "schedules", "fault_sequences"],
    "every history of runs, clock advances, index answers, crash points and interleavings of two runs",
    "tests compare version strings; histories, crashes and concurrent runs are not sampled",
    ["edulint/versions/version_checker.py", "edulint/versions/pypi_helper.py", "edulint/edulint.py"],
    [
        ("rate limit and stored state", "edulint/versions/version_checker.py:PackageInfoManager"),
        ("choice of the latest version", "edulint/versions/pypi_helper.py:get_versions"),
        ("when a notice is printed", "edulint/edulint.py:check_for_updates"),
    ],
    "explicit-state search over histories of the real command line with crash injection, and "
    "preemption-bounded exploration of two concurrent runs",
    MC,
    "every transition runs the real main() in a simulated file system, clock and network",
)
prop(
    "C17",
    "A suggested condition decides the same as the one it replaces",
    "Whenever edulint says that a condition or comparison can be replaced with or simplified to another, "
    "that a part of it is redundant, or that it is always true or always false, the suggested text parses "
    "and decides the same as the original for every value of the variables of the types the program "
    "gives them. The same holds for suggestions to return or assign a condition directly and for tests of "
    "emptiness, identity and truth.",
    ["programs", "inputs"],
    "every program of the families of conditions, and every valuation of their variables",
    "tests assert that a suggestion is made for a few conditions, never what it evaluates to",
    [
        "edulint/linting/checkers/simplifiable_if.py",
        "edulint/linting/analyses/z3_block_analysis.py",
        "edulint/linting/analyses/z3_analysis.py",
        "edulint/linting/checkers/local_defects.py",
    ],
    [
        ("suggestions for conditions", "edulint/linting/checkers/simplifiable_if.py:SimplifiableIf"),
        ("translation of conditions to formulas", "edulint/linting/analyses/z3_analysis.py:convert_condition_to_z3_expression"),
        ("negation and unnecessary is", "edulint/linting/checkers/local_defects.py:Local"),
    ],
    "bounded exhaustive enumeration of programs linted by the real code, every suggestion decided by "
    "executing both conditions on every valuation of a bounded domain",
    EXPL,
    "about 40,000 conditions; all pairs and triples of atoms over comparisons, residues, calls, floats and "
    "chains; integers -6..7 and halves",
)
prop(
    "C18",
    "What is said of the branches of ifs, and rewrites of ifs, hold in every run",
    "When edulint says that a branch is unreachable, that a condition of an if is implied or contradicted "
    "by the ones before it, that an else or elif is superfluous, or that ifs should be nested, merged or "
    "chained, this is true in every execution: the branch never runs, and the program rewritten as told "
    "returns, prints and raises the same on every input.",
    ["programs", "inputs"],
    "every program of the families of ifs, and every input of a bounded domain",
    "tests assert that a few programs are reported, never that the reported claim is true",
    [
        "edulint/linting/checkers/simplifiable_if.py",
        "edulint/linting/checkers/local_defects.py",
        "edulint/linting/analyses/z3_analysis.py",
        "edulint/linting/analyses/data_dependency.py",
    ],
    [
        ("conditions of chains of ifs", "edulint/linting/checkers/simplifiable_if.py:SimplifiableIf"),
        ("redundant elif and unreachable else", "edulint/linting/checkers/local_defects.py:_check_redundant_elif"),
        ("implication across blocks", "edulint/linting/analyses/z3_block_analysis.py:condition_implies_another_with_block_in_between"),
    ],
    "bounded exhaustive enumeration of programs linted by the real code, every claim decided by executing "
    "the program and the rewritten program on every input of a bounded domain",
    EXPL,
    "about 24,000 programs of one to three ifs with all pairs of conditions and all exits; about 8,000 claims",
)
prop(
    "C19",
    "What is said of loops, and rewrites of loops, hold in every run",
    "When edulint says that a loop is infinite or ends in its first iteration, that a range has a given number "
    "of iterations, that its first or last iteration never happens, that changing a control variable has no effect "
    "or that the iterated structure is modified, every execution confirms it. The rewrites it tells (a condition "
    "instead of while True, for instead of while, iterating directly or with enumerate, an early return) keep what "
    "the program returns and raises on every input.",
    ["programs", "inputs"],
    "every program of the families of loops, every path through them and every input of a bounded domain",
    "tests assert that a few programs are reported, never that the reported claim is true",
    [
        "edulint/linting/checkers/unsuited_loop.py",
        "edulint/linting/checkers/python_ta_checkers.py",
        "edulint/linting/checkers/local_defects.py",
        "edulint/linting/analyses/cfg/visitor.py",
        "edulint/linting/analyses/data_dependency.py",
        "edulint/linting/analyses/z3_block_analysis.py",
    ],
    [
        ("claims about loops", "edulint/linting/checkers/unsuited_loop.py:UnsuitedLoop"),
        ("control flow of loops", "edulint/linting/analyses/cfg/visitor.py:visit_for"),
        ("definitions reaching uses", "edulint/linting/analyses/data_dependency.py:collect_reaching_definitions"),
        ("loops with one iteration", "edulint/linting/checkers/python_ta_checkers.py:OneIterationChecker"),
    ],
    "bounded exhaustive enumeration of programs linted by the real code; claims about control flow decided by "
    "exploring every path with opaque conditions, other claims by executing the program and the rewritten "
    "program on every input of a bounded domain",
    EXPL,
    "about 84,000 programs with loops of one to three statements; about 25,000 claims",
)
prop(
    "C20",
    "What is said of expressions and assignments holds, and rewrites keep values",
    "When edulint says that an expression is always a given value or always another of its operands, that an operation "
    "is repeated and can be shortened, that an assignment can be augmented, a list appended to or extended, or a number "
    "replaced by a letter, this is true for every input: the expression or statement rewritten as told has the same value, "
    "effects and exceptions.",
    ["programs", "inputs"],
    "every expression and statement of the families, and every input of a bounded domain",
    "tests assert that a few programs are reported, never that the told value is the value",
    [
        "edulint/linting/checkers/local_defects.py",
        "edulint/linting/tweakers.py",
    ],
    [
        ("redundant arithmetic", "edulint/linting/checkers/local_defects.py:_check_redundant_arithmetic"),
        ("augmented assignments", "edulint/linting/checkers/local_defects.py:_check_augmentable"),
        ("appending", "edulint/linting/checkers/local_defects.py:_check_augassign_extend"),
        ("letters", "edulint/linting/checkers/local_defects.py:_check_magical_constant_in_ord_compare"),
    ],
    "bounded exhaustive enumeration of expressions and statements linted by the real code, every claim decided by "
    "evaluating the original and the rewritten program on every input of a bounded domain",
    EXPL,
    "all pairs of operands and operators, all targets and values of assignments, all letters and offsets",
)

prop(
    "C21",
    "Code said to be repeated is repeated, and is deduplicated as told without change",
    "When edulint says that code is identical or similar (branches of an if, consecutive ifs, sequences of statements, "
    "blocks, bodies of functions), it is so according to Python's own parser, and identical beginnings, ends and whole "
    "branches are always reported. Moving, joining, looping or looking values up as told does not change what the program "
    "does, unless a condition has side effects.",
    ["programs", "inputs"],
    "every if, sequence and block built from the near-identical pieces of the families, and every input of a bounded domain",
    "tests assert how many problems are reported in a few hand-picked duplicates, never that the pieces are equal or that "
    "the told rewrite keeps behaviour",
    [
        "edulint/linting/checkers/duplication/checker.py",
        "edulint/linting/checkers/duplication/duplicate_if.py",
        "edulint/linting/checkers/duplication/duplicate_sequence.py",
        "edulint/linting/checkers/duplication/duplicate_block.py",
        "edulint/linting/analyses/antiunify.py",
    ],
    [
        ("identical code in branches", "edulint/linting/checkers/duplication/duplicate_if.py:identical_before_after_branch"),
        ("consecutive ifs", "edulint/linting/checkers/duplication/duplicate_if.py:identical_seq_ifs"),
        ("similar branches", "edulint/linting/checkers/duplication/duplicate_if.py:duplicate_in_if"),
        ("containers", "edulint/linting/checkers/duplication/duplicate_if.py:get_fixed_by_container"),
        ("loops", "edulint/linting/checkers/duplication/duplicate_sequence.py:similar_to_loop"),
        ("calls and helper functions", "edulint/linting/checkers/duplication/duplicate_block.py:similar_to_block"),
        ("comparison of code", "edulint/linting/analyses/antiunify.py:antiunify"),
    ],
    "bounded exhaustive enumeration of ifs, sequences and blocks linted by the real code, every claim decided by comparing "
    "syntax trees of the standard library and executing the original and the rewritten program on every input",
    EXPL,
    "all pairs of near-identical statements in all shapes of ifs, all pairs of conditions, templates and value sequences",
)

prop(
    "C22",
    "Constructs, names and sizes edulint reports are there, and none is missed",
    "A loop's else, an if alone in an else, int() of a division, isdigit and isnumeric, a list multiplied with mutable "
    "literals in it, a loop target inside a larger object, a comprehension variable shadowing one of its function, code at "
    "top level, a global modified in a function, and a function or script of more than 20 statements are reported wherever "
    "in a program they appear, once, at their own line, with their true names and numbers. Nothing else is reported as such.",
    ["programs"],
    "every construct of the families in every place of a program, and every way of binding and modifying names",
    "tests count the problems in a few programs; whether a construct is found must not depend on the statement, function, "
    "class or expression it stands in",
    [
        "edulint/linting/checkers/local_defects.py",
        "edulint/linting/checkers/python_ta_checkers.py",
        "edulint/linting/checkers/basic_checker.py",
        "edulint/linting/analyses/variable_scope.py",
        "edulint/linting/analyses/var_events.py",
    ],
    [
        ("else-if", "edulint/linting/checkers/local_defects.py:_check_else_if"),
        ("loop targets, shadowing, top-level code", "edulint/linting/checkers/python_ta_checkers.py"),
        ("sizes of functions and scripts", "edulint/linting/checkers/basic_checker.py"),
        ("modified globals", "edulint/linting/checkers/basic_checker.py"),
        ("scopes and events of variables", "edulint/linting/analyses/var_events.py"),
    ],
    "bounded exhaustive enumeration of programs linted by the real code, with every reported and every required problem "
    "decided by the standard library's syntax tree and an independent scope resolution",
    EXPL,
    "all constructs in all places, all pairs of binding and modifying constructs in all scopes: about 17,000 programs",
)

prop(
    "C23",
    "What is reported of one kind does not depend on which others are enabled",
    "A problem of edulint's own checks is reported whenever its kind is enabled, whichever other checks, of edulint or pylint, "
    "are enabled or disabled besides. Enabling others hides it only where the documented table of overrides says so, or where "
    "repeated code is given a better suggestion; it never makes it appear.",
    ["programs", "configurations"],
    "every program of the families of the other properties, and every single kind, every pair of kinds, all but one, all, and "
    "all with all of pylint's",
    "tests enable one kind at a time in a few programs; checks share visitors, caches and analyses",
    [
        "edulint/linting/checkers/local_defects.py",
        "edulint/linting/checkers/simplifiable_if.py",
        "edulint/linting/checkers/unsuited_loop.py",
        "edulint/linting/checkers/duplication/checker.py",
        "edulint/linting/overrides.py",
    ],
    [
        ("visitors", "edulint/linting/checkers/local_defects.py:visit_if"),
        ("visitors of conditions", "edulint/linting/checkers/simplifiable_if.py:visit_boolop"),
        ("repeated code", "edulint/linting/checkers/duplication/checker.py:visit_module"),
        ("overrides", "edulint/linting/overrides.py"),
    ],
    "bounded exhaustive enumeration of sets of enabled checks on programs linted by the real code, results compared with "
    "one another through the documented overrides",
    EXPL,
    "every kind alone on each program of the corpus, all pairs of kinds on all pairs of programs, every complement",
)
prop(
    "C24",
    "What is reported does not depend on layout, names or neighbouring code",
    "Blank lines, comments, other indentation, spaces, line breaks, redundant parentheses, quotes, encodings, line ends, docstrings "
    "and other names of variables leave the problems edulint's own checks report as they are, at the corresponding places. So does "
    "putting a function into a class or function, alone into a file, or among others in another order.",
    ["programs"],
    "every program of the families of the other properties, and every rewriting",
    "tests contain one layout of each program; positions, token counts and lines of code are computed in many places",
    [
        "edulint/linting/checkers/local_defects.py",
        "edulint/linting/checkers/duplication/checker.py",
        "edulint/linting/analyses/antiunify.py",
        "edulint/linting/analyses/utils.py",
        "edulint/linting/linting.py",
    ],
    [
        ("comparison of code", "edulint/linting/analyses/antiunify.py:antiunify"),
        ("sizes", "edulint/linting/analyses/utils.py:get_statements_count"),
        ("order of statements", "edulint/linting/checkers/duplication/checker.py:get_statement_nodes"),
    ],
    "bounded exhaustive enumeration of programs and rewritings that do not change them, linted by the real code and compared",
    EXPL,
    "about 850 programs covering every kind of problem x 33 rewritings of text, file and surroundings",
)
prop(
    "C25",
    "What edulint takes to be the type of a value is its type in every run",
    "Whenever edulint reports something that holds only for values of some type (a membership in a range is a comparison, a "
    "condition on numbers is simpler, an assignment is shortened in place), values determined by literals, operators, conversions, "
    "builtins, branches, loops, exceptions, unpacking, updates and nested functions have that type in every execution, so the "
    "program rewritten as told returns and raises the same. Values of parameters and of unknown calls are not claimed.",
    ["programs", "inputs"],
    "every program of the families and every input of the bounded domain",
    "tests contain a few programs; types are guessed along every path of assignments that reaches a use",
    [
        "edulint/linting/analyses/types.py",
        "edulint/linting/analyses/data_dependency.py",
        "edulint/linting/analyses/cfg/visitor.py",
        "edulint/linting/analyses/variable_scope.py",
    ],
    [
        ("types of expressions", "edulint/linting/analyses/types.py:TypeVisitor"),
        ("definitions that reach a use", "edulint/linting/analyses/data_dependency.py:collect_reaching_definitions"),
        ("assigned expressions", "edulint/linting/analyses/data_dependency.py:get_assigned_expressions"),
    ],
    "bounded exhaustive enumeration of programs, linted by the real code, and of their executions before and after the rewriting",
    EXPL,
    "about 99,000 programs: 67,000 expressions, 80 ways of binding, 7 ways of updating by 12 operators, changes by nested functions",
)
