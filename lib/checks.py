"""What each check does."""
import json, os, re, sys, time, traceback
import vlib
from vlib import Run, Traces, Broken, NoParser

CHECKS = {}


def check(prop, level, rule, technique, note):
    def deco(f):
        CHECKS[prop] = dict(f=f, level=level, rule=rule, technique=technique, note=note)
        return f
    return deco


TRACE = 'TLA+ specification; traces recorded from the real code validated by TLC'

# --- parsing, v6 -----------------------------------------------------------


@check('C01', 'exploration',
       'filters drawn from the grammar (all operators, nesting, keyword case, spacing, with and without parentheses), '
       'documentation-style filters and very long or deep ones; TLC derives the tree from the text by the grammar in '
       'spec/Gram6.tla and compares; non-trivial: three bytes or more',
       TRACE + ' (lexer + grammar: Lex6, Gram6, Tree6)',
       'Every generated filter is parsed by the real parser and by the specification; trees compared node by node. '
       'Bounded by the generator (sentences of up to some 150 nodes, nesting to 300). Trusts the tree projection through the public API.')
def c01(run):
    t = Traces(run, 'v6/drv6', 'CheckParse6')
    t.go('parse', 150000 if run.deep else 14000)


@check('C02', 'exploration',
       'all token sequences up to length 2 (3 when thorough) over one spelling of each token kind, every byte next to operands, '
       'hand-written near misses, and grammar sentences damaged at random places; the specification decides membership in '
       'the language; non-trivial: three bytes or more',
       TRACE + ' (lexer + grammar decide membership; error object)',
       'Acceptance must equal membership in the specified language, for each text explored; the error must carry input, message, '
       'position. Bounded by the generator.')
def c02(run):
    t = Traces(run, 'v6/drv6', 'CheckParse6')
    t.go('reject', 150000 if run.deep else 12000)


@check('C03', 'exploration',
       'systematic and random literals of every kind in several contexts; numbers are compared as exact decimals against the '
       'rounding interval of the double; non-trivial: three bytes or more',
       TRACE + ' (literal denotation: Lex6, Decimal, Time, Tree6)',
       'Exact decimal arithmetic in the specification; a numeric literal must lie in the rounding interval of the double '
       '(one more rounding allowed for decimal size suffixes). Bounded by the generator.')
def c03(run):
    t = Traces(run, 'v6/drv6', 'CheckParse6')
    t.go('literal', 200000 if run.deep else 14000)


# --- evaluation, v6 --------------------------------------------------------

EVAL = ('filters evaluated by the real code and by the specification (parse + Eval6 in TLA+) on the same record; ')


@check('C08', 'exploration',
       EVAL + 'typed random filters over records of null, boolean, numeric (ten Go integer widths, both floats), text and date '
       'fields, a small share of operands of a wrong type or missing; non-trivial: three bytes or more',
       TRACE + ' (reference evaluator Eval6, Num)',
       'Value or error must be the specified one. Results that depend on floating point rounding beyond the correctly rounded '
       'last operation are not judged (counted). Only error-or-value is compared, not the kind of error.')
def c08(run):
    t = Traces(run, 'v6/drv6', 'CheckEval6')
    t.go('scalar', 240000 if run.deep else 20000)


@check('C09', 'exploration',
       EVAL + 'filters with array fields, array literals and computed arrays (empty, single, mixed, nested) under every operator',
       TRACE + ' (reference evaluator Eval6)',
       'As C08; the result for NOT and minus on nested arrays is not judged.')
def c09(run):
    t = Traces(run, 'v6/drv6', 'CheckEval6')
    t.go('array', 240000 if run.deep else 20000)


@check('C10', 'exploration',
       EVAL + 'records hold any Go value (NaN, infinities, typed and nil slices, maps, structs, pointers, functions, named types), '
       'filters are typed ones and arbitrary sentences; each evaluated twice, names read and the record and tree compared',
       TRACE + ' (outcome vocabulary, reads, unchanged record; values by Eval6 where defined)',
       'A panic, hang, change of record or tree, unstable outcome or foreign field read is a violation; where Eval6 defines the '
       'value it is compared too.')
def c10(run):
    t = Traces(run, 'v6/drv6', 'CheckEval6')
    t.go('odd', 240000 if run.deep else 20000)


@check('C11', 'exploration',
       '36 laws written in TLA+ (Laws6); TLC checks them on the specified evaluation for all operands from 18 values of every type '
       'and spelling (MCLaws6), and validates recorded pairs of real evaluations: all operands from 22 values (not-a-number and infinity too), and random operand '
       'expressions; non-trivial: three bytes or more',
       'TLA+ model of evaluation checked against the laws by TLC; recorded pairs of real evaluations validated by TLC',
       'Both sides are proved to be an instance of the law by the specification before outcomes are compared; pairs in which a side '
       'is an error are not judged.')
def c11(run):
    model(run, 'MCLaws6')
    t = Traces(run, 'v6/drv6', 'CheckLaw6')
    t.go('lawall', 1, chunks=16)
    t.go('law', 240000 if run.deep else 10000)


@check('C12', 'exploration',
       EVAL + 'LIKE, ILIKE, ~=, ~! with patterns derived from the text, systematic single-character cases for every ASCII '
       'punctuation character, regular expressions of the RE2 core, wrong expressions and wrong operand types',
       TRACE + ' (pattern matchers Like, Regex written in TLA+)',
       'Matching decided by a set-of-positions matcher in TLA+. Not judged: invalid UTF-8, case folding outside Latin-1, basic '
       'Greek and Cyrillic, regular expression syntax outside the core.')
def c12(run):
    t = Traces(run, 'v6/drv6', 'CheckEval6')
    t.go('pattern', 200000 if run.deep else 20000)


@check('C13', 'exploration',
       EVAL + 'date, timestamp and text operands in every spelling (zone offsets, fractions, invalid dates), on literals, time '
       'values and texts, under all comparison operators, IN and BETWEEN',
       TRACE + ' (calendar arithmetic in TLA+: Time)',
       'Instants are compared as days, seconds and nanoseconds computed in TLA+ from the text. Spellings that Go reads more '
       'leniently than RFC 3339 are not judged.')
def c13(run):
    t = Traces(run, 'v6/drv6', 'CheckEval6')
    t.go('date', 200000 if run.deep else 20000)


@check('C14', 'exploration',
       'filters: every operator pair nested with and without parentheses on either side and under NOT and minus, grammar '
       'sentences and typed random filters; the SQL text is parsed by an SQL expression parser written in TLA+ (standard '
       'precedence and associativity) and compared with the tree of the filter',
       TRACE + ' (two grammars in TLA+: the filter language and SQL conditions; equality of the two trees)',
       'AND and OR chains are compared up to grouping. Trusts the SQL precedence table of spec/Sql.tla (PostgreSQL, MySQL and SQLite agree on it).')
def c14(run):
    t = Traces(run, 'v6/drv6', 'CheckSql6@CheckSql6Shape')
    t.go('sql', 150000 if run.deep else 12000)


@check('C15', 'exploration',
       'filters with literals of every kind, hostile texts (quotes, semicolons, comments, placeholders, operators spelled in '
       'text) in every operand position; arguments compared with the literals of the filter from left to right',
       TRACE + ' (SQL lexer in TLA+; literal denotations)',
       'The text may hold only operators, names of the filter and placeholders; the arguments must be the literals in order.')
def c15(run):
    t = Traces(run, 'v6/drv6', 'CheckSql6@CheckSql6Args')
    t.go('sqlargs', 150000 if run.deep else 12000)
    t.go('sql', 50000 if run.deep else 4000)


@check('C16', 'exploration',
       'identifiers at every place of every kind of filter and in arbitrary sentences, under mappings that rename, swap, expand to '
       'expressions, refuse or answer texts that do not parse; the expected tree is computed by substitution on the specified parse',
       TRACE + ' (substitution on the specified tree; names asked; source tree before and after)',
       'Every occurrence must be asked for once; a refused or unparsable name must give an error and no tree.')
def c16(run):
    t = Traces(run, 'v6/drv6', 'CheckIdent6')
    t.go('ident', 150000 if run.deep else 10000)


@check('C17', 'exploration',
       'filters with hostile names and texts (quotes, braces, bars, arrows, line ends, DOT keywords), arbitrary sentences, deep and '
       'wide ones (an array of 1200 elements); the output is read by a DOT reader written in TLA+ and compared with the tree',
       TRACE + ' (DOT and record-label reader in TLA+; isomorphism of drawing and tree)',
       'Node names, edges, order of children, kind and value of every leaf. Date and time leaves are required to show date and time of '
       'day. Trusts that the DOT subset in spec/Dot.tla reads as Graphviz does.')
def c17(run):
    t = Traces(run, 'v6/drv6', 'CheckDot6')
    t.go('dot', 80000 if run.deep else 6000)


@check('C18', 'exploration',
       'sentences, systematic literals and texts that JSON and YAML treat specially; both documents are read back by the standard '
       'readers and the tree in them compared with the specified parse of the text',
       TRACE + ' (tree equality with exact numbers and instants)',
       'Not judged: infinite numbers, texts that are not UTF-8, zone offsets of 24 hours.')
def c18(run):
    t = Traces(run, 'v6/drv6', 'CheckDoc6')
    t.go('doc', 120000 if run.deep else 8000)


# --- trees in memory, v6 ---------------------------------------------------

@check('C04', 'model_checking',
       'Parser6 (the parser\'s process-wide state, 3 processes of 2 calls over 5 classes of text, with the lock) model-checked for '
       'every interleaving; the same model without the lock must fail. Real goroutines (8 and 16) make random calls of a pool at once '
       '(parses of valid, invalid, huge texts, evaluation, SQL, rewriting, cloning, documents; trees kept and re-read), in a build '
       'whose C allocations yield at random, under the Go race detector and with the C code under ThreadSanitizer; every outcome '
       'must be the one the call has in a process of its own',
       'TLA+ model of the parser state and lock checked by TLC; recorded concurrent histories validated by TLC against the outcomes alone; '
       'race detectors on the same runs',
       'The schedules of the real runs are those the operating system produces, widened by random yields. ThreadSanitizer orders C calls '
       'that do not overlap in time, so it reports overlap only.')
def c04(run):
    model(run, 'MCParser6', 'MCParser6Conc', workers=8)
    model(run, 'MCParser6', 'MCParser6Live')
    refuted(run, 'MCParser6', 'MCParser6NoLock')
    pool = None
    for d, v, env in (('v6/conc6', '', {}), ('v6/drv6', 'race', dict(GORACE='halt_on_error=1 atexit_sleep_ms=0')),
                      ('v6/drv6', 'tsan', dict(TSAN_OPTIONS='halt_on_error=1'))):
        t = Traces(run, d, 'CheckSession6', variant=v, denv=env, sure=True)
        pool = pool or t.pool()
        n = (12 if not v else 3) * (12 if run.deep else 1)
        size = 150 if not v else 60
        t.cases('conc', [dict(op='conc', s=[], arg=dict(pool=pool, g=8 if i % 3 else 16, n=size, seed=run.seed * 1000 + i,
                                                        sync=i % 2 == 0, new=size // 2)) for i in range(n)], chunks=min(n, 3), timeout=800)


@check('C05', 'model_checking',
       'Parser6 with one process model-checked for 4 calls (and refuted when a call does not start fresh); sequences of calls made by '
       'TLC (all pairs of the pool, random ones of length 40 with trees kept and dropped) run in one process of the real library: '
       'every outcome must be the one the call has in a process of its own and trees kept must not change; and families of calls that '
       'share texts (as pattern of several operators, literal of several kinds, value of several types), each outcome the specified one',
       'TLA+ model of the parser state checked by TLC; TLC-made call sequences replayed in the real library, histories validated by TLC '
       'against the outcomes alone and against the grammar and semantics in TLA+',
       'The pool holds some 80 calls chosen to leave something behind: lexical errors, unterminated texts, huge, deep and empty '
       'texts, failing evaluation, refused rewriting; outcomes are compared whole (message, position, context, tree) by digest.')
def c05(run):
    model(run, 'MCParser6', 'MCParser6Seq')
    refuted(run, 'MCParser6', 'MCParser6Stale')
    t = Traces(run, 'v6/drv6', 'CheckSession6', sure=True)
    pool = t.pool()
    small = [c for c in pool if len(c['s']) < 400]
    large = [c for c in pool if len(c['s']) >= 400]
    run.extra['pool'] = len(pool)

    run_sessions(run, t, small, large, 4000 if run.deep else 240)
    Traces(run, 'v6/drv6', 'CheckFamily6', sure=True).go('family', 200000 if run.deep else 12000)


def sessions(pool, bs):
    """The cases of sequences of calls: the calls of the pool they use, and the steps."""
    out = []
    for b in bs:
        u = sorted({s['c'] for s in b if s['k'] != 'drop'})
        out.append(dict(op='session', s=[], arg=dict(
            pool=[pool[i - 1] for i in u],
            steps=[dict(s, c=u.index(s['c']) + 1 if s['k'] != 'drop' else s['c']) for s in b])))
    return out


def run_sessions(run, t, small, large, n):
    """All pairs of the small calls, in one process after the other; then longer sequences of any."""
    pairs = run.behaviours('MCSession6', 'GenSession6', env=dict(POOL=str(len(small))))
    joined = [sum(pairs[i:i + 20], []) for i in range(0, len(pairs), 20)]
    t.cases('pairs', sessions(small, joined))
    mixed = small + large
    long_ = run.simulated('MCSession6', 'SimSession6', n, 43, env=dict(POOL=str(len(mixed))))
    run.extra['behaviours'] = run.extra.get('behaviours', 0) + len(pairs) + len(long_)
    t.cases('long', sessions(mixed, long_))


@check('C06', 'model_checking',
       'Heap6 (parse, clone, detach, borrow, attach, free on up to 4 handles) model-checked to depth 5 for forest shape, no lost or '
       'shared node, independence of clones, nothing left after freeing; its behaviours (all of length 3, random ones of length '
       '20) run against the real library built with the address sanitizer, every reachable tree compared after each step; and clone, '
       'detach at a random place, attach elsewhere on the trees of arbitrary filters, compared with the specified trees',
       'TLA+ model of tree ownership checked by TLC; its behaviours replayed in the real library under AddressSanitizer and validated '
       'step by step by TLC',
       'Operations that the documentation makes undefined (attaching a node that already has a parent, freeing a borrowed node) are not tried.')
def c06(run):
    model(run, 'MCHeap6', workers=8)
    t = Traces(run, 'v6/drv6', 'CheckHeap6', variant='asan', denv=dict(ASAN_OPTIONS='detect_leaks=0'))
    bs = run.behaviours('MCHeap6', 'GenHeap6')
    bs += run.simulated('MCHeap6', 'SimHeap6', 60000 if run.deep else 2400, 23)
    run.extra['behaviours'] = len(bs)
    t.cases('heap', [dict(op='heap', s=[], arg=b) for b in bs])
    t = Traces(run, 'v6/drv6', 'CheckClone6', variant='asan', denv=dict(ASAN_OPTIONS='detect_leaks=0'))
    t.go('clone', 40000 if run.deep else 3000)


@check('C07', 'model_checking',
       'Heap6 model-checked: freeing the trees left leaves nothing; in the real library every kind of operation (parsing of sentences '
       'and damaged texts, literals, rewriting granted and refused, clone, detach, attach, evaluation, SQL, drawing, documents, and '
       'the behaviours of Heap6) is run six times with all C allocations counted; and long runs over thousands of different filters',
       'TLA+ model of tree ownership (NoLeak) checked by TLC; recorded counts of live C blocks, bytes and Go objects validated by TLC',
       'Counts every malloc and free of the process, so the result does not depend on allocator or garbage collector noise: a violation '
       'is a rise in each of the last four of six runs.')
def c07(run):
    model(run, 'MCHeap6', workers=8)
    t = Traces(run, 'v6/mem6', 'CheckMem6')
    bs = run.simulated('MCHeap6', 'SimHeap6', 16000 if run.deep else 800, 23)
    run.extra['behaviours'] = len(bs)
    t.cases('heap', [dict(op='mem', s=[], arg=dict(op='heap', arg=b)) for b in bs])
    t.go('mem', 30000 if run.deep else 2500)
    t.go('many', 20000 if run.deep else 600, chunks=10)


CLI6 = {t: 'github.com/yaacov/tree-search-language/v6/cmd/' + t for t in ('tsl', 'tsl_parser', 'tsl_mem')}


@check('C19', 'exploration',
       'The tools tsl, tsl_parser (JSON, YAML, DOT, SQL) and tsl_mem run on the corpus, grammar sentences, damaged sentences, filters over '
       'the books and wrong usage: exit status, message, and what is printed read back and compared with the tree, statement or books '
       'the specification gives',
       'TLA+ specification (Gram6, Eval6, Dot) evaluated by TLC over recorded runs of the real command line tools (trace validation)',
       'SQL texts are judged by C14/C15; here the statement must carry the condition and arguments of the library.')
def c19(run):
    t = Traces(run, 'v6/drv6', 'CheckCli6', denv=dict(CLI_DIR=run.tools('v6', CLI6)))
    t.go('cli', 60000 if run.deep else 6000)


@check('C26', 'translation_validation',
       'Typed filters over numeric, text, boolean, date and timestamp columns, with tables of 1 to 6 rows drawn from the same small pool of '
       'values; the SQL with its arguments is run on SQLite, the filter evaluated in memory, and both row sets compared with Eval6 '
       'and with each other',
       'TLA+ specification of the filter language (Eval6) evaluated by TLC over recorded row sets of SQLite and of the real evaluator',
       'ILIKE has no counterpart on SQLite; columns of numbers are REAL; dates are stored in the format the SQL arguments use.')
def c26(run):
    t = Traces(run, 'v6/db6', 'CheckDb6')
    t.go('db', 200000 if run.deep else 16000)


# --- v4 and v5 -------------------------------------------------------------


@check('C20', 'model_checking',
       'How arithmetic trees are joined (Join45) is model-checked for every chain of up to 6 operators in every bracketing the parser may '
       'hand over, and refuted without regrouping; grammar sentences, documentation-style filters, all short token sequences, every byte, '
       'odd literals and damaged sentences are parsed by v4 and v5 and by the specification (Lang45), trees compared node by node',
       'TLA+ model of tree building checked by TLC; recorded parses of the real code validated by TLC against a lexer and grammar in TLA+',
       'Not judged: texts that are not UTF-8, numbers at the edge of what a double holds, dates that Go reads more leniently than RFC 3339.')
def c20(run):
    model(run, 'Join45')
    refuted(run, 'Join45', 'Join45Top')
    for v in ('v5', 'v4'):
        t = Traces(run, v + '/drv', 'CheckParse45')
        t.go('parse', 150000 if run.deep else 8000)
        t.go('reject', 150000 if run.deep else 6000)


@check('C21', 'model_checking',
       'The prediction cache that all v4/v5 parsers of a process share (Cache45, 3 callers of 2 texts) is model-checked under the lock and '
       'refuted without it; arbitrary bytes, token sequences, damaged filters and filters are parsed and walked in every way, with a value '
       'or an error each time; TLC-made sequences of calls and goroutines (8 and 16, also under the race detector) must give every call '
       'the outcome it has in a process of its own, and the one specified',
       'TLA+ model of the shared parser state checked by TLC; TLC-made call sequences replayed, recorded sequential and concurrent histories '
       'validated by TLC against the outcomes alone and against the grammar and semantics in TLA+; race detector on the same runs',
       'The schedules of the real runs are those the operating system produces. Parenthesised arithmetic is nested to 12 only: the ANTLR '
       'runtime needs time that grows fast with that depth.')
def c21(run):
    model(run, 'Cache45', workers=8)
    refuted(run, 'Cache45', 'Cache45Open')
    for v in ('v5', 'v4'):
        Traces(run, v + '/drv', 'CheckTotal45').go('total', 150000 if run.deep else 8000)
        t = Traces(run, v + '/drv', 'CheckConc45', sure=True)
        pool = t.pool()
        run.extra['pool'] = len(pool)
        Traces(run, v + '/drv', 'CheckFamily45', sure=True).go('family', 150000 if run.deep else 8000)
        run_sessions(run, t, [c for c in pool if len(c['s']) < 300], [c for c in pool if len(c['s']) >= 300], 2000 if run.deep else 120)
        for variant, env in (('', {}), ('race', dict(GORACE='halt_on_error=1 atexit_sleep_ms=0'))):
            t = Traces(run, v + '/drv', 'CheckConc45', variant=variant, denv=env, sure=True)
            n = (9 if not variant else 3) * (12 if run.deep else 1)
            size = 120 if not variant else 60
            t.cases('conc', [dict(op='conc', s=[], arg=dict(pool=pool, g=8 if i % 3 else 16, n=size, seed=run.seed * 1000 + i,
                                                            sync=i % 2 == 0, new=size // 2)) for i in range(n)], chunks=min(n, 3), timeout=800)


@check('C22', 'translation_validation',
       'Evaluation of generated v4 and v5 filters on generated records, over every pair of value types, with patterns over all wildcard '
       'arrangements and records of values the language knows nothing about, compared with the specification of what a filter means (Eval45)',
       'recorded evaluations of the real code validated by TLC against a semantics written in TLA+',
       'Not judged: arithmetic that doubles round, division by zero, texts compared with booleans other than the documented spellings, '
       'values of Go types outside the documented ones where Go itself converts them.')
def c22(run):
    for v in ('v5', 'v4'):
        t = Traces(run, v + '/drv', 'CheckEval45')
        t.go('eval', 200000 if run.deep else 8000)
        t.go('odd', 100000 if run.deep else 4000)
        t.go('pattern', 60000 if run.deep else 4000)


@check('C23', 'translation_validation',
       'The SQL of generated v4 and v5 filters, read back by a parser of SQL conditions in TLA+ (Sql) and compared with the tree, operator by '
       'operator and argument by argument; and generated filters run on SQLite over generated tables, the rows selected compared with '
       'evaluation in memory and with the specification of what the filter means',
       'recorded SQL of the real code parsed and matched by TLC; recorded row sets validated by TLC against a semantics written in TLA+',
       'Names that SQL does not read as a column name are put into the text as they are: for these only the arguments are judged. On SQLite: '
       'no ILIKE and no remainders, dates in whole seconds of UTC, and no negation over rows that lack values (SQL has a third truth value).')
def c23(run):
    for v in ('v5', 'v4'):
        Traces(run, v + '/drv', 'CheckSql45').go('sql', 200000 if run.deep else 12000)
        Traces(run, v + '/db', 'CheckDb45').go('db', 100000 if run.deep else 8000)


@check('C24', 'translation_validation',
       'The MongoDB query of generated v4 and v5 filters, read back from its bytes, evaluated by a specification of MongoDB queries (Mongo) '
       'on generated documents and compared with the specification of what the filter means (Eval45); filters that a query can not '
       'express must be refused',
       'recorded query documents of the real code interpreted by TLC with a semantics of MongoDB queries in TLA+, against the filter semantics in TLA+',
       'There is no MongoDB here: its semantics are those of the specification. Not judged: documents that lack a field of the filter, or have '
       'null in it (but IS NULL, which asks for the absence of the field, is judged on documents that lack it).')
def c24(run):
    for v in ('v5', 'v4'):
        Traces(run, v + '/drv', 'CheckMongo45').go('mongo', 200000 if run.deep else 12000)


@check('C25', 'translation_validation',
       'Generated v4 and v5 filters rewritten under generated mappings (renaming, swapping, refusing), compared with the rewritten tree of the '
       'specification and with the names it must ask for; and drawn by the Graphviz walker, the text read back by a DOT parser in TLA+ and '
       'compared with the tree, node by node, child by child',
       'recorded rewritings and drawings of the real code validated by TLC against a specification in TLA+ (grammar, rewriting, DOT reader)',
       '')
def c25(run):
    for v in ('v5', 'v4'):
        Traces(run, v + '/drv', 'CheckIdent45').go('ident', 100000 if run.deep else 8000)
        Traces(run, v + '/drv', 'CheckDot45').go('dot', 60000 if run.deep else 6000)


CLI45 = ('tsl_mem', 'tsl_sqlite', 'tsl_gorm', 'tsl_graphql', 'tsl_mongo', 'tsl_parser')


def cli45(v):
    return {t: 'github.com/yaacov/tree-search-language/%s/cmd/%s' % (v, t) for t in CLI45}


@check('C27', 'exploration',
       'The tools of v4 and v5 run on the corpus, grammar sentences, damaged sentences, filters over the books and wrong usage: the searches '
       'in memory, on SQLite, GORM and GraphQL (one server, many searches, few file handles), and on a stand-in that speaks the MongoDB '
       'protocol and records the books stored and the query asked; the parser tool in all its formats; exit status, message and what is '
       'printed are compared with the books, query, tree or statement the specification gives',
       'TLA+ specification (Lang45, Eval45, Mongo, Dot) evaluated by TLC over recorded runs of the real command line tools (trace validation)',
       'Not judged on SQLite: divisions and operands of different kinds. The MongoDB server is a stand-in; what a query selects is '
       'decided by the specification of MongoDB queries.')
def c27(run):
    for v in ('v5', 'v4'):
        env = dict(CLI_DIR=run.tools(v, cli45(v)))
        Traces(run, v + '/drv', 'CheckCli45', denv=env).go('cli', 40000 if run.deep else 6000)
        Traces(run, v + '/drv', 'CheckCli45', denv=env, sure=True).go('graph', 10000 if run.deep else 600, chunks=1)


@check('C28', 'translation_validation',
       'trees put together with the tree operations from the trees of up to four random filters (parts taken out, or cloned; the '
       'others freed before or after), with random records and renamings, then with the last part taken out again; all walks of both',
       'trace validation by TLC: the specification puts the same tree together from its own parses, and judges evaluation, SQL, '
       'renaming, documents and drawing of it as it judges those of a parsed filter',
       'IS with anything but NULL on its right can not be written in the language; its evaluation and SQL are not judged.')
def c28(run):
    t = Traces(run, 'v6/drv6', 'CheckGraft6', variant='asan', denv=dict(ASAN_OPTIONS='detect_leaks=0'))
    t.go('graft', 80000 if run.deep else 6000)


@check('C29', 'translation_validation',
       'trees put together by hand with AND, OR and NOT from the trees of up to five generated v4 and v5 filters, some used twice, some '
       'walked before, some copied by renaming nothing: evaluated on generated records, made into SQL, MongoDB queries and drawings, and renamed',
       'trace validation by TLC: each result is compared with what the specification gives for the text the tree reads as',
       'Not judged: what C22 to C25 do not judge.')
def c29(run):
    for v in ('v5', 'v4'):
        for mode, module, n in (('eval', 'CheckEval45', 6000), ('sql', 'CheckSql45', 6000), ('mongo', 'CheckMongo45', 4000),
                                ('ident', 'CheckIdent45', 4000), ('dot', 'CheckDot45', 3000)):
            Traces(run, v + '/drv', module).go('made-' + mode, n * 12 if run.deep else n)


@check('C30', 'model_checking',
       'Readers of one tree (Share6: 3 readers of 4 nodes, every interleaving, each with memory of its own or with a text kept in the '
       'tree once it is whole; refuted where readers share memory or keep a text before it is whole); trees of generated filters of all '
       'three versions read by 4 to 16 goroutines at once, each evaluating, making SQL, documents and drawings, renaming, cloning and '
       'reading in an order of its own, also with C allocations that yield, under the race detector and under ThreadSanitizer: every '
       'different outcome is compared with what the filter says',
       'TLA+ model of shared reading checked by TLC; recorded concurrent histories of the real code validated by TLC against the grammar '
       'and semantics in TLA+; race detectors on the same runs',
       'The schedules of the real runs are those the operating system produces. Not judged: what C07 to C13 and C22 to C25 do not judge.')
def c30(run):
    model(run, 'Share6', workers=8)
    model(run, 'Share6', 'Share6Kept', workers=8)
    refuted(run, 'Share6', 'Share6One')
    refuted(run, 'Share6', 'Share6Torn')
    race = dict(GORACE='halt_on_error=1 atexit_sleep_ms=0')
    for d, v, env, n in (('v6/conc6', '', {}, 700), ('v6/drv6', 'race', race, 200), ('v6/drv6', 'tsan', dict(TSAN_OPTIONS='halt_on_error=1'), 100),
                         ('v5/drv', '', {}, 600), ('v5/drv', 'race', race, 150), ('v4/drv', '', {}, 600), ('v4/drv', 'race', race, 150)):
        Traces(run, d, 'CheckShare6' if d[:2] == 'v6' else 'CheckShare45', variant=v, denv=env, sure=True).go('share', n * 20 if run.deep else n)


@check('C31', 'exploration',
       EVAL + 'filters that often fail: records lack fields, hold zeros and values of other types, patterns are malformed; non-trivial: '
       'three bytes or more',
       TRACE + ' (the set of causes a failing filter has on a record, Cause6)',
       'Where several operands fail, any of their causes may be reported. Which operand type an error asks for is not judged.')
def c31(run):
    Traces(run, 'v6/drv6', 'CheckCause6').go('cause', 240000 if run.deep else 20000)


@check('C32', 'exploration',
       'the parser is made anew from tsl_parser.y and tsl_lexer.l with the script of the repository (bison, flex) and built in place of the '
       'shipped C files; generated filters, damaged filters, all short token sequences and literals of every kind are parsed by both; '
       'non-trivial: three bytes or more',
       TRACE + ' (both parsers against Lex6, Gram6, Tree6, and against each other)',
       'Each outcome must be the specified one and both the same, error texts included. Made with the bison and flex installed here.')
def c32(run):
    t = Traces(run, 'v6/drv6', 'CheckTwin6')
    try:
        t.denv = dict(TWIN=run.build('v6/drv6', 'regen'))
    except NoParser as e:
        case = dict(op='twin', s=[])
        return run.found(t, 'no parser can be made from the grammar', case, case, err=str(e))
    for mode, n in (('parse', 4000), ('reject', 5000), ('literal', 5000)):
        t.go('twin-' + mode, n * 12 if run.deep else n)


def model(run, module, cfg=None, workers=4, args=(), heap='4g'):
    """Model-checks a module of the specification; it must hold."""
    p = run.tlc(module, cfg=cfg, workers=workers, args=args, heap=heap)
    if p.returncode or 'No error has been found' not in p.stdout:
        raise Broken('the specification %s does not satisfy its own properties: %s' % (module, p.stdout[-3000:]))
    m = re.search(r'(\d+) states generated, (\d+) distinct', p.stdout)
    run.extra.setdefault('models', {})[cfg or module] = dict(states_generated=int(m.group(1)), distinct_states=int(m.group(2)))


def refuted(run, module, cfg):
    """A variant of the model that must fail: the model can tell the difference."""
    p = run.tlc(module, cfg=cfg, workers=2)
    if 'is violated' not in p.stdout:
        raise Broken('%s should not hold: %s' % (cfg, p.stdout[-2000:]))
    run.extra.setdefault('refuted', []).append(cfg)


# --- running ---------------------------------------------------------------

def main(prop):
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    c = CHECKS[prop]
    run = Run(prop, tier, seed)
    code = 2
    try:
        c['f'](run)
        code = report(run, c)
    except Broken as e:
        print('ERROR: %s' % e)
    except Exception:
        traceback.print_exc(file=sys.stdout)
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', run.tmp)
        else:
            run.close()
    return code


def replay(path):
    """Runs the case of a violation again; a history of many calls is run as a whole."""
    r = json.load(open(path))
    run = Run(r['property'], 'quick', 1)
    env = {}
    if r['property'] in ('C19', 'C27'):
        v = r['driver'].split('/')[0]
        env = dict(CLI_DIR=run.tools(v, CLI6 if v == 'v6' else cli45(v)))
    if r['property'] == 'C32':
        env = dict(TWIN=run.build('v6/drv6', 'regen'))
    try:
        t = Traces(run, r['driver'], r['module'], variant=r['variant'], denv=env)
        why = t.replay(run.build(r['driver'], r['variant']), r['case'])
    finally:
        run.close()
    print(r['shown'])
    print('reproduced: ' + why if why else 'not reproduced by the case alone; driver arguments then: %s' % r['args'])
    return 1 if why else 0


def report(run, c):
    known = vlib.known().get(run.prop, {})
    new, old = [], {}
    for f in run.findings:
        k = match(known, f)
        if k:
            old.setdefault(k, f)
        else:
            new.append(f)
    n = run.counts
    if c['level'] == 'model_checking':
        cov = dict(states=n['states'], transitions=n['transitions'], traces_validated_against_impl=n['traces'],
                   samples=run.samples[:8])
    elif c['level'] == 'translation_validation':
        cov = dict(programs=n['events'], disagreements_checked=n['ok'] + n['bad'], samples=run.samples[:8])
    else:
        cov = dict(evaluations=n['events'], distinct_nontrivial=len(run.distinct), rule=c['rule'], samples=run.samples[:8])
    cov['not_judged'] = n['skip']
    cov['rule'] = c['rule']
    cov.update(run.extra)
    if n['events'] == 0 and n['traces'] == 0:
        raise Broken('nothing was explored')
    ev = dict(property=run.prop, tier=run.tier, seed=run.seed, level=c['level'], coverage=cov,
              wall_s=round(time.time() - run.start, 1), violations=len(new), known_findings=len(old), notes=run.notes[:20])
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.VERIF, 'evidence', run.prop + '.json'), 'w'), indent=1)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (run.prop, known[k]))
    for x in run.notes[:5]:
        print('note:', x)
    for f in new[:10]:
        print('  %s: %s' % (f['reason'], f['shown']))
    for f in new[:10]:
        print('VIOLATION property=%s replay=%s' % (run.prop, f['replay']))
    print('%s %s: %s' % (run.prop, 'VIOLATED' if new else 'held', json.dumps(dict(n, wall_s=ev['wall_s']))))
    return 1 if new else 0


def match(known, f):
    """A listed finding is identified by the case's key, or by its class."""
    for k in known:
        if k == f['key'] or k == f.get('cls'):
            return k
    return None


DRIVERS = [('v6/drv6', ''), ('v6/drv6', 'asan'), ('v6/mem6', ''), ('v6/db6', ''),
           ('v5/drv', ''), ('v4/drv', ''), ('v5/db', ''), ('v4/db', ''), ('v5/drv', 'race'), ('v4/drv', 'race'), ('v6/conc6', ''), ('v6/drv6', 'race'), ('v6/drv6', 'tsan')]
# but 'regen': that is what C32 decides


def setup():
    run = Run('setup', 'quick', 1)
    try:
        for d, v in DRIVERS:
            run.build(d, v)
        run.tools('v6', CLI6)
        for v in ('v5', 'v4'):
            run.tools(v, cli45(v))
    finally:
        run.close()
    return 0
