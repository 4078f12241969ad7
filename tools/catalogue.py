"""Which witnesses decide which property, and which findings count for it."""
import effects
MEMORY = ['tape-oob-read', 'tape-past-end', 'tape-write', 'assert', 'abort', 'trap', 'null-deref', 'null-call', 'heap-oob', 'table-oob',
          'use-after-free', 'use-after-scope', 'undef', 'unreachable', 'div-zero', 'const-write', 'bad-free', 'double-free',
          'free-size', 'alloc-size']
ENGINE = 'abstract interpretation of the LLVM IR clang makes of witness instantiations of the library; value sets per code unit, ' \
         'typestate monitors over parse events, states merged at loop heads until a fixpoint'
NOT_APPLICABLE = {}
GENERIC = ['g_tokens', 'g_branch', 'g_list', 'g_delim', 'g_ws', 'g_prod', 'nd1']


def generic(codes, **kw):
    return [dict(id=g, file=g + '.cpp', codes=codes, time=30, **kw) for g in GENERIC]


# witnesses that run under the same monitor but look at bounded inputs exactly
EVENTFUL = ['c05', 'c12', 'c13', 'c14', 'c20']


def events(codes, more=()):
    return generic(codes) + [dict(id=g, file=g + '.cpp', codes=codes, time=30) for g in EVENTFUL + list(more)]


def own(f, code, extra=(), **kw):
    return [dict(id=f, file=f + '.cpp', codes=[code] + MEMORY + list(extra), time=30, covers=True, **kw)]


PROPS = {
    'C01': dict(explain=ENGINE + '. Rule: no reachable abstract state reads at or past the end, moves past the end, fails an assertion or uses memory wrongly.', groups=events(MEMORY, ['c07', 'c10', 'c11', 'c11u', 'c19', 'c21', 'c22', 'c27'])),
    'C02': dict(explain=ENGINE + '. Rule: no cycle of abstract states without progress of the input position.', groups=events(['no-progress'])),
    'C03': dict(explain=ENGINE + '. Rule: event typestate monitor.', groups=events(['C03'])),
    'C04': dict(explain=ENGINE + '. Rule: token tiling monitor.', groups=events(['C04']) + [dict(id='c15t', file='c15t.cpp', codes=['C04'], time=30)]),
    'C06': dict(explain=ENGINE + '. Rule: failure implies error monitor.', groups=events(['C06']) + [dict(id='c08', file='c08.cpp', codes=['C06'], time=60)]),
    'C07': dict(explain=ENGINE + '. Rules: every error lies in its production and its range runs forward (all generic witnesses); for every class of inputs up to the bound the first error has the documented kind, position, range and literal index (reference in witness/c07.cpp).', groups=events(['C07']) + own('c07', 'C07') + [dict(id='c11u', file='c11u.cpp', codes=['C07'], time=30)]),
    'C19': dict(explain=ENGINE + '. Rule: sink typestate monitor.', groups=events(['C19']) + own('c19', 'C19')),
    'C09': dict(explain=ENGINE + '. Rule: on every class of code unit sequences the decoder, code point rules and encoder agree with a table-free reference decoder written from the Unicode definition.', groups=own('c09', 'C09')),
    'C10': dict(explain=ENGINE + '. Rule: for every digit string up to the bound (longer than any value of the type) the value or overflow equals a wide-integer reference.', groups=own('c10', 'C10')),
    'C05': dict(explain=ENGINE + '. Rule: probe rules choose nondeterministically whether they match, fail and produce; after every attempt the replayed documented branch semantics must give the same position, events and values; every leaf condition is taken exactly when the rule matches on its own and otherwise leaves position, errors, tokens and context as they were.', groups=[dict(id='nd1', file='nd1.cpp', codes=['C05'], time=30)] + own('c05', 'C05')),
    'C11': dict(explain=ENGINE + '. Rule: acceptance and end position equal a set-membership reference for every class of inputs up to the bound.', groups=own('c11', 'C11') + own('c11u', 'C11')),
    'C12': dict(explain=ENGINE + '. Rule: acceptance, end position and error count equal a hand-written reference of the documented language for every class of inputs up to the bound.', groups=own('c12', 'C12')),
    'C08': dict(explain=ENGINE + '. Rule: for every class of inputs up to the bound, match, validate, parse and parse_as_tree agree with the bare parse on success, recovery, number of errors and first error.', groups=own('c08', 'C08')),
    'C13': dict(explain=ENGINE + '. Rule: grammars that fail, recover and leave rules in every way; acceptance, errors and position afterwards equal a reference in which context flags, counters, identifiers, whitespace skipping and depth are scoped.', groups=own('c13', 'C13')),
    'C14': dict(explain=ENGINE + '. Rule: for limits 1 to 3, every way of recursing and every input up to a length beyond the limit, acceptance equals a reference that counts nesting.', groups=own('c14', 'C14')),
    'C20': dict(explain=ENGINE + '. Rule: for every token kind and combinator, acceptance and end position equal a reference that skips whitespace exactly after tokens.', groups=own('c20', 'C20')),
    'C22': dict(explain=ENGINE + '. Rule: for every byte content the produced value and position equal the declared layout, as linear forms over the input bits.', groups=own('c22', 'C22')),
    'C23': dict(explain=ENGINE + '. Rule: for every class of inputs up to the bound and every pair of positions, line, column, anchor and line annotation equal a reference that counts from the start.', groups=own('c23', 'C23')),
    'C24': dict(explain=ENGINE + '. Rule: for every run of code points on which Unicode 15.0 gives one answer, the lookup gives that answer (category, groups, simple folding) and every dsl::unicode class matches exactly its set; reference runs in witness/ucd.hpp.', groups=own('c24', 'C24')),
    'C16': dict(explain=ENGINE + '. Rule: for every size up to the bound, arbitrary contents and every way to construct, copy, move, assign, release, adopt, decode or grow, the buffer holds the given units and the end marker and the allocation ledger of the memory resource balances (size, alignment, owner, once).', groups=own('c16', 'C16') + own('c16g', 'C16')),
    'C15': dict(explain=ENGINE + '. Rules: every builder history up to the bound, with node sizes that put a block boundary after every node, gives the tree that plain lists give (size, depth, children, parents, siblings, ranges, traversal) and a balanced allocation ledger; parse_as_tree builds what the events of an independent handler describe, for every class of inputs up to the bound.', groups=own('c15', 'C15', extra=['no-progress']) + own('c15t', 'C15', extra=['no-progress'])),
    'C17': dict(explain=ENGINE + '. Rule: src/input/file.cpp is analysed with every system and stdio call replaced by a model that may fail or fall short; on every path the contents are delivered completely and once or an error is returned, and descriptors, mappings and memory are released.', groups=own('c17', 'C17') + own('c17p', 'C17')),
    'C21': dict(explain=ENGINE + '. Rule: for every sequence of operands and operators up to the bound, the callback calls (operands, operators, order), the operation nodes, the errors (kind, position) and the result equal those of an operator precedence reference with an explicit stack, for every kind of operation, groups, subexpressions, operators with operands of their own, whitespace and the nesting limit; operator tags carry what is documented.', groups=own('c21', 'C21')),
    'C25': dict(explain=ENGINE + '. Rule: for every sequence of calls up to the bound, with arguments the analysis cannot tell apart from any other, the result of the callback or sink is made of exactly those arguments.', groups=own('c25', 'C25')),
    'C26': dict(explain=ENGINE + '. Rule: for every content up to the bound and every sequence of reading, saving and resetting, the reader delivers the units of the text and then the end; the shell is analysed with every way of splitting the text into lines and reads.', groups=own('c26', 'C26') + own('c26t', 'C26') + own('c26s', 'C26') + own('c26p', 'C26')),
    'C27': dict(explain=ENGINE + '. Rule: for every sequence of scanner operations and every class of inputs up to the bound, state, position, values, errors and final outcome equal those of a model that parses the same rules.', groups=own('c27', 'C27')),
    'C28': dict(explain=ENGINE + '. Rule: for every code point, every class of code unit sequences up to the bound, every tree of up to the bound of nodes and every combination of options, what is written is what a reference writes that goes through the characters and nodes once, in order (numbers are compared as values).', groups=own('c28', 'C28') + own('c28t', 'C28')),
    'C29': dict(explain=ENGINE + '. Rule: for every class of inputs up to the bound, the trace equals the one a reference writes from the events of the parse, and the report of each error equals the one a reference writes from the error, with line and column counted from the start of the input.', groups=own('c29', 'C29')),
    'C18': dict(explain=effects.__doc__, script=effects.run, groups=[]),
}
