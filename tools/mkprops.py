#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property catalogue is kept here, one entry per property)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=state or [],observe_at=observe or [],hook_needed=None)))

D="include/lexy/dsl/"
prop("C01","No input makes parsing leave the bounds of the input",
 "Whatever the input contains and wherever it ends, parsing with any rule never reads a code unit at or after the end of the input, never moves the read position past the end, and never trips one of the library's own assertions. On buffers that carry a sentinel, reads stay inside the buffer's allocation.",
 ["inputs","programs"],"all inputs of any length and content, for every rule of the DSL and every encoding",
 "The tests sample a few dozen strings per rule; an over-read needs an input that ends at one particular point of one particular rule, and even then usually goes unnoticed without a sanitizer.",
 ["include/lexy/input/base.hpp","include/lexy/input/buffer.hpp",D,"include/lexy/_detail/swar.hpp"],
 [("every advance is preceded by a non-EOF peek at the same position","all token parsers"),("sentinel plus padding","include/lexy/input/buffer.hpp allocate()")])
prop("C02","Parsing terminates: every loop iteration consumes input or ends the loop",
 "For a grammar whose repeated rules cannot match the empty string, parsing any finite input finishes: no repetition, recovery, whitespace-skipping or search loop can go round again at the same input position in the same state.",
 ["inputs","programs"],"all inputs, all looping rules",
 "Non-termination shows only on the one input that reaches the stuck state; a test for it would hang.",
 [D+"loop.hpp",D+"list.hpp",D+"recover.hpp",D+"until.hpp",D+"delimited.hpp",D+"whitespace.hpp",D+"scan.hpp"],
 [("bump or token match in each iteration","loop bodies")])
prop("C03","Parse events are properly nested and end with the right outcome",
 "A parse action sees a well-bracketed event stream for every input: each production start is closed by exactly one finish or cancel of that production in last-in-first-out order, operation chains and recoveries are closed inside the production that opened them, and the grammar ends with exactly one finish (on success) or cancel (on failure) and nothing after it.",
 ["inputs","programs"],"all inputs and all event histories they cause, including every failure and recovery path",
 "Tests compare traces of a few inputs; each rule has many failure exits and each exit must emit its own closing events.",
 ["include/lexy/action/base.hpp",D+"production.hpp",D+"expression.hpp",D+"recover.hpp",D+"list.hpp"],
 [("start/finish/cancel pairing around each production","_prd, _do_action"),("recovery_start/finish/cancel pairing","recover.hpp, list.hpp")])
prop("C04","Token events tile the consumed input without gaps or overlaps",
 "The tokens reported to a parse action, taken in order and ignoring those undone by a cancelled production, cover exactly the input between the start of the parse and its final position: each token begins where the previous one ended and no token ends before it begins. This is what makes parse trees lossless.",
 ["inputs","programs"],"all inputs, on success, on failure and after recovery",
 "Losing or repeating a slice of input needs a particular partial match or recovery path; tests check a few trees.",
 [D+"token.hpp",D+"whitespace.hpp",D+"recover.hpp",D+"identifier.hpp",D+"delimited.hpp",D+"integer.hpp",D+"literal.hpp","include/lexy/action/parse_as_tree.hpp"],
 [("token event emitted for every reader movement","each rule's parse/finish")])
prop("C05","A branch that is not taken leaves no trace",
 "When a branch condition does not match, the alternative tried next starts at the same input position with the same parse context, and the attempt has reported no errors, produced no values and left no tokens; the first alternative whose condition matches is the one taken, without later backtracking.",
 ["inputs","programs"],"all inputs and all combinations of branch rules under choice, option, loop, list and lookahead",
 "The condition may fail after any number of matched code units; tests try one or two prefixes.",
 [D+"choice.hpp",D+"branch.hpp",D+"option.hpp",D+"loop.hpp",D+"peek.hpp",D+"lookahead.hpp",D+"literal.hpp",D+"identifier.hpp",D+"context_counter.hpp"],
 [("try_parse works on a copy of the reader","branch parsers"),("cancel reports backtracking only","branch parsers")])
prop("C06","Failure is reported exactly when an error occurred",
 "A parse whose result says failure has passed at least one error to the error callback, a parse without any error is a success, and a parse that reported errors but reached the end of the grammar is a recovered result, never a clean success. A value is produced whenever the result is success or recovered, and never otherwise.",
 ["inputs","programs"],"all inputs, every failure and recovery path of every rule",
 "A silent failure or a masked error needs one particular exit path of one rule.",
 ["include/lexy/action/parse.hpp","include/lexy/action/validate.hpp","include/lexy/action/base.hpp",D+"error.hpp"],
 [("every `return false` is preceded by an error event","all rules"),("result status from rule result and error count","validate_result")])
prop("C07","Errors point into the input that was looked at",
 "Every reported error carries a position inside the input that was parsed, not before the start of the production it is attributed to and not after the furthest code unit examined; where it carries a range, the range does not run backwards; an expected-literal error says the index of the first code unit that differs.",
 ["inputs","programs"],"all inputs, every error path",
 "Tests check positions for a handful of malformed inputs; every partial-match length is its own case.",
 ["include/lexy/error.hpp",D+"literal.hpp",D+"token.hpp",D+"identifier.hpp",D+"delimited.hpp",D+"error.hpp"],
 [("error constructed from reader position and token end","report_error functions")])
prop("C08","The outcome does not depend on which action runs the grammar",
 "For a given grammar and input, matching, validating, parsing and building a parse tree agree on success or failure and on the number of errors, because the parse itself never depends on who is listening.",
 ["inputs","programs"],"all inputs for the same grammar under every action",
 "The tests run each rule mostly under a single test action.",
 ["include/lexy/action/match.hpp","include/lexy/action/validate.hpp","include/lexy/action/parse.hpp","include/lexy/action/parse_as_tree.hpp"],
 [("handler only observes events","_pc::on")])
prop("C09","Code points are decoded and encoded exactly as Unicode defines",
 "In each Unicode encoding the decoder accepts exactly the well-formed code unit sequences, yields for each the scalar value it encodes, rejects overlong, surrogate, truncated and out-of-range sequences, and consumes the right number of units; encoding a code point yields the sequence that decodes to it.",
 ["inputs"],"all sequences of code units in ASCII, UTF-8, UTF-16 and UTF-32",
 "There are 2^32 four-byte sequences; tests try a few per class.",
 ["include/lexy/_detail/code_point.hpp",D+"code_point.hpp","include/lexy/code_point.hpp","include/lexy/callback/string.hpp"],
 [("parse_code_point / encode_code_point","include/lexy/_detail/code_point.hpp")])
prop("C10","Integers are converted exactly or reported as overflow",
 "Parsing an integer yields the mathematical value of the digits read whenever that value fits the requested type and bound, in every supported radix, and otherwise reports an overflow error; it never wraps, and digit separators and leading zeros do not change the value.",
 ["inputs","configurations"],"all digit strings, all integer types, bounds and radices",
 "Overflow boundaries differ for each type and radix and digit strings are unbounded.",
 [D+"integer.hpp",D+"digit.hpp",D+"sign.hpp"],
 [("overflow check before each digit is appended","integer parsers")])
prop("C11","Literals, character classes and their combinations match exactly their set",
 "A literal matches exactly its code units, a character class matches exactly the documented set of characters in every encoding and through union, complement, intersection and difference, a literal set or symbol table picks the longest listed string and its value, and case folding accepts exactly the case variants.",
 ["inputs","configurations"],"all code units at every position, in each encoding, on plain and sentinel-terminated inputs",
 "A class has 128 members per encoding and tests sample members; longest-match errors need overlapping entries and a specific following character.",
 [D+"literal.hpp",D+"ascii.hpp",D+"char_class.hpp",D+"symbol.hpp",D+"case_folding.hpp","include/lexy/_detail/swar.hpp"],
 [("literal trie","literal.hpp"),("ascii table per class","char_class.hpp")])
prop("C12","Compound rules accept exactly the documented language",
 "Identifiers, keywords, delimited and quoted text, search-until rules, lists with their separator policies, repetition counts, digits with separators, newline and end-of-line rules accept exactly the strings their documentation describes and stop at the documented position, for every input.",
 ["inputs","programs"],"all inputs of any length",
 "The accepted language is infinite; tests sample it.",
 [D+"identifier.hpp",D+"delimited.hpp",D+"until.hpp",D+"list.hpp",D+"repeat.hpp",D+"times.hpp",D+"digit.hpp",D+"newline.hpp",D+"eof.hpp",D+"separator.hpp"],
 [("each rule's matching loop","dsl")])
prop("C13","Parse-context state is scoped: it is restored on every exit",
 "Context counters, flags and identifiers live exactly as long as the production that created them, whitespace skipping that a rule switched off is on again after the rule, and the nesting level counted against the recursion limit returns to its old value once the recursive production is left, whether it succeeded, failed or was recovered from.",
 ["inputs","histories"],"all inputs and all success, failure and recovery histories",
 "Needs a failure inside the scope followed by recovery and further parsing that depends on the stale state.",
 ["include/lexy/action/base.hpp",D+"context_counter.hpp",D+"context_flag.hpp",D+"context_identifier.hpp",D+"whitespace.hpp",D+"production.hpp"],
 [("link/unlink around continuation","context_*.hpp"),("flag and depth reset in continuation","whitespace.hpp, production.hpp")])
prop("C14","Recursion never exceeds the declared limit",
 "A grammar that declares a maximum recursion depth is never nested deeper than that: the first nesting beyond it yields a depth error instead of another level, expression nesting included, and no nesting within the limit is refused.",
 ["inputs"],"all inputs, however deeply nested",
 "Tests check one limit with one input.",
 [D+"production.hpp",D+"expression.hpp","include/lexy/grammar.hpp"],
 [("depth counter in the control block","_recb, expression.hpp")])
prop("C15","Parse trees are structurally consistent and own their memory",
 "Whatever sequence of productions, tokens, operation containers and cancellations builds a tree, its reported size, depth, child counts, parent and sibling links agree with what was inserted, and every block of memory it takes is within bounds and returned exactly once with the size it was requested with.",
 ["histories","inputs"],"all builder histories, including cancellation and block boundaries",
 "Block boundaries fall every 4 KiB; tests build tiny trees.",
 ["include/lexy/parse_tree.hpp","include/lexy/action/parse_as_tree.hpp"],
 [("reserve before allocate","pt_buffer"),("marker bookkeeping","parse_tree::builder")])
prop("C16","Buffers hold exactly the given input and release exactly their memory",
 "A buffer made from a range, a raw byte sequence with any endianness or byte order mark, a builder, a copy, a move or an assignment holds exactly the intended code units followed by the end marker where the encoding has one, keeps to its memory resource, and gives back each allocation once with the same size and alignment.",
 ["inputs","histories"],"all sizes, contents and sequences of construct, copy, move, assign, release",
 "Sizes around the padding boundary and differing memory resources are not sampled.",
 ["include/lexy/input/buffer.hpp","include/lexy/_detail/memory_resource.hpp","include/lexy/_detail/buffer_builder.hpp"],
 [("allocate/deallocate size formula","buffer")])
prop("C17","Reading files delivers the whole file or an error, and leaks nothing",
 "Reading a file or standard input either passes the complete contents to the caller exactly once and reports success, or reports an error and passes nothing; every descriptor opened and every mapping made is released on every path, whatever system call fails.",
 ["fault_sequences","inputs"],"every failure point of every system call, all sizes",
 "Tests do not inject system call failures.",
 ["src/input/file.cpp","include/lexy/input/file.hpp"],
 [("RAII descriptor","src/input/file.cpp"),("size check after read","src/input/file.cpp")])
prop("C18","Parsing does not allocate, throw or touch shared mutable state",
 "Matching, validating or parsing with caller-provided callbacks performs no heap allocation, raises no exception, does no I/O and reads or writes no mutable global state, so it is usable without a heap and safe from several threads at once; trees and buffers get memory only from their memory resource.",
 ["programs","schedules"],"all grammars and inputs, all interleavings of independent parses",
 "An allocation or a static cache is invisible to functional tests.",
 ["include/lexy/dsl","include/lexy/action","include/lexy/_detail"],
 [("no state outside the control block","whole library")])
prop("C19","Produced values arrive in order, once, and sinks are finished once",
 "The values a rule produces reach the production's callback in the order they appear in the grammar, each exactly once; a list's sink receives the items in input order, is finished exactly once when the list succeeds and is not used afterwards.",
 ["inputs","programs"],"all inputs, including recovered ones",
 "Tests check small fixed examples.",
 [D+"list.hpp",D+"base.hpp",D+"sequence.hpp",D+"combination.hpp",D+"repeat.hpp","include/lexy/action/base.hpp"],
 [("argument forwarding in continuation-passing parsers","dsl"),("sink_finish_parser","dsl/base.hpp")])
prop("C20","Automatic whitespace is skipped after every token and nowhere else",
 "With a whitespace rule in effect, whitespace is skipped at the start of the grammar and after every token of productions that are not tokens themselves, and is never skipped inside a token production or a no-whitespace rule; a failed branch does not consume whitespace.",
 ["inputs","programs"],"all inputs with whitespace in any position",
 "Whitespace could appear at every token boundary; tests sample some.",
 [D+"whitespace.hpp",D+"token.hpp",D+"production.hpp","include/lexy/action/base.hpp"],
 [("whitespace_parser continuation","dsl/base.hpp")])
prop("C21","Operator expressions group by precedence and associativity",
 "An expression production applies its operators exactly as the declared precedence levels, associativity and operator kinds demand, for every sequence of operands and operators, and reports an error for operators that must not be chained or mixed.",
 ["inputs"],"all operator sequences",
 "The number of operator sequences is unbounded; tests try short ones.",
 [D+"expression.hpp",D+"operator.hpp"],
 [("binding power comparison","expression.hpp")])
prop("C22","Binary rules assemble bytes and bits in the declared order",
 "Byte, fixed-width integer and bit-field rules consume exactly their declared number of bytes and produce the value given by the declared endianness and bit order, for every byte content.",
 ["inputs"],"all byte contents",
 "2^64 contents; tests try a few constants.",
 [D+"byte.hpp",D+"bits.hpp"],
 [("bint conversion","byte.hpp"),("bit field extraction","bits.hpp")])
prop("C23","Input locations count lines and columns correctly",
 "The line and column computed for a position are those obtained by counting the newlines and the code units, code points or bytes before it, and computing from an earlier location as a starting point gives the same result as computing from the beginning.",
 ["inputs"],"all inputs and positions",
 "Tests use one small text.",
 ["include/lexy/input_location.hpp"],
 [("line/column counting loop","get_input_location")])
prop("C24","The Unicode database answers as the Unicode standard says",
 "For every code point, general category, core properties and simple case folding answered by the library equal those of Unicode 15.0, and the lookup never leaves its tables.",
 ["inputs"],"all 1114112 code points",
 "Tests look up a handful of code points.",
 ["include/lexy/_detail/unicode_database.hpp","include/lexy/code_point.hpp",D+"unicode.hpp"],
 [("two-level table","unicode_database.hpp")])
prop("C25","Callbacks and sinks build exactly the values they are given",
 "The provided callbacks and sinks (as_list, as_collection, concat, collect, fold, count, as_string with or without encoding and case folding, as_integer, construct, as_aggregate, bind, bind_sink, composition) return a value made of exactly the arguments they were given, in order, each used once, for every sequence of calls.",
 ["inputs"],"all sequences of calls and all argument values",
 "Sequences of calls and argument values are unbounded; tests use a few constants.",
 ["include/lexy/callback/"],
 [("sink callbacks","callback/*.hpp"),("bound argument forwarding","callback/bind.hpp")])
prop("C26","Input adaptors present exactly the underlying text, then the end",
 "Every input and its reader (string, NUL-terminated, range, lexeme, argv, buffer, parse tree, interactive shell) presents the code units of the text it was made from, in order, each once, and then the end for ever; resetting to a marker re-reads the same units, and nothing outside the text is read.",
 ["inputs"],"all contents, split over lines, arguments or nodes in every way",
 "Contents and splits are unbounded; tests use one or two strings per input.",
 ["include/lexy/input/","include/lexy_ext/shell.hpp","include/lexy/_detail/buffer_builder.hpp"],
 [("reader peek/bump/reset","input/*.hpp"),("reading further lines on demand","lexy_ext/shell.hpp append_next_line")])
prop("C27","Manual scanning behaves like the rules it drives",
 "A scanner (lexy::scan, dsl::scan) parses exactly the rules it is told to: after every sequence of parse, branch, peek, capture, integer, discard, error and recovery operations its state (ok, failed, recovering), position, values and reported errors are those the rules have on that input; a failed scanner does nothing until it recovers, and the outcome tells success, recovered and fatal errors apart.",
 ["inputs","programs"],"all sequences of scanner operations and all inputs",
 "Sequences of operations are unbounded; tests run a few fixed ones.",
 [D+"scan.hpp","include/lexy/action/scan.hpp"],
 [("scanner state","dsl/scan.hpp _detail::scanner"),("handing the position back to the grammar","dsl/scan.hpp _scan")])
prop("C28","Visualization shows everything once, escaped and within the limits",
 "visualize_to writes every character of a lexeme exactly once and in order: printable ASCII as it is, everything else in the escaped form of its code point or, where the text is not well-formed, of its code units, so that nothing unprintable (nor an escape sequence when colour is off) reaches the output, nothing is dropped and distinct texts stay distinct; a tree is written as every node once, in order, below its parent, with its name and lexeme; the limits on lexeme width and tree depth cut exactly at the limit and say so; visualization_display_width is the number of columns written. This holds for every code point, every content in every encoding and every combination of options.",
 ["inputs"],"all code points, contents, trees and options",
 "Contents, trees and combinations of options are unbounded; tests show a few of each.",
 ["include/lexy/visualize.hpp"],
 [("code points","visualize.hpp visualize_to(code_point)"),("lexemes by encoding","visualize.hpp visualize_to(lexeme)"),("trees","visualize.hpp visualize_to(Tree)")])
prop("C29","Traces and error reports tell what happened, where it happened",
 "lexy::trace writes one entry for every event of the parse, in order, nested as the productions, operations and recoveries are, each with the line and column at which it happened, the name of the production, token kind (also of the user) or operation and the text of tokens and errors, cut only at max_tree_depth. lexy_ext::report_error writes one message per error, with the production, the line number, the text of that line, a marker under exactly the characters of the error (at least one), the line where the production began if it is another one, and returns the number of errors.",
 ["inputs"],"all inputs and all grammars",
 "Positions, nesting and line breaks are unbounded; the tests compare a few fixed outputs.",
 ["include/lexy/action/trace.hpp","include/lexy_ext/report_error.hpp"],
 [("events to lines","action/trace.hpp _th::event_handler"),("layout of an annotation","lexy_ext/report_error.hpp diagnostic_writer")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
