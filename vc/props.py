"""what each check uses: contract files, how the replay driver is built, and the words of the manifest"""
PARSE = ['parse.ct', 'history.ct', 'unicode.ct', 'buffer.ct', 'object.ct']
PROPS = {
 'C01': dict(ct=PARSE, valuecls=['Params', 'StreamConsumer'], rlimit=100,
   rule='random valid documents (all value kinds, escapes, numbers, nesting, white space) parsed by the real parser and compared with a reference reading; distinct texts are counted',
   note='The whole parser (tokens, arrays, objects, the root) is proved, for every text and settings, to return the value a grammar of the text gives, with as many warnings as the grammar counts.'),
 'C02': dict(ct=PARSE, valuecls=['Params', 'StreamConsumer'], rlimit=100,
   rule='random texts made wrong in many ways, in strict and lenient mode, parsed by the real parser and compared with a reference reading; distinct texts are counted',
   note='The whole parser is proved, for every text and settings, to end, to refuse with a JSON error exactly the texts the grammar refuses, to let no other exception out and to touch nothing outside its buffers.'),
 'C03': dict(ct=['print.ct'] + PARSE, valuecls=['Params', 'SimpleOutput', 'StreamConsumer'], rlimit=100,
   rule='random documents, sorted or not, printed in both forms by the real printer, checked by an independent RFC 8259 recogniser, parsed again by the real parser and printed again; distinct documents are counted',
   note='The printer is proved to write, for every document, exactly a text defined from its values; the parser is proved to read every text as a grammar says; a lemma by induction on the document joins the two: the text reads back as the same value, the two forms differ only in white space outside strings, and the tokens are those of RFC 8259 when the document was read strictly.',
   assumptions=['A finite double printed with %f (or %.17g when %f is not exact) is a number with a point or an exponent and reads back as the same double (C locale): axiom ax_dbl_show', 'Documents read leniently that hold an unknown escape of a control character, or (unicode ignored) a raw control character, are outside the round trip; so are locales with a decimal comma']),
 'C04': dict(ct=PARSE, valuecls=['Params', 'StreamConsumer'], rlimit=100, rule='random documents with many keys, sorted or not, compared with a reference order of members; distinct documents are counted',
   note='Insertion in key order (sorted) or at the end (unsorted), lookup and removal of members are proved for every object, and the parser is proved to build objects with different keys, in ascending order when sorted, for every text.'),
 'C08': dict(ct=PARSE + ['nav.ct'], valuecls=['Params', 'StreamConsumer'], rlimit=100, stubs=['curses_stub.cpp'], libs=[], flags=['-fno-sanitize=vptr,bool'],
   rule='random documents whose links (parent, children, neighbours, depth) are compared with the text they come from; distinct documents are counted',
   note='The parser is proved to build trees without sharing whose links agree, for every text; depth, first child, next and previous neighbour are proved for every such document.'),
 'C06': dict(ct=['buffer.ct'], sources=[], libs=[], rule='random operation sequences on buffers of capacities 1..50, compared with a deque; each announced history is counted once',
   note='Every function of WrappedBuffer (any capacity >= 1, any history) is proved against a sequence model; nothing bounded.'),
 'C05': dict(ct=PARSE, valuecls=['Params', 'StreamConsumer'], rlimit=100, rule='random histories of the line history, and random texts whose refusal is compared with the text consumed so far; distinct histories/texts are counted',
   note='LinearHistory is proved against the consumed text for all histories, and every function of the parser is proved to feed it exactly the characters it consumes, so that each refusal carries the history of the text consumed.'),
 'C15': dict(ct=['layout.ct', 'view.ct', 'nav.ct', 'browse.ct', 'search.ct', 'tree.ct', 'hits.ct', 'eqv.ct', 'split.ct', 'diffview.ct', 'cdiff.ct', 'session.ct'], valuecls=['SearchPattern'], rlimit=100, smoke_rlimit=10, stubs=['curses_stub.cpp'], libs=[], flags=['-fno-sanitize=vptr,bool'],
   rule='random documents browsed with random keys through the real views (a recording curses), checking the selection after each key; distinct key histories are counted',
   note='Both views are proved over whole sessions, for every document (every pair of documents) and every sequence of keys: opening (run), drawing (redraw and all it calls), reading and dispatching keys (loop, readInput, evalKey), every move, folding, searching and switching windows. Whenever a key is read the selection is a displayed element and up and down lead to its displayed neighbours, and what the page keys, left, right and the window keys do is proved key by key; in the diff view both windows show their selection, the other one the counterpart, and pairs are folded together. What the terminal shows beyond that and resizing are bounded (driver).',
   bounded=['InputSequence::read, onsig: explored by the driver or not at all'],
   assumptions=['The value read through Optional<bool>::empty is the one _empty() gives', 'Diff view: texts are narrower than 2^28 cells and containers hold fewer than 2^31-1 elements', 'Plain view: the rows of the document can be counted in 31 bits however it is folded', 'The terminal is wide enough: one column for the plain view, more than two per window for the diff view', 'Keys are read one at a time; signals do not interrupt a handler', 'The loop calling redraw() until it succeeds is not shown to end']),
 'C11': dict(ct=['search.ct', 'tree.ct', 'unicode.ct', 'typed.ct'], valuecls=['SearchPattern'], libs=[], stubs=['curses_stub.cpp'], flags=['-fno-sanitize=vptr,bool'],
   assume={'StreamConsumer::extractUnicode': 'C07'},
   rule='random patterns (plain, case insensitive, whole word, regex with flags) and texts, matched by the real SearchPattern and compared with a reference; some typed key by key; distinct pattern/text pairs are counted',
   note='Typing (inputSearch: every sequence of keys, the erase keys, giving up, escapes), splitting of the typed text into pattern and flags, and matching of plain, whole-word and case-insensitive patterns, are proved for all texts; std::regex itself is taken as the meaning of a regular expression.'),
 'C17': dict(ct=['layout.ct', 'view.ct', 'nav.ct', 'browse.ct', 'search.ct', 'tree.ct', 'hits.ct', 'eqv.ct', 'split.ct', 'diffview.ct'], valuecls=['SearchPattern'], rlimit=100, stubs=['curses_stub.cpp'], libs=[], flags=['-fno-sanitize=vptr,bool'],
   rule='random texts, widths and positions through the real getNbLines, lazystrlen and both views (a recording curses), compared with a reference count; distinct cases are counted',
   note='getNbLines, the displayed width and the running position through the whole of the plain view, and the rows and positions written by the diff view (write, writeKey, writeContainer) are proved for every text, document and screen width. That the diff view advances no further than what it wrote over a whole screen is bounded (driver).',
   bounded=['CurseSplitOutput::redraw as to rows: explored by the driver']),
 'C10': dict(ct=['eqv.ct', 'matrix.ct', 'lev.ct', 'cdiff.ct'], stubs=['curses_stub.cpp'], libs=[], flags=['-fno-sanitize=vptr,bool'],
   rule='random pairs of documents (equal, altered, unrelated, wide ones around the counter widths) compared by the real comparison, and shown by the diff view (a recording curses), checking pairs and marks against the two documents; distinct pairs are counted',
   note='The whole comparison (Builder::build, LevenshteinMatrice::build<T> for the three counters, the way back through the table, clean-up, marks and pairs) is proved for every pair of documents; the diff view is proved to start it on the two roots (computeDiff) and to keep what it gives. What is drawn of the marks (each line with its mark on its own row, scrolled or not) is bounded (driver).',
   bounded=['diff marks drawn (displayDiffOp): explored by the driver'],
   assumptions=['Single precision arithmetic: 0/k is 0 and 1-0 is 1, 0.7 lies between 0 and 1, < is asymmetric (axioms ax_ratio, ax_ones, ax_lt)', 'Iterating over a std::map visits each of its entries (axiom ax_map_seq)', 'The two documents share no element and each is a tree (what the parser is proved to build); texts are shorter than 2^30, containers than 2^31', 'delete removes the object it is given and nothing else of the comparison']),
 'C16': dict(ct=['small.ct', 'fifo.ct'], rule='random operation sequences on fifoMap and Optional values, and output flags of random elements, compared with reference models; distinct sequences are counted',
   note='fifoMap, Optional and OutputFlag are proved for all inputs; nothing bounded.'),
 'C07': dict(ct=PARSE, valuecls=['Params', 'StreamConsumer'], rlimit=100, rule='every code unit, random surrogate pairs and random escaped strings, parsed by the real parser and compared with a reference decoder; distinct texts are counted',
   note='Decoding of the four digits, surrogate pairing, the UTF-8 bytes appended and the escapes read by the parser are proved for all inputs.'),
 'C09': dict(ct=['lev.ct', 'eqv.ct', 'matrix.ct'], rule='random pairs of strings and of containers compared with a reference edit distance; distinct pairs are counted',
   note='The string distance is proved to be the least number of edits for all pairs of texts, and that of containers to be the value of the edit recurrence over their elements, for all pairs of documents and each counter width; nothing bounded.',
   assumptions=['Single precision arithmetic: axioms ax_ratio, ax_ones, ax_lt', 'Texts are shorter than 2^30, containers than 2^31']),
 'C13': dict(ct=['fifo.ct', 'params.ct'], valuecls=['Params'], rlimit=100, libs=[], stubs=['curses_stub.cpp'], flags=['-fno-sanitize=vptr,bool'],
   rule='random command lines compared with an independent reading of the help; distinct command lines are counted',
   note='The whole of option parsing (constructor, read, getInputs, getters) is proved against a word by word reading of the help, for all argument vectors; nothing bounded. What main does with the settings is outside the contract.'),
 'C14': dict(ct=['program.ct', 'diffcmd.ct', 'print.ct', 'fifo.ct'] + PARSE, valuecls=['Params', 'StreamConsumer', 'SimpleOutput', 'DiffCmd'], rlimit=100, libs=[], stubs=['curses_stub.cpp'], flags=['-fno-sanitize=vptr,bool'],
   assume={'^StreamConsumer::|^LinearHistory::|^WrappedBuffer|^JSon': 'C01, C02, C04, C05, C06 and C08', '^SimpleOutput::': 'C03', '^fifoMap|^IndexedDeque': 'C16'},
   rule='random command templates and documents run through the real external diff with a recording command; distinct runs are counted',
   note='The whole path is proved for every list of inputs and every command: each input read, printed into a new file of its own (runExternalDiff, doRunExternalDiff, getOutputFile), the words given to execvp (computeArgv) and the removal of exactly those files afterwards; the parser and the printer enter by the contracts other checks prove. That the tool is in fact started and waited for is bounded (driver).', bounded=['what fork, execvp and waitpid do: explored by the driver'],
   assumptions=['The streams of two inputs are different and nothing was read from them before', 'A file whose ofstream is destroyed holds what was written to it', 'The loop calling waitpid is not shown to end', 'The command of --diff-cmd has fewer than 2^31 words once expanded, none of which holds a NUL']),
 'C18': dict(ct=['program.ct', 'diffcmd.ct', 'print.ct', 'fifo.ct'] + PARSE, valuecls=['Params', 'StreamConsumer', 'SimpleOutput', 'DiffCmd'], rlimit=100, libs=[], stubs=['curses_stub.cpp'], flags=['-fno-sanitize=vptr,bool'],
   assume={'^StreamConsumer::|^LinearHistory::|^WrappedBuffer|^JSon': 'C01, C02, C04, C05, C06 and C08', '^SimpleOutput::': 'C03', '^fifoMap|^IndexedDeque': 'C16'},
   rule='random lists of files (or standard input) and options run through the real main, standard output and error compared with the inputs printed one by one; distinct command lines are counted',
   note='readOneFile, readFile, displayException and runStdout are proved for every list of inputs and every setting: what is printed is the printed form of each input in order up to the first one refused, a refusal is always reported, every warning is kept with the name of its input and nothing is reported otherwise. The parser and the printer enter by the contracts other checks prove. main itself (which of the modes is entered) is bounded (driver).', bounded=['main: explored by the driver'],
   assumptions=['The streams of two inputs are different and nothing was read from them before']),
 'C12': dict(ct=['layout.ct', 'view.ct', 'nav.ct', 'browse.ct', 'search.ct', 'tree.ct', 'hits.ct', 'eqv.ct', 'split.ct', 'diffview.ct', 'cdiff.ct', 'session.ct'], valuecls=['SearchPattern'], stubs=['curses_stub.cpp'], libs=[], flags=['-fno-sanitize=vptr,bool'],
   rule='random documents searched and walked through with the real views (a recording curses), compared with a reference list of hits; distinct searches are counted',
   note='search, initSearch, jumpToNextSearch, nextResult and unfold of both views are proved for every document: the list is exactly the hits in document order, the next hit is the first after the selection, wrapping to the first; with C15 the hit is displayed. What pattern the keys typed make (inputSearch) is proved under C11.'),
}
