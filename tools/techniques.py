tech('C01', 'dataflow: failed steps tracked to the result of every function (path-sensitive abstract interpretation of LLVM IR with summaries)',
     'Every path class of every library function; screen output and the documented cb_retval channel of evaluation are outside the property.')
tech('C03', 'dataflow: null results of allocations followed through the LLVM IR (path-sensitive abstract interpretation with function summaries)',
     'Sound for the modelled paths up to the listed assumptions (argument regions assumed disjoint; histories joined after 2500 visits).')
tech('C04', 'ownership dataflow over LLVM IR with function summaries',
     'Every path of every library function; blocks stored in reachable memory are considered owned there; elements of variable-length arrays are not told apart.')
tech('C05', 'typestate analysis of heap blocks over LLVM IR with function summaries',
     'Every path of every library function; dangling references are judged at return from public functions.')
tech('C14', 'interval and relation analysis of every index computation on function-specialised abstract states over LLVM IR',
     'The accessors that take an index into a vector; the first fill of a vector being built is listed as not decided where the count is not yet known.')
tech('C15', 'get-after-set dataflow: the value stored on every successful path of a setter is followed into its getter; store footprints by effect analysis',
     'All setter/getter pairs found by name and type; three setters that do more than store an attribute are listed as not decided.')
tech('C16', 'null-object specialisation of every accessor (abstract interpretation with the object argument fixed to null)',
     'All accessors of variables, vectors, parse-trees, match results and lists that the library guards or documents as tolerating no object.')
tech('C17', 'alias-specialised typestate: each string setter analysed with its argument aliasing the stored string',
     'All string setters found through their getters.')
tech('C08', 'interval and relation analysis of the literal parsers, specialised per type and limit configuration, over LLVM IR with a contract for strtol/strtoul',
     'All integer widths and signs, mask lengths and decimal64 digits; the digit string of a decimal64 itself is not followed.')
tech('C09', 'abstract interpretation of the interval tests on symbolic bounds and values, one per type and number of intervals, and of the code that builds them',
     'Every type with limits, with none, one and two intervals; the loop over intervals is checked for its first two rounds and its step.')
tech('C10', 'abstract interpretation of the comparisons with symbolic operands: the sign of the result against the relation decided on the path',
     'Equal fraction digits are assumed for decimal64; strings are ordered by strcmp.')
tech('C11', 'path-sensitive dataflow of the reason pointer against the result, with contracts for the called validators',
     'Every parser and validator that has a reason argument.')
tech('C26', 'constant propagation of the preference function per type and limit configuration against the documented table; abstract evaluation of the selection loop over levels of matching alternatives',
     'All types of the table, ranged and unranged, plain and expanded strings, explicit preferences.')
tech('C07', 'footprint (effect) analysis and partial evaluation of every per-type operation, specialised to each value type',
     'Printing, parsing, copy, reset, length, limits and the two name tables; the digits of decimal64 and time texts are not followed.')
tech('C06', 'ownership dataflow: copying and destroying functions specialised per owning member against a table of owners (abstract interpretation over LLVM IR)',
     'Values of every type, vectors, callbacks, nodes of every type, trees, tree heads, results, buffers and sessions; lists of up to three elements stand for longer ones.')
tech('C18', 'typestate of the terminal mode over all paths of the LLVM IR (path-sensitive abstract interpretation, contexts: original mode and line editing)',
     'Every function that can change the mode; tcsetattr is assumed to succeed and application hooks to leave the mode alone.')
tech('C21', 'constant-origin dataflow of every print format over LLVM IR, conversion/argument type matching, typestate of variable-argument lists',
     'Every call of a formatting function and of every library wrapper that forwards a format; x86-64 machine types.')
tech('C22', 'origin analysis of function pointers and call-graph reachability of the sites that run callbacks; path-sensitive abstract interpretation of evaluation',
     'All call sites of the library through pointers; evaluation is analysed on a node with up to three callbacks.')
tech('C24', 'effect analysis: every modifiable static object with its readers and writers over the call graph, and reset-before-use of scanner state',
     'All static storage of the library, generated scanners included; state of the C library is outside.')
tech('C19', 'typestate of descriptors, streams, child processes and the standard streams over all paths of the LLVM IR, interprocedural',
     'Every public function that can acquire or give back one; callbacks are assumed to give back what they open and waitpid not to be interrupted.')
tech('C20', 'typestate of compiled regular expressions per engine over all paths of the LLVM IR, one context per engine selection',
     'Every function that compiles, runs or releases through the engine selection, and the value check that combines them.')
tech('C23', 'inductive invariant of the history (abstract interpretation with difference bounds over LLVM IR) and value origin of the positions that callers pass',
     'Every function that reads or writes the history members, from an arbitrary history of 2 to 2^28 slots; application hooks are assumed not to resize the history while a line is edited.')
tech('C25', 'abstract interpretation of tree expansion on hidden nodes, and interprocedural typestate of trees (expanded with or without hidden nodes) from the listing hooks and the evaluation functions',
     'All listing and evaluation paths of the library and the readers of specifications; nodes built from the values of a variable are as visible as the variable.')
tech('C02', 'failure dataflow from the results of the construction functions through the reductions of the generated parser; totality of the scanner tables; abstract interpretation of the construction functions',
     'Every call in the grammar actions that can fail, every start condition of the scanner, every construction function; the value stack that bison unwinds on an error is not followed.')
tech('C12', 'value-numbering dataflow over all paths of the LLVM IR: what is known of a node\'s type at every access to its variable part, interprocedural through required argument types',
     'Every access, copy and release of the variable part in the library, and every store of a node type; nodes are told apart by value number, not by shape of the tree.')
tech('C27', 'interval and linear-relation dataflow over LLVM IR with an array-bound obligation at every write to a fixed-size array, interprocedural by array-size contexts',
     'Local, member and static arrays of bytes and ints; pointer arrays and heap blocks are not arrays of fixed size.')
tech('C28', 'inductive invariant by linear-relation dataflow over LLVM IR: the size of each heap block kept symbolically, the length members related to it at entry and exit, and a bound obligation at every write and copy',
     'The dynamic strings, vectors, tree vectors, line and kill buffers and the texts measured before they are printed; lengths are below 2 GB; pt_copy and the other heap blocks are not followed.')
