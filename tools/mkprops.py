#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "A script is accepted exactly when the grammar generates all of it",
  "For every LL(1) grammar and every script, parsing succeeds exactly when the complete script is a sentence that the grammar generates from its start rule. A script with a missing, wrong or left-over character anywhere, including after an otherwise complete sentence, is refused with an error value.",
  ["programs", "inputs"], "all LL(1) grammars x all scripts over any characters",
  "Tests parse about ten fixed sentences of about five fixed grammars, and only one of them is a refusal; language membership quantifies over all grammars and all strings.",
  ["src/script_parser.rs", "src/steuer_map.rs"],
  [("recursive predictive descent", "src/script_parser.rs parse_production/parse_terminal"), ("prediction table", "src/steuer_map.rs get_steuermaps")],
  ["result of Parser::parse"])
p("C02", "A successful parse returns the derivation tree of the script",
  "For every LL(1) grammar and every sentence of it, the returned tree is the sentence's derivation: one node with empty text per rule application, whose children are, in order, the symbols of the chosen alternative, and one leaf per terminal that carries exactly that terminal's text. The leaves read from left to right therefore spell the script, and walking the tree by child lists and by index paths shows the same tree.",
  ["programs", "inputs"], "all LL(1) grammars x all their sentences",
  "Tests look at one or two paths in three small trees; the shape of the tree has to be right for every grammar and sentence.",
  ["src/script_parser.rs", "src/tree.rs"],
  [("tree building during descent", "src/script_parser.rs parse_production"), ("child links", "src/tree.rs add_node/get_nth_child_or_none")],
  ["tree returned by Parser::parse"])
p("C03", "A refused script is reported at its first impossible character",
  "For every LL(1) grammar and every script outside its language, the error names the position, counted in characters, of the first character with which no sentence can continue what precedes it, together with that character, or the length of the script if it merely stops too early. What the error lists as expected is exactly the set of symbols on which the rule being read at that point can go on, or the next character of the terminal being read.",
  ["programs", "inputs"], "all LL(1) grammars x all scripts outside the language",
  "One test checks one error position; the guarantee is about every refused script, including multi-byte characters, errors inside a long terminal and at the end of input.",
  ["src/script_parser.rs", "src/peekables.rs", "src/errors.rs"],
  [("error construction", "src/script_parser.rs get_fitting_production/parse_terminal"), ("position counter", "src/peekables.rs ParseProcess")],
  ["ParserError from Parser::parse"])
p("C04", "Exactly the LL(1) grammars can be turned into a parser",
  "For every grammar, a parser can be built exactly when a start rule exists, every rule that is mentioned is defined, no rule is left-recursive (directly, through other rules, or behind symbols that can be empty), and within each rule the lookahead sets of the alternatives are pairwise disjoint. Every other grammar is refused while the parser is being built, by an error the caller can observe; a conflict is never settled silently and the process is never brought down.",
  ["programs"], "all grammars: LL(1), conflicting, left-recursive, with undefined or missing rules",
  "Tests build a handful of grammars that are all LL(1); no test contains a conflict, a left-recursive rule or an LL(1) grammar with context-dependent lookahead.",
  ["src/steuer_map.rs", "src/first_sets.rs", "src/follow_sets.rs", "src/script_parser.rs"],
  [("conflict detection", "src/steuer_map.rs steuermap_of_production"), ("FIRST recursion", "src/first_sets.rs get_set_first_set_of_element"), ("undefined rule detection", "src/follow_sets.rs graph_marking_for_rightside_elements")],
  ["Parser::new_from_text / new_from_parser_data: parser or refusal", "Result of get_first_sets, get_follow_sets, get_steuermaps"])
p("C05", "FIRST sets are exact",
  "For every grammar without left recursion, the FIRST set computed for a rule contains exactly the characters that can begin a string derived from it, and the empty marker exactly when the rule can derive the empty string. The same holds for the FIRST set of any non-empty sequence of symbols.",
  ["programs"], "all grammars without left recursion; all symbol sequences over them",
  "Tests compare the sets of six fixed grammars; chains of several nullable symbols, shared sub-rules and order of computation vary freely over all grammars.",
  ["src/first_sets.rs", "src/sets.rs"],
  [("memoised recursion", "src/first_sets.rs get_first_sets"), ("sequence FIRST", "src/first_sets.rs first_set_of_partial")],
  ["get_first_sets", "first_set_of_partial"])
p("C06", "FOLLOW sets are exact",
  "For every grammar without left recursion, the FOLLOW set computed for a rule is exactly the textbook least solution: the characters that can come directly after it in some right-hand side or, when only empty symbols follow, whatever can follow the rule it stands in, with the end marker for the start rule. The result does not depend on the order in which rules are written, numbered or visited.",
  ["programs"], "all grammars without left recursion, all numberings and start rules",
  "Tests compare four fixed grammars; propagation through chains and cycles of rules of any length is sampled only there.",
  ["src/follow_sets.rs", "src/named_graph.rs", "src/simple_graph.rs"],
  [("propagation to a fixpoint", "src/follow_sets.rs make_follow_sets_from_marked_graph"), ("marking", "src/follow_sets.rs graph_marking_for_rightside_elements")],
  ["get_follow_sets"])
p("C07", "The prediction table selects exactly the right alternative",
  "For every LL(1) grammar, the table built for a rule maps a lookahead character (or the end of input) to an alternative exactly when that character can begin the alternative, or the alternative can be empty and the character can follow the rule; no other lookahead is mapped. The decision set reported for a rule is the union of these lookaheads.",
  ["programs"], "all LL(1) grammars x all lookaheads",
  "The only test that compared table entries is commented out in the source; the others only check that a table is produced, or compare decision sets of three grammars.",
  ["src/steuer_map.rs", "src/steuer_sets.rs"],
  [("table construction", "src/steuer_map.rs get_steuermaps"), ("decision sets", "src/steuer_sets.rs get_steuer_sets")],
  ["get_steuermaps", "get_steuer_sets"])
p("C08", "Grammar text means the same in every layout",
  "Every grammar written in the rule notation is read back as exactly the rules that were written: names, alternatives and symbols in order, terminals character for character (escape sequences kept as written), `#` as the empty alternative. Any white space between tokens, the order of the statements, and splitting the alternatives of a rule over several statements change nothing else.",
  ["programs", "inputs"], "all rule sets x all layouts of their text",
  "Tests read about a dozen fixed texts in one layout each.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs"],
  [("rule reader", "src/rule_parsing.rs parse_rule/parse_possible_productions/parse_production"), ("terminal reader", "src/rule_parsing.rs parse_terminal"), ("merging of statements", "src/rule_parsing.rs merge_rule")],
  ["rules after RuleParser::parse_rules"])
p("C09", "Text that is not in the rule notation is refused, never misread",
  "For every text, reading it as a grammar either yields exactly the rules it denotes in the rule notation or reports an error; it never panics, never loops and never drops or invents a rule, alternative or symbol. A text with a missing or extra token, an unterminated terminal, action or override, or a misplaced empty marker is refused.",
  ["inputs"], "all texts: arbitrary characters, token soups, and grammar texts with small edits",
  "Three tests feed one malformed text each; the statement is about every text.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs", "src/peekables.rs"],
  [("rule reader", "src/rule_parsing.rs parse_rules"), ("lexical helpers", "src/parse_funcs.rs")],
  ["Result and rules of RuleParser::parse_rules"])
p("C10", "Ignored productions are allowed between all neighbouring symbols",
  "A grammar whose rules are read under an ignore production, set for the whole file by `$IGNORE: name;` at its top or for one rule by an override, behaves exactly like the grammar in which that production is written between every two neighbouring symbols of each alternative. Rules that can be reached from the ignore production, rules with the override `$[IGNORE:#]`, empty alternatives and single symbols stay as written, and an override for a rule wins over the file-wide setting.",
  ["programs", "inputs"], "all grammars with any combination of file-wide and per-rule ignore settings",
  "The tests of this feature fail at the pinned commit (the file-wide directive is not read at all), and no passing test uses an override.",
  ["src/rule_parsing.rs"],
  [("weaving", "src/rule_parsing.rs edit_rules/weave_in_ignorers"), ("override reader", "src/rule_parsing.rs parse_overrides"), ("reachability", "src/rule_parsing.rs check_is_derivative")],
  ["rules after RuleParser::parse_rules", "language of the parser"])
p("C11", "The text of an action reaches the virtual machine intact",
  "For every grammar, the virtual machine is asked for instructions exactly once per rule statement that has a braced section, in the order of the statements, with the rule's name and exactly the text between the braces (leading white space may be dropped), whichever way it reads that text. A closing brace preceded by a backslash belongs to the text; reading resumes right after the closing brace; an error from the machine, or text it leaves unread, makes the grammar be refused.",
  ["programs", "inputs"], "all grammars x all action texts x all ways of reading them (peek, next, conditional next in any mix)",
  "Only an empty action section is ever read in a passing test; escapes and reading styles are never exercised.",
  ["src/rule_parsing.rs", "src/peekables.rs", "src/vms.rs", "src/vms/counting_vm.rs"],
  [("action section", "src/rule_parsing.rs parse_instruction_section"), ("bounded view of the text", "src/peekables.rs ParseProcess")],
  ["calls of VM::parse_instructions on a machine defined outside the library"])
p("C12", "Actions run once per rule application, children first, left to right",
  "For every sentence, the instructions of a rule are executed exactly once for each of its applications in the derivation, after those of everything below it and in left-to-right order, with the finished node of that application as the current node. For a refused script, exactly the actions of the rule applications completed before the error have run.",
  ["programs", "inputs"], "all LL(1) grammars with actions on any subset of rules x all scripts, accepted or refused",
  "One test counts three executions of one action; order, current node, several instructions per rule and refused scripts are not observed.",
  ["src/script_parser.rs", "src/vms.rs"],
  [("execution after the children", "src/script_parser.rs parse_production/run_instructions")],
  ["calls of VM::execute_instruction on a machine defined outside the library", "final state of the counting machine"])
p("C13", "A parser keeps no memory of the scripts it has parsed",
  "For every sequence of parse calls on one parser, accepted and refused scripts mixed in any order, each call gives the same result, tree and actions as a freshly built parser would, whatever parsers of the same or of other grammars are used in between or at the same time in other threads, and a machine state passed in is changed by that call only. Two parsers built from the same grammar text behave alike, and the tree and the verdict do not depend on which machine is attached.",
  ["histories", "programs", "schedules"], "all LL(1) grammars x all sequences of scripts, on one parser and in turns or at the same time with others",
  "Every test builds a parser and parses once.",
  ["src/script_parser.rs", "src/parser_data.rs"],
  [("immutable tables during parsing", "src/script_parser.rs Parser")],
  ["results of successive Parser::parse calls"])
p("C14", "A grammar built in code behaves like the same grammar written as text",
  "For every grammar, a parser made from rules assembled through the programming interface accepts the same scripts with the same trees, errors and actions as one made from the equivalent text, in whatever order symbols, alternatives and instructions were added. It starts with the start rule that was passed in, whatever that rule is called.",
  ["programs", "histories"], "all grammars x all orders of building calls x all choices of start rule",
  "Only an example, which no test runs, builds rules in code.",
  ["src/parser_data.rs", "src/script_parser.rs"],
  [("building calls", "src/parser_data.rs add_production/set_productions/add_instructions"), ("construction", "src/script_parser.rs new_from_parser_data")],
  ["Parser::new_from_parser_data, Parser::parse"])
p("C15", "The parse tree stays consistent under every sequence of edits",
  "For every sequence of node insertions, branch removals and lookups on a tree, each node handle designates its node and data until that node or an ancestor is removed and is refused ever after, also once its storage is used again; child lists and paths show exactly the remaining nodes in insertion order. Failed operations change nothing, and this also holds for a tree that a virtual machine edits while the script is still being parsed.",
  ["histories"], "all sequences of tree operations, including those done by actions during a parse",
  "Seven tests do at most one removal and look up a single node; identity after reuse of storage needs longer histories.",
  ["src/tree.rs", "src/script_parser.rs"],
  [("slot reuse", "src/tree.rs add_node/remove_branch"), ("handle check", "src/tree.rs get_node/get_node_mut/node_exists")],
  ["Tree operations reached through VM::execute_instruction and the tree returned by Parser::parse"],
  [dict(name="free slot list", meaning="storage of removed nodes that may be used again", where="src/tree.rs Tree.free_node_indexes")])
p("C16", "Graphs return exactly the nodes and edges that were put in",
  "For every sequence of operations, a graph node keeps its data and its outgoing edges: an edge identifier is used at most once per node, an automatic identifier is larger than all earlier ones of that node, lookup by identifier or by a path of identifiers finds exactly the matching target, and attaching another graph keeps both graphs as they were plus the connecting edge. In a named graph each name designates its one node, and unknown or repeated names and out-of-range indices are reported as errors without changing the graph.",
  ["histories"], "all sequences of graph operations",
  "Nine tests add at most three edges; attaching graphs, paths and the named graph have no test.",
  ["src/simple_graph.rs", "src/named_graph.rs"],
  [("ordered edge list", "src/simple_graph.rs try_add_edge_with_id/find_node_index"), ("index shifting", "src/simple_graph.rs add_graph_at_node"), ("name table", "src/named_graph.rs")],
  ["public operations of both graph types"])
p("C17", "Looking ahead never changes what is read next",
  "For every text and every interleaving of looking ahead, reading, conditional reading and opening nested bounded views, looking ahead any number of times shows exactly the character that is read next, and the characters read are the text in order. A bounded view ends before the first stop character that does not directly follow its escape character, leaving that stop character to the enclosing view, and the reported position always counts the characters consumed so far.",
  ["histories", "inputs"], "all texts x all stop and escape settings x all interleavings and nestings of stream operations",
  "The stream has no test of its own; the state kept between looking ahead and reading only shows under particular interleavings.",
  ["src/peekables.rs"],
  [("stop and escape handling", "src/peekables.rs check_allowed"), ("position counter", "src/peekables.rs next/next_if/next_if_eq")],
  ["TPeekable operations on ParseProcess"],
  [dict(name="escape flag", meaning="the last consumed character was the escape character", where="src/peekables.rs ParseProcess.escape")])
p("C18", "Numbers, names, symbols and white space are read exactly",
  "On every text, reading a number consumes exactly the longest run of ASCII digits (after one minus sign for signed numbers) and yields its value, or reports an error if there is none or the value does not fit; reading a name consumes exactly one alphabetic character and the following alphanumeric characters and underscores; reading a symbol consumes that one character or nothing; skipping white space consumes exactly the leading white space. Errors carry the position and character at which reading failed.",
  ["inputs"], "all texts, including non-ASCII digits, letters and spaces, and numbers at the limits of the machine word",
  "Eleven tests try short ASCII numbers; limits, non-ASCII classes, names, symbols and white space are not covered.",
  ["src/parse_funcs.rs"],
  [("lexical helpers", "src/parse_funcs.rs")],
  ["parse_usize, parse_isize, parse_digits, parse_var_name, parse_symbol, parse_whitespace"])
p("C19", "Stack machine instructions compute what they say, and never crash",
  "For every machine state, tree position and sequence of instructions, each of the two stack machines changes its stack and registers exactly as the instruction defines in integer arithmetic. A missing operand or leaf sets the error field to 1, a leaf that is not a number to 2, and a result that does not fit (its operand is used up, nothing is pushed) to 3; the field otherwise keeps its value, and no instruction ever brings the process down.",
  ["histories", "inputs"], "all sequences of instructions from all reachable states of both machines",
  "No test executes any instruction of either stack machine.",
  ["src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs"],
  [("instruction execution", "src/vms/stack_vm.rs and src/vms/simple_stack_vm.rs execute_instruction")],
  ["machine state after VM::execute_instruction", "standard output of the print instructions"])
p("C20", "Action code for the stack machine is read into exactly its instructions",
  "Every list of stack machine instructions written in an action, with any white space around them, is read into exactly that list in order, with the operands written. Code with a missing semicolon or operand, an operand that is not a number or does not fit, or stray characters is refused; no written operand or known instruction is silently altered.",
  ["programs", "inputs"], "all instruction lists x all layouts, and all small edits of their text",
  "No test reads any action code.",
  ["src/vms/stack_vm.rs", "src/parse_funcs.rs", "src/peekables.rs"],
  [("code reader", "src/vms/stack_vm.rs parse_instructions")],
  ["instructions returned by StackVm::parse_instructions"])
p("C21", "The shipped calculator languages evaluate every expression correctly",
  "For every script of the calculator languages in the examples, made of numbers, `+`, `-` and `print` separated by single blanks, running it leaves on the stack and prints exactly the values that evaluating the postfix expression in integer arithmetic gives, as long as all values fit the machine. An operator without enough operands sets the error field; the grammar files for both machines and the grammar built in code agree.",
  ["inputs"], "all scripts of the example languages, numbers of up to 18 digits",
  "The examples run one script and are not run by the tests.",
  ["examples/simple_stack_based_math.txt", "examples/stack_based_math.txt", "src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs", "src/script_parser.rs"],
  [("decimal number actions", "examples/*.txt number, number_s_, digit"), ("machines", "src/vms")],
  ["machine state and standard output"])
p("C22", "The command line tool succeeds exactly on sentences of the grammar",
  "For every pair of a rule file and a script file, the command line tool exits with status 0 exactly when the rule file is a usable grammar that generates the complete content of the script file, whatever the files are called and however they are reached (relative path, link, pipe). In every other case it exits with a non-zero status and a message on standard error, without being killed by a signal.",
  ["programs", "inputs"], "all rule files x all script files",
  "The command line tool has no test.",
  ["src/main.rs", "src/script_parser.rs"],
  [("main", "src/main.rs")],
  ["exit status of the binary"])
p("C23", "Size never turns an answer into a crash or a wrong answer",
  "However long or deeply nested a script is, and however many rules, alternatives, symbols per alternative or characters per terminal a grammar has, building the parser and parsing end with the result that small inputs of the same shape get: the derivation tree, or an error at the right position. The process is never brought down by the size of its input.",
  ["inputs", "programs"], "families of grammars and scripts scaled in length, nesting, width and number of rules",
  "The longest script in the tests has 20 characters and the largest grammar nine rules.",
  ["src/script_parser.rs", "src/first_sets.rs", "src/follow_sets.rs", "src/steuer_map.rs", "src/tree.rs", "src/rule_parsing.rs"],
  [("recursive descent", "src/script_parser.rs parse_production"), ("recursive FIRST", "src/first_sets.rs")],
  ["Parser::new_from_text, Parser::parse on scaled inputs"])
p("C24", "Symbols of a grammar under construction keep one stable number each",
  "For every sequence of building calls, each pair of name and kind (rule or terminal) has exactly one number, which is handed out once, never changes and never collides, even if a rule and a terminal share a name; lookups by name, by number and the full listing agree with each other. Productions and instructions set for a rule are those found for it, alternatives added are kept in order, and replacing them removes exactly the old ones.",
  ["histories"], "all sequences of building and lookup calls",
  "No test exercises the building interface beyond a few insertions.",
  ["src/parser_data.rs"],
  [("interning", "src/parser_data.rs get_or_add_element_key"), ("rule store", "src/parser_data.rs add_production/set_productions/add_instructions")],
  ["public operations of the grammar store"])
p("C25", "An error in grammar text is reported where the text goes wrong",
  "For every text that is not in the rule notation, the error carries the position, counted in characters, of the first character at which no grammar text can continue what precedes it, and that character; or the length of the text if it merely stops too early. A misplaced or missing alternative is reported at that place or right behind the misplaced `#`, an unknown directive with its name and where the name begins, wrong stack machine code inside an action at its place in the whole text. What the error says was expected there is accepted there, and the message shows position and character. No error ever names another character than the one at its position.",
  ["inputs"], "all texts that leave the rule notation, at every distance from their beginning, read for each of the machines",
  "The tests check for three texts that some error is reported; none checks a position in a grammar text.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs", "src/peekables.rs", "src/errors.rs", "src/vms/stack_vm.rs"],
  [("errors of the notation", "src/rule_parsing.rs"), ("lexical errors", "src/parse_funcs.rs"), ("position inside actions", "src/rule_parsing.rs parse_instruction_section, src/peekables.rs new_nested"), ("messages", "src/errors.rs Display")],
  ["ParserError returned by RuleParser::parse_rules", "Display of that error"])
p("C26", "A refused grammar or request is reported with what is really wrong with it",
  "For every grammar whose analysis fails, the error names something that is true of the grammar: a rule that is left-recursive, a rule that is used or started with but not defined, or a rule together with a lookahead (`#` for the end) for which two of its alternatives apply. For every sequence of operations on a tree or a named graph, a refused request carries exactly the handle, name, number or child position that was asked for and does not exist (or exists already), and existing ones are never refused. The message shows the number.",
  ["programs", "histories"], "all unusable grammars x all numberings of their symbols; all request histories on trees and named graphs",
  "The tests of errors match only their kind, or nothing.",
  ["src/first_sets.rs", "src/follow_sets.rs", "src/steuer_map.rs", "src/named_graph.rs", "src/tree.rs", "src/errors.rs"],
  [("left recursion and missing rules", "src/first_sets.rs"), ("conflicts", "src/steuer_map.rs fill_with_steuer_set"), ("requests", "src/tree.rs, src/named_graph.rs"), ("messages", "src/errors.rs, src/tree.rs Display")],
  ["GrammarError of get_first_sets/get_follow_sets/get_steuermaps", "TreeError and GrammarError of tree and graph operations"])
p("C27", "Only the structure of a grammar counts",
  "Giving the rules of a grammar other names (a start rule named `start` excepted), replacing its characters one for one by others throughout grammar and scripts, writing its rules or the alternatives of a rule in another order, or building it again changes nothing else: whether a parser can be built, the FIRST and FOLLOW sets, which scripts are accepted, their trees, and the places of errors are the same up to that renaming.",
  ["programs", "inputs"], "all grammars, usable or not, x all renamings of rules and characters x all orders of rules and alternatives",
  "The tests use few names and ASCII letters, each grammar in one order only.",
  ["src/first_sets.rs", "src/follow_sets.rs", "src/steuer_map.rs", "src/script_parser.rs", "src/sets.rs", "src/parser_data.rs"],
  [("analysis", "src/first_sets.rs, src/follow_sets.rs, src/steuer_map.rs"), ("parsing", "src/script_parser.rs"), ("names", "src/parser_data.rs get_or_add_element_key")],
  ["get_first_sets, get_follow_sets", "Parser::new_from_parser_data, Parser::parse"])
p("C28", "Every way of assembling a parser gives the same parser",
  "For every grammar, a parser made directly from its text, from the data read from that text (as a whole, or statement by statement and put together by the caller), from data built in code, or by running the stages FIRST sets, FOLLOW sets and prediction tables by hand either cannot be built in any of these ways or gives the same verdicts, trees, errors and actions on every script. Started with any other rule of the same text, it accepts exactly the sentences of that rule.",
  ["programs", "inputs"], "all grammars x all ways of assembly x all scripts",
  "The tests build each parser in one way and never compare two.",
  ["src/script_parser.rs", "src/rule_parsing.rs", "src/steuer_map.rs", "src/first_sets.rs", "src/follow_sets.rs"],
  [("constructors", "src/script_parser.rs new_from_text, new_from_parser_data, new"), ("reading statements", "src/rule_parsing.rs parse_rule, parse_rules, merge_rule"), ("stages", "src/first_sets.rs, src/follow_sets.rs, src/steuer_map.rs")],
  ["constructors of Parser", "RuleParser::parse_rule", "get_first_sets, get_follow_sets, get_steuermaps"])
p("C29", "Every piece of grammar text can be read by itself",
  "For every text that contains a terminal, a symbol, an alternative, a list of alternatives or a whole statement at the current place, the function that reads such a piece returns exactly what is written there and leaves the text right behind it (behind alternatives at most white space is read, too), whatever follows and whatever has been read before; equal symbols get equal numbers. Where there is no such piece, or it does not end, it reports an error, and nothing but white space is consumed when nothing fits.",
  ["inputs", "histories"], "all sequences of pieces and reading calls on one text",
  "Each reading function is tested on one or two complete texts.",
  ["src/rule_parsing.rs", "src/parse_funcs.rs", "src/peekables.rs"],
  [("terminals and symbols", "src/rule_parsing.rs parse_terminal, parse_element"), ("alternatives", "src/rule_parsing.rs parse_production, parse_possible_productions"), ("statements", "src/rule_parsing.rs parse_rule")],
  ["public reading functions of RuleParser", "position and remaining text of the parse process"])
p("C30", "A grammar may come in parts, as texts and from code",
  "For every grammar and every way of splitting it into parts, each read as a text into the same grammar data or entered through the programming interface, the grammar data hold after every part exactly the alternatives put in so far, in that order, each symbol keeps the one number it was given, and the parser made at the end accepts the same scripts with the same trees and actions as the whole grammar does. A part that is read under an ignore production has it between the symbols of the alternatives it adds, and of no others; where that production leads to rules that only come later, the part is refused or read just so, never as if nothing were ignored.",
  ["programs", "histories"], "all grammars x all splits into texts and building calls x all scripts",
  "The tests never read a second text into a grammar and never continue one in code.",
  ["src/rule_parsing.rs", "src/parser_data.rs", "src/script_parser.rs"],
  [("merging", "src/rule_parsing.rs parse_rules, merge_rule, edit_rules"), ("building calls", "src/parser_data.rs add_production, set_productions, add_instructions, get_or_add_element_key")],
  ["RuleParser::parse_rules into existing ParserData", "ParserData building calls", "Parser::new_from_parser_data"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
