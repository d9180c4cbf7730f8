"""Source of properties.jsonl: `python3 tools/props.py` rewrites it."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))
V='pyverilog/vparser/'; D='pyverilog/dataflow/'; C='pyverilog/controlflow/'; U='pyverilog/utils/'; CG='pyverilog/ast_code_generator/'

prop('C01','Parsing yields exactly the AST the Verilog-2001 grammar prescribes',
 'For every source text in the supported Verilog-2001 subset, the parser returns the syntax tree that the text denotes: every declaration, port, parameter, statement, instance, generate construct and expression appears exactly once, in source order, with its own name, width, dimensions, signedness, value, delays, operands and scope. Operator precedence and associativity follow IEEE 1364, and redundant parentheses never change the tree. No text of the subset is rejected.',
 ['inputs'],'all module texts derivable from the supported grammar, of any nesting and any combination of optional parts',
 'The example tests parse about twenty fixed files and compare a printed tree; each optional part and each pair of neighbouring constructs is sampled at most once.',
 [V+'parser.py',V+'ast.py',V+'lexer.py'],[('LALR actions','VerilogParser.p_*'),('precedence table','VerilogParser.precedence')],['VerilogParser.parse','pyverilog.vparser.parser.parse'])
prop('C02','Generated Verilog parses back to the same AST',
 'For every syntax tree the parser can produce (or that is built by hand from the same node classes), the code generator emits text that the parser accepts and that parses to an equal tree, up to splitting multi-name declarations into single ones (and, for hand-built trees, a begin/end block around a nested conditional). Nothing is dropped, merged, re-associated or re-ordered, whatever the nesting.',
 ['programs'],'all ASTs of the supported subset, including shapes only reachable by nesting',
 'The tests compare generated text for a handful of fixed designs with golden strings; no test re-parses arbitrary trees.',
 [CG+'codegen.py',U+'op2mark.py'],[('visitors and templates','ASTCodeGenerator.visit_*'),('parenthesis removal','visit_Operator/del_paren')],['ASTCodeGenerator.visit'])
prop('C03','Regenerated code simulates identically to the original design',
 'For every legal design in the supported subset, parsing it and regenerating Verilog from the tree yields a design that a Verilog simulator accepts and that behaves identically: the same outputs for the same stimulus on every cycle.',
 ['programs','inputs'],'all type-correct designs of the subset and all stimuli',
 'Golden-string tests never simulate; parser and generator errors that cancel out textually are invisible.',
 [CG+'codegen.py',V+'parser.py'],[('parse then generate','VerilogParser.parse, ASTCodeGenerator.visit')],['parse()','ASTCodeGenerator.visit'])
prop('C04','Every syntax node carries the source line where its construct starts and ends',
 'Whatever the layout, comments and directives, each node of the tree reports the line on which its construct begins, and modules, blocks, assignments, conditionals, cases, always blocks, functions, generate regions and instances report the line of their last token.',
 ['inputs'],'all texts of the subset under all layouts (newlines, multi-line comments, directives)',
 'Tests use fixed layouts and mostly print trees without checking positions.',
 [V+'parser.py',V+'lexer.py'],[('lineno propagation','p.set_lineno in every action'),('newline counting','t_NEWLINE, t_COMMENTOUT, t_LINECOMMENT, t_DIRECTIVE')],['Node.lineno','Node.end_lineno'])

prop('C05','Malformed source is rejected with a parse error and leaves no trace',
 'For any input text whatsoever the parser either returns a syntax tree or raises its documented parse error; a line and a token named by the error are those of a token of the input. It never fails with another exception, never hangs, and never silently accepts a text that a required token was removed from. A rejected input does not affect what any later parse returns.',
 ['inputs','histories'],'arbitrary byte strings, token-level mutations of valid texts, and sequences of accepted and rejected texts',
 'Existing tests only parse valid files.',
 [V+'parser.py',V+'lexer.py'],[('p_error/_raise_error','parser.py'),('t_error','lexer.py')],['VerilogParser.parse'])
prop('C06','Layout, comments and directives never change tokens or trees, literals stay verbatim',
 'Token streams and syntax trees depend only on the sequence of tokens: white space, line and block comments and compiler directives between tokens may be added, removed or changed without effect (a `default_nettype directive only sets the recorded default net type). Every literal, identifier and operator keeps its exact spelling, and each directive is reported with its own text and line.',
 ['inputs'],'all token sequences of the language and all layouts',
 'The tests have one fixed layout per file.',
 [V+'lexer.py',V+'parser.py'],[('token rules','VerilogLexer.t_*')],['VerilogLexer.token','VerilogParser.parse','get_directives'])
prop('C07','AST equality is structural, symmetric and consistent with hashing and traversal',
 'Two syntax trees compare equal exactly when they have the same node kinds, attribute values and children in the same order, regardless of line numbers; equal trees have equal hashes and comparing any two trees never fails. Traversal of a node yields each of its sub-nodes exactly once, members in the order of the constructor and sequences in source order.',
 ['inputs','programs'],'all pairs of trees, including single-point edits of one another',
 'No test compares trees that differ in one child, an optional part or a length.',
 [V+'ast.py'],[('Node.__eq__/__hash__','ast.py'),('children()','ast.py')],['Node.__eq__','Node.__hash__','Node.children','Node.show'])
prop('C08','Preprocessing expands exactly the given sources, macros and include paths',
 'For any list of source files and in-memory source strings, include directories and macro definitions, the parsed design is that of the macro-expanded concatenation of the sources in the order given. No temporary file is left behind and no input file is modified.',
 ['inputs','configurations'],'all source lists, macro tables, include trees and conditional-compilation nestings',
 'Tests pass one file and at most one include path.',
 [V+'preprocessor.py',V+'parser.py'],[('preprocess()','preprocessor.py'),('VerilogPreprocessor','preprocessor.py'),('VerilogCodeParser','parser.py')],['preprocess','parse','VerilogCodeParser','VerilogDataflowAnalyzer'])
prop('C09','Constant expressions are evaluated as Verilog evaluates them',
 'Every constant expression that elaboration resolves (parameter and localparam values, ranges, replication counts, generate and loop bounds, integer literals of every base, width and sign) gets the value Verilog assigns to it, as long as no intermediate result leaves the range of a 32-bit integer or of its own width and no negative value meets an unsigned operand.',
 ['inputs'],'all constant expressions over literals, parameters and all operators',
 'Tests contain a few literal parameters.',
 [D+'optimizer.py',D+'visit.py',U+'util.py',D+'dataflow.py'],[('evaluation','VerilogOptimizer.optimizeConstant/evalOperator, NodeVisitor.optimize'),('literal decoding','DFIntConst.eval, width')],['VerilogDataflowOptimizer.getConstlist','getTerms','resolveConstant'])
prop('C10','Optimizing a dataflow tree never changes its value',
 'For every dataflow tree and every assignment of values to its signals, the optimized tree evaluates to the same value, with known constants (that fit their own widths) replaced by their values. Optimization terminates, is idempotent and does not modify its input.',
 ['programs','inputs'],'all well-formed trees over all operators, branches, selects and concatenations, and all valuations',
 'Tests check the printed result of a dozen designs.',
 [D+'optimizer.py'],[('optimizeConstant, optimizeHierarchy, mergeConcat','optimizer.py')],['VerilogOptimizer.optimize'])
prop('C11','Normalising transformations of dataflow trees preserve value',
 'Branch reordering and unknown-value replacement return trees that evaluate as the original under every valuation (alternatives of a conditional being equally wide), and the reordered tree has no conditional below an operator, selection or concatenation. Signals and constants that occur are preserved and the input tree is not modified.',
 ['programs','inputs'],'all trees and valuations',
 'Only exercised through fixed controlflow examples.',
 [D+'reorder.py',D+'replace.py'],[('reorder','reorder.py'),('replaceUndefined','replace.py')],['reorder.reorder','replace.replaceUndefined'])
prop('C12','Combinational dataflow computes the same function as the design',
 'For every design in the supported subset whose expressions and assignments have matching widths, the dataflow reported for each combinationally assigned signal evaluates, for every input value, to the value the design gives that signal.',
 ['programs','inputs'],'all width-matched combinational designs: continuous and procedural, full and partial assignments, functions, loops, case statements',
 'Golden strings for about twenty designs.',
 [D+'bindvisitor.py',D+'visit.py',D+'dataflow.py'],[('binding construction','BindVisitor'),('frames','FrameTable')],['VerilogDataflowAnalyzer.getBinddict'])
prop('C13','Sequential dataflow describes the next state of every register',
 'For every clocked always block of a supported design, the dataflow of each register, together with its reported clock, reset and edges, determines the value the register takes at the next active edge: reset branches, nested conditions, nonblocking and blocking assignments of whole registers or disjoint parts in order, and holding the old value when nothing is assigned.',
 ['programs','inputs','histories'],'all synchronous designs of the subset and all stimulus sequences',
 'Golden strings only; nothing simulates.',
 [D+'bindvisitor.py',D+'visit.py',D+'dataflow.py'],[('always analysis','BindVisitor._visit_Always, _createAlwaysinfo'),('nonblocking','Frame.addNonblockingAssign')],['getBinddict','Bind.getClockName...'])
prop('C14','Hierarchy, parameters and generate constructs elaborate as in Verilog',
 'Instances, parameter overrides, positional and named port connections, and generate loops and conditionals (with non-negative parameters) give every instance its own signals, constants and dataflow: the elaborated design computes the same outputs as the source.',
 ['programs','configurations'],'all instance trees, parameter values, port connection styles and generate nestings of the subset',
 'Fixed examples with at most two instances per shape.',
 [D+'bindvisitor.py',D+'signalvisitor.py',D+'modulevisitor.py',D+'visit.py',U+'scope.py'],[('elaboration','SignalVisitor.visit_Instance, BindVisitor.visit_Instance, visit_ForStatement, visit_IfStatement')],['getTerms','getBinddict','getInstances','getConstlist'])
prop('C15','Every declared signal and every instance is reported once with its kind and range',
 'The analysis reports one term for each signal of each instance in the elaborated design, with exactly the declared kinds, vector range and array range (parameters without a range count as [31:0]), and lists each instance with its module; nothing undeclared is reported except implicit nets and helper terms; variables local to functions are no signals.',
 ['programs'],'all elaborated designs of the subset',
 'Tests print terms of fixed designs.',
 [D+'signalvisitor.py',D+'visit.py',U+'signaltype.py'],[('SignalTable','visit.py'),('addTerm','bindvisitor.py')],['getTerms','getInstances','getSignals'])
prop('C16','Expanded dataflow trees equal the combinational cone they summarise',
 'Following a signal back through intermediate combinational signals yields a tree over registers and inputs that evaluates, under every valuation, to the value of the signal in the design; following it one clock step further yields its value after the next clock edge. Neither depends on the order of analysis.',
 ['programs','inputs'],'all acyclic designs and valuations',
 'Fixed examples only.',
 [D+'walker.py',D+'merge.py'],[('walkBind','walker.py'),('getTree/getMergedTree','merge.py')],['VerilogDataflowWalker.walkBind','VerilogDataflowMerge'])
prop('C17','Extracted state machines equal the transition relation of the design',
 'A register with a state-machine name that takes different constants in different states it is compared with is recognised as a state machine, and no other kind of signal is. For every recognised register, every state value and every value of the other signals, with the reset inactive: the reported transitions of that state whose condition holds lead exactly to the constant the design assigns, and there is none when it assigns no constant. The reported loops are exactly the elementary cycles of the reported transitions, each once from its least state.',
 ['programs','inputs'],'all state machines with constant state encodings, any guard nesting, reset style, one or two processes, and all valuations',
 'No stable test runs the control-flow analysis at all.',
 [C+'controlflow_analyzer.py',C+'splitter.py',C+'transition.py',U+'inference.py'],[('FSM inference','VerilogControlflowAnalyzer.getFiniteStateMachines'),('loops','FiniteStateMachine.get_loop')],['getFiniteStateMachines','FiniteStateMachine.fsm','getLoops'])
prop('C18','Active conditions hold exactly when the signal is assigned such a value',
 'For every signal and every question (a constant value satisfying a comparison, any modification, no modification) each reported pair of a state and a condition is right: whenever the state register has the state and the condition holds, with the reset inactive, the design assigns the signal a value that answers the question. Conversely every such assignment standing under a condition that names the state of a recognised state machine is covered by a reported pair. Only recognised state machines and the signal itself are named.',
 ['programs','inputs'],'all guarded assignments, questions and valuations','No test runs this analysis.',
 [C+'active_analyzer.py',C+'splitter.py',C+'transition.py'],[('getActiveConditions','active_analyzer.py'),('filters','splitter.active_*')],['VerilogActiveConditionAnalyzer.getActiveConditions'])
prop('C19','A design subset is exactly the transitive fan-in cone of the requested signals',
 'Requesting a subset for a set of signals (by dotted name, list or tuple of names) returns precisely the signals and bindings that can influence them through bindings, selects, ranges and clocks (other than the clock named by set_clock_info), each once and in its class: parameter, assignment, clocked or combinational.',
 ['programs'],'all designs and sets of requested signals','One example.',
 [D+'subset.py',D+'merge.py'],[('VerilogSubset','subset.py')],['VerilogSubset.getBindSourceSubset','VerilogSubset.getSubset'])
prop('C20','Identifier collection and renaming cover every occurrence exactly once',
 'Collecting the identifiers of a syntax tree returns the name of every identifier node, once per occurrence in the text; renaming by a map changes exactly the mapped identifier nodes, each once (swaps and chains included), and nothing else.',
 ['programs'],'all trees and maps','No tests.',
 [U+'identifiervisitor.py',U+'identifierreplace.py'],[('visitors','utils')],['getIdentifiers','replaceIdentifiers'])
prop('C21','The dataflow graph mirrors the dataflow tree',
 'The generated graph has one labelled node per tree element (terminals and constants shared unless identical nodes are requested) and exactly the edges of the tree with their labels, for every signal, given as object or dotted name, and every option combination.',
 ['programs','configurations'],'all trees and options','One example.',
 [D+'graphgen.py'],[('VerilogGraphGenerator','graphgen.py')],['VerilogGraphGenerator.generate'])
prop('C22','Analyses are deterministic and independent of one another',
 'Running any analysis again, after other analyses, on an equal design, or with another hash seed, returns the same result (compared by its text); analysing never modifies the objects an earlier analysis returned.',
 ['histories','programs'],'all designs and sequences of analyses','Every test starts a fresh analysis once.',
 [D+'dataflow_analyzer.py',D+'visit.py',V+'parser.py'],[('fresh tables','VerilogDataflowAnalyzer.generate')],['VerilogDataflowAnalyzer'])
prop('C23','The code of terms and bindings is the design, flattened',
 'For every supported design (operands of matching width, at most one assignment of an array at a variable index), the code texts (tocode) of its signals, constants and bindings - all of them, the entire design as given by VerilogSubset.getEntire, or the subset of some requested signals - put into one module form legal Verilog, in which each of these signals takes, for every stimulus, the value it has in the design.',
 ['programs','configurations','inputs'],'all designs and stimuli','No test looks at the code text of a binding.',
 [D+'dataflow.py',D+'subset.py',V.replace('vparser/','')+'utils/scope.py'],[('tocode','DFNode, Term, Bind in dataflow.py'),('getEntire, getSubset','subset.py')],['Term.tocode','Bind.tocode','VerilogSubset.getSubset'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
