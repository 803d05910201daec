"""The property table: statement, quantifier, anchors, technique, assurance."""
NOTE = ('Nothing of the repository is executed and no solver is called; an obligation the analysis cannot decide is '
        'counted as undecided in the evidence and never reported.')
INP = ['inputs', 'programs']
P = 'pyverilog/vparser/parser.py'
A = 'pyverilog/vparser/ast.py'
LX = 'pyverilog/vparser/lexer.py'
CG = 'pyverilog/ast_code_generator/codegen.py'
DF = 'pyverilog/dataflow/dataflow.py'
BV = 'pyverilog/dataflow/bindvisitor.py'
SV = 'pyverilog/dataflow/signalvisitor.py'
MG = 'pyverilog/dataflow/merge.py'
VT = 'pyverilog/dataflow/visit.py'
OP = 'pyverilog/dataflow/optimizer.py'

CF = 'pyverilog/controlflow/'
PROPS = [
 dict(id='C01', title='Parsing builds the tree the source text says',
      statement='For every accepted source text, the syntax tree holds exactly the constructs of the text: each construct becomes '
      'a node of its own kind, each name, operand, branch, delay, width, sign, label and list element of the construct sits '
      'unchanged in the slot meant for it, and lists keep source order and length. Nothing of the text is dropped, duplicated, '
      'swapped between slots or replaced by a default.',
      quantifier=(INP, 'every sentence of the accepted Verilog subset, every production and every combination of optional parts'),
      tests='The parser tests compare about ten fixed dumps; the grammar has about 500 productions and unboundedly many derivations.',
      files=[P, A],
      mechanism=[('grammar actions', 'p_* methods of VerilogParser in ' + P), ('node constructors', A)],
      observe=['return value of parse()', 'tree dump (show)'],
      technique='abstract interpretation of grammar actions (value graphs composed along derivations) against a concrete-syntax-to-tree table',
      level_note='Each of about 230 concrete forms is derived by chart parsing over the grammar read from the source, accepted by an '
      'LALR automaton rebuilt from it, and the value graphs of the actions on its derivation are composed; the composed tree must '
      'match the expected tree. Leaves are symbolic, so one form covers all texts of its shape. Assumes PLY slot semantics.'),
 dict(id='C02', title='Declarations and ports keep direction, kind, width, sign, dimensions, value',
      statement='Each name declared in a port list, parameter list, declaration, function or task header yields exactly one '
      'declaration per kind it was declared with (input and reg, say), carrying its own name, initial value and array dimensions and the shared '
      'width, signedness and direction; in a comma list without a new keyword the following names inherit the preceding ones. '
      'Combinations the language forbids are rejected rather than misread.',
      quantifier=(INP, 'every combination of direction, net or variable kind, sign, width, dimensions, initial value and list length'),
      tests='The tests show a handful of declaration shapes; the combinations number in the hundreds and decide silently dropped widths.',
      files=[P],
      mechanism=[('declaration actions', 'p_decl*, create_decl*, p_ioport*, create_ioport* in ' + P)],
      technique='abstract interpretation of grammar actions over generated declaration forms against a declaration table',
      level_note='About 500 (thorough 1360) declaration forms, generated from the keyword/width/sign/dimension/list dimensions, are '
      'derived and their composed value graphs matched with the expected declarations.'),
 dict(id='C03', title='Every operator means itself, with Verilog precedence and associativity',
      statement='An operator token becomes its own operator node, in unary or binary position, with operands in source order; operators nest by the '
      'Verilog precedence and associativity; and every table and printer that turns the operator back into text yields the same token. '
      'Parentheses inserted or omitted when printing never change how an expression groups.',
      quantifier=(INP, 'every pair of operators, unary, binary and conditional, in every nesting'),
      tests='Tests use a few operators; the pairs of about 40 operators and the printing tables are not covered.',
      files=[P, A, 'pyverilog/utils/op2mark.py', CG],
      mechanism=[('precedence table', 'VerilogParser.precedence in ' + P), ('expression actions', 'p_expression_* in ' + P),
                 ('operator tables', 'op2mark/op2order in pyverilog/utils/op2mark.py')],
      technique='LALR automaton analysis of operator pairs plus value graphs of expression actions and constant evaluation of operator tables',
      level_note='Every ordered pair of operators is parsed by the rebuilt automaton and the resulting grouping compared with the '
      'standard; operator tables are evaluated from source.'),
 dict(id='C04', title='The text is split into the right tokens; bad text is an error',
      statement='Every text is split into the tokens of the lexical grammar: numbers of every base, sign and x/z digit, strings, '
      'identifiers (plain and escaped), reserved words and operators are recognised at their full length with their own token type and unchanged text, '
      'comments and blanks vanish, and compiler directives are recorded with line and text. An illegal character or a '
      'syntax error always ends in a parse error carrying the line, never in a tree.',
      quantifier=(['inputs'], 'every character string'),
      tests='Tests lex some ten files; the token language is infinite and rule order decides overlaps.',
      files=[LX, P],
      mechanism=[('token rules', 't_* in ' + LX), ('reserved words', 'VerilogLexer.reserved'), ('error functions', 't_error, p_error')],
      technique='regular-language comparison (determinised token automata) and value graphs of rule functions',
      level_note='Complete over all strings for the token rules: product automaton of the leftmost-first rule automaton and the '
      'longest-match lexical grammar. Rule functions by value graph; every reserved word is evaluated.'),
 dict(id='C05', title='Every tree node carries the source line of its own text',
      statement='Every node of the tree carries the line number of its construct in the input text: a construct the line of its first token '
      '(a delayed assignment that of its target), an inner node a line inside it; statements and blocks also the line they end on. Comments, '
      'directives, blank lines and multi-line constructs never shift the count.',
      quantifier=(INP, 'every construct, placed on any lines'),
      tests='Dumps in the tests have most tokens of a construct on one line, where a wrong line source cannot show.',
      files=[P, LX],
      mechanism=[('line propagation', 'p.lineno/p.set_lineno in ' + P), ('newline counting', 't_NEWLINE, t_COMMENTOUT, ... in ' + LX)],
      technique='abstract interpretation of line attributes along derivations (attribute-grammar dataflow); newline counting by regular-language analysis',
      level_note='Every leaf of a form sits on its own symbolic line, so one form covers all placements. Declared names of one '
      'declaration may share its line.'),
 dict(id='C06', title='Generated code contains every part of the tree',
      statement='Generating Verilog from any syntax tree yields text in which every construct is written in its own Verilog syntax '
      'with each of its parts, present or absent, in the right place: re-parsing gives back an equal tree. No node kind fails or '
      'loses a part.',
      quantifier=(INP, 'every node kind and every presence combination of its optional parts'),
      tests='Round-trip tests cover ten modules; optional parts number in the hundreds.',
      files=[CG, 'pyverilog/ast_code_generator/template/'],
      mechanism=[('visitors', 'ASTCodeGenerator.visit_* in ' + CG), ('templates', 'pyverilog/ast_code_generator/template/*.txt')],
      technique='abstract interpretation of visitors and templates to token sequences, compared with a concrete-syntax table',
      level_note='Per node kind and presence combination of its fields the visitor and its template are evaluated abstractly; the resulting token '
      'sequence must equal the expected one.'),
 dict(id='C07', title='Tree traversal and dump reach every sub-tree exactly once, in order',
      statement='Listing the children of a syntax-tree node yields exactly its present sub-trees, each once and in order, and never a missing '
      'part or a plain value; the dump and the generic visitors recurse through all of them, so every node of a tree is '
      'visited and shown with its own kind, attributes and line.',
      quantifier=(['programs'], 'every node kind and every presence combination of its parts'),
      tests='Tests dump a few modules; most node kinds and absent-part combinations never occur.',
      files=[A, 'pyverilog/dataflow/visit.py', CG],
      mechanism=[('children()', 'every class of ' + A), ('show()', 'Node.show'), ('generic_visit', VT)],
      technique='abstract interpretation of children()/show()/generic_visit per node class and presence scenario',
      level_note='Exhaustive over node kinds and presence scenarios of the node vocabulary table.'),
 dict(id='C08', title='Two trees are equal exactly when they have the same content',
      statement='Two syntax-tree nodes compare equal exactly when they are of the same kind with equal attributes and equal sub-trees '
      'in the same places, whatever their line numbers; they are unequal when a part is missing, extra or different, and when compared with '
      'anything that is no such node. Equal nodes hash alike.',
      quantifier=(['programs'], 'every pair of nodes of every kind, differing in any one part'),
      tests='No test compares trees.',
      files=[A],
      mechanism=[('equality and hash', 'Node.__eq__/__hash__ in ' + A)],
      technique='abstract interpretation of equality on pairs of abstract instances',
      level_note='Exhaustive over node kinds and single-part differences; sub-tree equality is the induction hypothesis.'),
 dict(id='C10', title='An expression becomes the dataflow tree of its operators and operands',
      statement='Wherever an expression stands (assignment, condition, index, argument, port connection, parameter, generate condition), its '
      'dataflow tree is the expression: each operator its own operator node with the operands in order, each constant its text, each name its '
      'signal, each select, concatenation, repetition, conditional and call its own node with the right parts; a conditional operand selects the '
      'value of the branch its condition picks. A constant expression gets the value of its tree.',
      quantifier=(INP, 'every expression kind, nested in every operand position, at every place'),
      tests='Tests hold fixed dumps of a few expressions; the operators and nestings number in the hundreds.',
      files=[BV, SV, DF, OP],
      mechanism=[('expression conversion', 'BindVisitor.makeDFTree and visit_* in ' + BV), ('constants', 'SignalVisitor.makeDFTree in ' + SV)],
      observe=['VerilogDataflowAnalyzer.getBinddict()'],
      technique='abstract interpretation of the analyzer on expression shapes with uninterpreted words, compared with the expected dataflow tree',
      level_note='Every expression kind alone, as operand of every other, and at every place; thorough adds depth 3.'),
 dict(id='C11', title='A block binds each signal to the value its control flow assigns',
      statement='For every always block, function body and generate construct, the dataflow of an assigned signal selects, for each '
      'outcome of the conditions tested, exactly the value the statements assign on that path: the right branch of if, of '
      'case, casex, casez and unique case (first matching item, default last), every iteration of a constant loop, later assignments over earlier ones, an '
      'earlier one kept where a later conditional one does not apply, blocking values read as updated, nonblocking '
      'ones as before. Clock, reset, edge and bit of the block are recorded as its sensitivity list gives them. The body of a '
      'function, task or initial block drives nothing by itself.',
      quantifier=(['programs'], 'every nesting and sequence of statements, every combination of condition outcomes'),
      tests='The dataflow tests compare fixed dumps of some fifteen small modules.',
      files=[BV, DF, SV, 'pyverilog/dataflow/visit.py'],
      mechanism=[('statement visitors', 'BindVisitor.visit_IfStatement/_case/visit_ForStatement/visit_Block in ' + BV),
                 ('decision trees', 'makeBind, diffBranchTree, makeBranchTree, appendBranchTree in ' + BV),
                 ('blocking substitution', 'resolveBlockingAssign, removeOverwrappedCondition, copyBlockingAssigns in ' + BV),
                 ('frames', 'Frame/FrameTable in ' + VT)],
      observe=['VerilogDataflowAnalyzer.getBinddict()'],
      technique='abstract interpretation of the analyzer on program shapes with uninterpreted words, compared path by path with a reference semantics',
      level_note='About 820 (thorough several thousand) statement shapes: all control templates alone, in sequence and nested, and pseudo-random ones to depth 4; '
      'words and conditions are uninterpreted, so a shape stands for all values. Bounded by shape size; while loops are outside.'),
 dict(id='C12', title='Signals, scopes and instances are registered as the program declares them',
      statement='The term table holds exactly the declared signals, each under the scope path of its declaration (instances, generate iterations, '
      'named blocks) with its kinds, range and array dimensions (a variable local to a function or task is no signal of the module); a name means the nearest enclosing declaration within its own '
      'module, a hierarchical name the signal it spells; an unknown name is an error unless the default net type of the module declares it '
      'implicitly. The instance table lists every instance of the hierarchy with its module.',
      quantifier=(['programs'], 'every kind of declaration in every kind of scope, in every order of constructs'),
      tests='Tests compare the terms of a few modules; scope numbering must agree between passes for every order of statements.',
      files=[BV, SV, VT, 'pyverilog/dataflow/modulevisitor.py', 'pyverilog/utils/scope.py'],
      mechanism=[('terms', 'BindVisitor.addTerm in ' + BV), ('scopes', 'Frame, FrameTable in ' + VT), ('name search', 'searchTerminal, searchScopeTerminal in ' + BV)],
      observe=['getTerms()', 'getInstances()', 'getBinddict()'],
      technique='abstract interpretation of the three dataflow passes on declaration and scope shapes, compared with the declared table',
      level_note='About 217 shapes: every declaration kind in module, instance, generate and block scope, resolution and shadowing cases, hierarchy.'),
 dict(id='C13', title='Instances connect the ports and parameters the program connects',
      statement='Each input port of each instance is bound to the expression connected to it by position or name, read in the enclosing scope; each '
      'signal, select or concatenation connected to an output port is bound to that port of that instance; an unconnected port '
      'is not bound. Each parameter of each instance has its own overriding value, or its default computed from that instance\'s other '
      'parameters, and decides its generate branches and ranges. Instances of an array get their own part of a vector; primitives '
      'compute their gate. A connection without counterpart is an error.',
      quantifier=(['programs'], 'every connection style, argument kind, direction, hierarchy and parameter override'),
      tests='Tests hold a few instances connected by name to plain signals.',
      files=[BV, SV, VT, 'pyverilog/dataflow/modulevisitor.py'],
      mechanism=[('ports', 'addInstancePortBind, _visit_Instance_body in ' + BV), ('parameters', 'addInstanceParameterBind, copyFrameInfo in ' + BV),
                 ('arrays', '_visit_Instance_array in ' + BV), ('primitives', '_visit_Instance_primitive in ' + BV)],
      observe=['VerilogDataflowAnalyzer.getBinddict()'],
      technique='abstract interpretation of the dataflow passes on instance shapes with uninterpreted words, compared with the connections written',
      level_note='About 240 shapes: connection styles by argument kinds, output targets, arrays, primitives, parameter overrides, rejections.'),
 dict(id='C14', title='Range-keyed bindings give every bit of a signal the bit assigned to it',
      statement='Assignments to bits, part selects, array elements and concatenations are bound so that, for each outcome of the conditions, every '
      'bit of the signal gets the right-hand bit the program assigns to it: parts keep their own ranges, concatenation targets share '
      'the value out from the right, later assignments win on the bits they cover, and bits not assigned are left alone. Merging '
      'the bindings of a signal into one tree splits and overlays them so that the tree has the same bits.',
      quantifier=(['programs'], 'every target form, overlap and order of parts, unconditional or under conditions'),
      tests='Tests pin a few outputs with disjoint parts; overlaps and orders multiply.',
      files=[BV, DF, 'pyverilog/dataflow/merge.py', 'pyverilog/dataflow/optimizer.py'],
      mechanism=[('targets', 'getDestinations, makeBind in ' + BV), ('ranges', 'DataFlow.addBind/setBind in ' + DF),
                 ('merging', 'splitPositions, splitBind, mergeTree, getMergedTree in pyverilog/dataflow/merge.py')],
      observe=['VerilogDataflowAnalyzer.getBinddict()', 'VerilogDataflowMerge.getTree()'],
      technique='abstract interpretation of the dataflow passes and the merge on assignment shapes, bits compared symbolically with those assigned',
      level_note='Bounded to enumerated and pseudo-random target shapes over an 8-bit, a 4-bit, a 1-bit and an offset vector and an array; descending ranges; '
      'merged values are as wide as their targets (others are recorded findings).'),
 dict(id='C16', title='Dataflow nodes, terms, bindings and scopes compare and hash by content',
      statement='Two dataflow nodes, terms, bindings, scope labels or scope paths compare equal exactly when they are of the same '
      'kind with equal contents; each can be hashed, and equal ones hash alike.',
      quantifier=(['programs'], 'every pair of nodes of every kind, differing in any one part'),
      tests='No test compares dataflow nodes; lookups and merges rely on it everywhere.',
      files=[DF, 'pyverilog/utils/scope.py'],
      mechanism=[('__eq__/__hash__', 'DFNode classes, Term, Bind in ' + DF), ('scope labels', 'pyverilog/utils/scope.py')],
      technique='abstract interpretation of equality and hash on pairs of abstract instances',
      level_note='Exhaustive over classes and single-field differences; operand equality is the induction hypothesis.'),
 dict(id='C17', title='Rewriting a dataflow tree never changes its value',
      statement='The optimizer (folding constants, merging identical, constant, complementary and adjacent operands, reading parts out of concatenations, '
      'replacing multiplications and divisions by shifts, simplifying && and ||) and the reordering that lifts conditional branches to the root '
      'return a tree that has the value of the tree given, for every value of its signals: no operand, branch, bit range, width, condition or '
      'order is dropped or exchanged, and a place without a value stays without one.',
      quantifier=(['programs'], 'every dataflow tree and every assignment of its terminals'),
      tests='The tests optimize a few binary trees of signals; every rule has a dozen guards whose near misses no test visits.',
      files=[OP, 'pyverilog/dataflow/reorder.py', DF],
      mechanism=[('constant folding', 'optimizeConstant in ' + OP), ('operand rules', 'mergeIdenticalNodes, mergeStaticNodes, mergeLandLor, replaceOperator in ' + OP),
                 ('concatenations and parts', 'mergeConcat_*, takePart in ' + OP), ('lifting', 'reorder, insert* in pyverilog/dataflow/reorder.py')],
      observe=['VerilogOptimizer.optimize()', 'reorder()'],
      technique='abstract interpretation of the rewriting functions on tree shapes for every rule and its near misses; truth-table comparison of before and after',
      level_note='About 15000 trees (thorough: several times that) over small terminals; the interpreter runs the rules on symbolic trees and a '
      'separate evaluator compares both trees on the terminal values (up to 4096 assignments). Unsigned words; arithmetic unbounded as the optimizer folds it.'),
 dict(id='C19', title='Constant expressions, literals, widths and parameters have their Verilog values',
      statement='Every literal (any base, size, sign letter, underscores, x z ? digits) is read with its value and width; every operator, conditional, '
      'concatenation and select on constants folds to the value and width of the Verilog operator, and stays unfolded where it has no value; the width '
      'computed for an expression is the one its operands give it; every parameter and localparam (chained, overridden, per instance, in generate loops) '
      'and every range and dimension that depends on them resolves to its number, and nothing else is taken for a constant.',
      quantifier=(['inputs', 'programs'], 'every literal text, operator, operand value and width, parameter dependency'),
      tests='Tests fold a few additions; the operator by sign by width table and the literal forms are not covered.',
      files=[OP, DF, BV, SV],
      mechanism=[('literals', 'DFIntConst.eval/width in ' + DF), ('operators', 'evalOperator, _evalOperator, evalConcat, evalPartselect in ' + OP), ('widths', 'getWidth in ' + OP),
                 ('parameters', 'resolveConstant in ' + OP + ', copyFrameInfo in ' + BV)],
      observe=['VerilogDataflowOptimizer.getConstlist()/getResolvedTerms()', 'VerilogOptimizer.optimizeConstant()/getWidth()'],
      technique='abstract interpretation of the folding functions on enumerated literals, operand grids and programs, compared with operator and literal tables',
      level_note='About 1150 literals, 6650 operator/operand combinations, 180 width trees, 960 constant trees and 50 programs; integers are unbounded as the tool folds '
      'them (results are not truncated to the operand width).'),
 dict(id='C15', title='Dataflow trees, signals and bindings print as what they are',
      statement='The Verilog code of every dataflow expression (tocode, under every operator and in every operand position) reads back, with Verilog '
      'precedence and literal syntax, as exactly that expression; its text form (tostr) shows the node kind, every operand and every attribute; the code '
      'of a signal declares its name, range, dimensions, direction, sign and one data type, and the code of a binding assigns its tree to its destination '
      '(name, element, range) under its clock and reset edges, as a continuous assignment or in the right kind of block.',
      quantifier=(['inputs', 'programs'], 'every tree, every nesting of node kinds, every signal type combination and binding'),
      tests='The tests compare a few printed bindings; missing parentheses, quotes or widths in nested trees change the meaning without failing.',
      files=[DF, 'pyverilog/utils/scope.py', 'pyverilog/utils/op2mark.py'],
      mechanism=[('rendering', 'tocode, tostr, tolabel of the DF classes, Term and Bind in ' + DF), ('operator marks', 'pyverilog/utils/op2mark.py')],
      observe=['DFNode.tocode()/tostr()', 'Term.tocode()', 'Bind.tocode()/tostr()'],
      technique='abstract interpretation of the rendering methods on every pair of node kinds; the text is read by an independent reader and compared',
      level_note='About 6600 nodes, signals and bindings (thorough: 78000). Names are plain words; a delay has no Verilog expression and must be refused.'),
 dict(id='C20', title='Dataflow emitted as Verilog is the design, whole or for chosen targets',
      statement='The module emitted from an analyzed design is legal Verilog with the ports of the top module plus clock, reset and enable, declares every '
      'signal once under a distinct flat name with its kind, direction and range, gives every parameter its value before it is used, and has exactly one '
      'assignment per binding with the same destination, tree, clock and reset; for chosen targets it holds exactly the signals and assignments '
      'the targets depend on, through data, conditions, indices, ranges, clocks and resets.',
      quantifier=(['inputs', 'programs'], 'every analyzed design and every choice of target signals'),
      tests='One test emits one design; that the subset is closed and nothing is lost must hold for every design.',
      files=['pyverilog/dataflow/dataflow_codegen.py', 'pyverilog/dataflow/subset.py', DF, MG],
      mechanism=[('emission', 'VerilogCodeGenerator in pyverilog/dataflow/dataflow_codegen.py'), ('subset', 'VerilogSubset in pyverilog/dataflow/subset.py')],
      observe=['VerilogCodeGenerator.generateCode()'],
      technique='abstract interpretation of analyzer, resolver and emitter on program shapes; the emitted text is read independently and compared with the bindings',
      level_note='55 designs and 80 targets: clocked and combinational logic, parameters, arrays, instances, generate, functions, supply and tri nets, escaped names. '
      'Flat names may be of any form as long as they are legal and distinct.'),
 dict(id='C18', title='A signal traced through the dataflow is the substitution of its sources',
      statement='Walking a signal gives its dataflow tree with every signal replaced by what drives it, up to inputs and registers, which stand for '
      'themselves: the value of the walked tree is the value of the original one under that substitution, bit and element selects take the bits they '
      'name, a register that is not assigned keeps its own value, and a feedback loop ends at the signal. Every traversal of a dataflow tree (walking, '
      'replacing undefined values, collecting sources) reaches every operand of every node kind.',
      quantifier=(['inputs', 'programs'], 'every dataflow tree, every chain and loop of signals'),
      tests='Tests print the walked trees of a few designs; an operand that is not followed or is followed in the wrong place shows only in other designs.',
      files=['pyverilog/dataflow/walker.py', 'pyverilog/dataflow/replace.py', MG, DF],
      mechanism=[('walking', 'VerilogDataflowWalker in pyverilog/dataflow/walker.py'), ('replacement', 'pyverilog/dataflow/replace.py'),
                 ('sources', 'VerilogDataflowMerge.getAllSources in ' + MG)],
      observe=['VerilogDataflowWalker.walkBind()', 'replaceUndefined()', 'VerilogDataflowMerge'],
      technique='abstract interpretation of the traversals on every node kind with every operand position, and on program shapes, compared with an independent substitution',
      level_note='About 1540 trees and programs (thorough: 24600). The walker does not extend or cut a source to the width of the signal; sources have the '
      'width of the signal here.'),
 dict(id='C21', title='Reported state transitions, loops and active conditions are the program\'s',
      statement='For every state register, the analyzer reports a transition from state s to constant d under condition c exactly when the next-state logic of '
      'the program assigns d to the register in state s under c (reset inactive); transitions from any state hold in every state; the loops reported are '
      'exactly the cycles of the transitions; and a signal is reported active in a state under a condition exactly when the program makes it so. '
      'Conditions that exclude each other give no transition, comparisons are read at the width of the state.',
      quantifier=(['inputs', 'programs'], 'every condition over the state and other signals, every next-state logic, every transition graph'),
      tests='No test covers the controlflow package.',
      files=[CF + 'controlflow_analyzer.py', CF + 'transition.py', CF + 'splitter.py', CF + 'active_analyzer.py', 'pyverilog/utils/inference.py', 'pyverilog/utils/signaltype.py'],
      mechanism=[('conditions', 'walkCondlist in ' + CF + 'transition.py'), ('splitting', 'split, filter in ' + CF + 'splitter.py'),
                 ('machines', 'FiniteStateMachine, VerilogControlflowAnalyzer in ' + CF + 'controlflow_analyzer.py')],
      observe=['VerilogControlflowAnalyzer.getFiniteStateMachines()/getLoops()', 'VerilogActiveConditionAnalyzer.getActiveConditions()'],
      technique='abstract interpretation of the condition reader, splitter, machine container and analyzer on enumerated conditions, graphs and programs, compared state by state',
      level_note='About 9500 condition lists, 160 trees, 1200 graphs, 40 programs (thorough: 93000). A machine without any transition from a particular state is not '
      'reported; conditions that name a reset are removed; non-constant destinations are not reported. The obsolete module active_range is left out.'),
 dict(id='C09', title='The front end parses exactly the sources it was given, with the options given',
      statement='Given files and program texts in any order, include paths and macro definitions, the front end hands every source, include path and definition to '
      'the preprocessor once and in the order given, and parses exactly what it produced; a failing preprocessor is reported and no partial or old text is '
      'parsed; no temporary file is left, whether it succeeds or fails; the analyzer hands its options (top module, reorder, net type) to the stages they '
      'name; and the example tools pass each command-line option to the parameter it stands for.',
      quantifier=(['inputs', 'configurations', 'fault_sequences'], 'every mix of file and text sources, include paths, definitions and options; the preprocessor missing or failing'),
      tests='The tests parse one file at a time from the file system; order, mixtures, texts and failures of the external program are not exercised.',
      files=['pyverilog/vparser/preprocessor.py', P, 'pyverilog/dataflow/dataflow_analyzer.py', 'examples/'],
      mechanism=[('preprocessor', 'VerilogPreprocessor, preprocess in pyverilog/vparser/preprocessor.py'), ('parser entry', 'VerilogCodeParser, parse in ' + P),
                 ('analyzer entry', 'VerilogDataflowAnalyzer in pyverilog/dataflow/dataflow_analyzer.py')],
      observe=['parse()', 'preprocess()', 'VerilogDataflowAnalyzer'],
      technique='abstract interpretation of the entry points against a model of files, external program and ply on every source mixture; call-by-call matching of options',
      level_note='About 640 obligations. The external program is modelled by its command line (iverilog), not run.'),
 dict(id='C22', title='Analyses do not influence each other, and asking changes nothing',
      statement='A parse depends on nothing but its text and options: a parser used again, or two parsers, behave like fresh ones, and directives handed out earlier stay. '
      'No call changes anything shared that outlives it (module or class state, default values, cached results). Resolution, walking, subsets, '
      'code generation and state machine analysis leave the syntax tree, signals, bindings and resolved tables as they were, and the same question '
      'asked again, later, or in another order gets the same answer.',
      quantifier=(['histories', 'programs'], 'every sequence of parses and of questions to the analysis objects'),
      tests='Each test makes fresh objects and asks once; leftover state shows only on the second use.',
      files=[P, LX, 'pyverilog/dataflow/walker.py', 'pyverilog/dataflow/subset.py', OP, MG, CF + 'controlflow_analyzer.py', CG],
      mechanism=[('parser state', 'VerilogParser.parse in ' + P + ', VerilogLexer in ' + LX), ('stages', 'walker, subset, optimizer, merge, codegen, controlflow')],
      observe=['VerilogParser.parse()', 'VerilogDataflowWalker.walkBind()', 'VerilogCodeGenerator.generateCode()', 'getFiniteStateMachines()'],
      technique='points-to and effect analysis of persistent mutable objects; abstract interpretation of stage sequences comparing all tables before and after',
      level_note='About 1750 obligations over 30 designs and every stage. Objects are followed by name, elements of containers are not followed.'),
 dict(id='C23', title='Wrong programs are rejected with the tool\'s own errors, never by an accident',
      statement='No function reads a name nothing defines, an attribute its receiver cannot have, or a node kind that does not exist; every call fits its callee '
      'and every format string its values. A program the analysis cannot accept (undefined signals, modules, ports, '
      'functions, clocks; too many ports or arguments; unsupported forms) is rejected with one of the errors of the tool, not with an '
      'AttributeError, IndexError, TypeError, KeyError or NameError, and not accepted silently.',
      quantifier=(['inputs', 'programs'], 'every path of every function, including those only wrong or unusual programs take'),
      tests='Error paths are not run by the tests: NameErrors in them had been there for years.',
      files=['pyverilog/'],
      mechanism=[('errors', 'pyverilog/utils/verror.py'), ('rejections', BV + ', pyverilog/dataflow/visit.py, ' + SV)],
      observe=['exceptions raised by VerilogDataflowAnalyzer.generate() and the other entry points'],
      technique='name, attribute, visitor, call-shape and format resolution over all functions; abstract interpretation of wrong programs to the error they raise',
      level_note='About 5500 obligations over every function of the package. Receivers of unknown class are judged against all classes only.'),
 dict(id='C24', title='The same input gives the same output every time',
      statement='Every answer of the analysis - instances, signals, bindings, resolved tables, traced trees, emitted code for the whole design or for chosen targets, state '
      'machines, loops, active conditions - and the order of its parts depend on the input alone, not on the order in which Python hands out '
      'the elements of a set (hash seed, object addresses), a clock, a random number or the order of a directory.',
      quantifier=(['inputs', 'schedules'], 'every design, question and iteration order of sets'),
      tests='A test run has one hash seed and compares one output; another order shows only in another run.',
      files=['pyverilog/dataflow/subset.py', MG, DF, CF + 'controlflow_analyzer.py', 'pyverilog/dataflow/dataflow_codegen.py'],
      mechanism=[('ordering', 'getSubset in pyverilog/dataflow/subset.py, getAllSources in ' + MG + ', tostr of Term in ' + DF)],
      observe=['VerilogCodeGenerator.generateCode()', 'getTerms()', 'getFiniteStateMachines()', 'getLoops()'],
      technique='abstract interpretation of all stages under different element orders of every set, answers compared; lint for sources of randomness over all functions',
      level_note='About 94 designs with every stage, two set orders (thorough: four orders and the tracing programs), and every function for the lint.'),
 dict(id='C25', title='Identifiers are replaced simultaneously and collected completely',
      statement='Replacing identifiers by a table gives the same tree with exactly the identifiers of the table renamed, all at once (names can be swapped, shared sub-trees '
      'are renamed once), their scope and line kept and everything else untouched. Collecting identifiers gives every identifier of the tree in the order '
      'of the tree, as often as it occurs.',
      quantifier=(['inputs', 'programs'], 'every node kind, every presence of its fields, every table of names'),
      tests='No test covers the two utilities.',
      files=['pyverilog/utils/identifierreplace.py', 'pyverilog/utils/identifiervisitor.py', 'pyverilog/dataflow/visit.py'],
      mechanism=[('replacement', 'IdentifierReplace in pyverilog/utils/identifierreplace.py'), ('collection', 'IdentifierVisitor in pyverilog/utils/identifiervisitor.py')],
      observe=['replaceIdentifiers()', 'getIdentifiers()'],
      technique='abstract interpretation of both utilities on every node kind and on parsed programs, compared with an independent renaming of the tree',
      level_note='About 1500 trees: every node kind with each field absent, nested and scoped names, and 59 programs.'),
 dict(id='C26', title='The drawn graph of a signal is its dataflow tree',
      statement='The graph drawn for a signal starts at the signal and has, for every node of its dataflow tree (own or traced, reordered or not), one node with its label and '
      'one edge per operand with its role (condition, branches, selected signal, indices). Signals are drawn once and shared, or once per use on request; '
      'different nodes never share a name. The drawing is written to the file that was asked for.',
      quantifier=(['inputs', 'programs'], 'every node kind in every operand position, every signal and option'),
      tests='No test draws a graph (graphviz is needed).',
      files=['pyverilog/dataflow/graphgen.py', 'pyverilog/dataflow/walker.py'],
      mechanism=[('drawing', 'VerilogGraphGenerator in pyverilog/dataflow/graphgen.py')],
      observe=['VerilogGraphGenerator.generate()', 'calls of pygraphviz add_node and add_edge'],
      technique='abstract interpretation of the generator with the drawing library as a recorder, the recorded graph compared with the tree',
      level_note='About 880 drawings: 19 node kinds in 18 positions (thorough: two levels) and the tracing programs. Layout and files are not covered.'),
 dict(id='C27', title='A state machine is printed and drawn with exactly its transitions',
      statement='Printing a state machine gives one line per transition with its source, condition and destination, transitions from any state and unconditional ones included. '
      'Drawing it gives one node per state and one edge per transition, those from any state leaving every state, with the condition as label or without labels on request, '
      'in the requested file. Neither changes the machine.',
      quantifier=(['inputs', 'programs'], 'every state machine: states, transitions, conditions, any-state transitions'),
      tests='The tests compare the transitions of few machines and draw none (graphviz is needed).',
      files=[CF + 'controlflow_analyzer.py'],
      mechanism=[('printing and drawing', 'FiniteStateMachine.view and .tograph in ' + CF + 'controlflow_analyzer.py')],
      observe=['FiniteStateMachine.view()', 'FiniteStateMachine.tograph()', 'calls of pygraphviz add_node and add_edge'],
      technique='abstract interpretation of the two methods with output and drawing library as recorders, compared with the transitions',
      level_note='124 obligations: machines of up to four states built by hand, and those found in the programs of C21. Layout and fonts are not covered.'),
 dict(id='C28', title='Errors in the text say where they are',
      statement='An illegal character, or a token the grammar does not allow where it stands, is rejected with a parse error that names the line of the offending text - for a character also the column - and quotes it; '
      'a text that ends too early is reported as such.',
      quantifier=(['inputs'], 'every text and every position in it'),
      tests='The tests parse correct designs only.',
      files=['pyverilog/vparser/lexer.py', 'pyverilog/vparser/parser.py'],
      mechanism=[('position', 't_error, _find_tok_column, _make_tok_location in pyverilog/vparser/lexer.py'), ('report', 'p_error, _coord and _raise_error in pyverilog/vparser/parser.py')],
      observe=['ParseError raised by VerilogParser.parse()'],
      technique='abstract interpretation of the error functions of lexer and parser on tokens at positions of texts of every form, compared with the position counted from the text',
      level_note='24 obligations on 12 texts; which texts are errors is C02 and C04. Combinations the grammar actions reject (two ranges, say) are reported without a place.'),
]
