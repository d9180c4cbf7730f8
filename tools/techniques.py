NA = {}
TECH = {
'C01': ('grammar-directed generation with an independently derived expected AST',
        'Random search: texts derived from the Verilog-2001 grammar with the tree they denote; every attribute of every node is '
        'compared.  Trusts the generator in pv/syntax.py.'),
'C02': ('generate-regenerate-reparse round trip on grammar-directed texts and on edited trees',
        'Random search over syntax trees; the regenerated text must parse to an equal tree and be a fixed point.'),
'C04': ('grammar-directed generation with line bookkeeping',
        'Random search over layouts (comments, line continuations, blank lines); each node line is compared with the line of its '
        'first token as recorded by the generator.'),
'C05': ('mutation fuzzing of valid texts plus parser-history model',
        'Random search over token-level mutations and over histories of good and bad parses with one parser object.'),
'C06': ('token-sequence generation with a reference token list, metamorphic layout changes',
        'Random search over token sequences, separators and directives.'),
'C07': ('algebraic laws over generated trees, single-attribute mutations and visitor models',
        'Random search over generated syntax trees.'),
'C08': ('differential testing of preprocessing against iverilog -E semantics modelled by the generator, with failure histories',
        'Random search over macro, include and conditional structures and over entry points.'),
'C10': ('metamorphic: evaluation of generated dataflow trees before and after optimization by a reference interpreter',
        'Random search over well-formed trees; tree, optimized tree and twice optimized tree are evaluated under random valuations by '
        'pv/dfeval.py, which is written from IEEE 1364 and not from the code under test.'),
'C12': ('differential testing of dataflow evaluation against simulation by Icarus Verilog over generated designs',
        'Random search over combinational designs and input vectors; the dataflow is interpreted by pv/dfeval.py.'),
'C13': ('differential testing of next-state functions against simulation by Icarus Verilog over generated clocked designs and stimuli',
        'Random search over sequential designs and event sequences.'),
'C14': ('differential testing of elaborated designs against simulation by Icarus Verilog over generated hierarchies',
        'Random search over hierarchies, parameter overrides, generate constructs and stimuli.'),
'C16': ('differential testing of walked dataflow trees against simulation by Icarus Verilog over generated designs',
        'Random search over combinational and clocked designs and stimuli; walked trees are interpreted by pv/dfeval.py.'),
'C11': ('metamorphic: evaluation of generated dataflow trees before and after reordering and replacing unknown values; differential '
        'against simulation for designs analysed without reordering',
        'Random search over trees and valuations with pv/dfeval.py as interpreter, and over combinational designs against Icarus '
        'Verilog.'),
'C03': ('differential testing: generated programs simulated by Icarus Verilog before and after regeneration',
        'Random search over runnable programs with test benches; everything printed must be the same.'),
'C20': ('generated trees and renaming maps against a reference traversal over all fields of all nodes',
        'Random search over texts, sub-trees, hand-built trees with shared nodes, and maps with swaps and chains.'),
'C21': ('generated dataflow trees and designs: the drawn graph, read back from its DOT text, is compared with the tree',
        'Random search over trees, designs and drawing options; every node and edge is accounted for.'),
'C09': ('generated constant expressions evaluated by the analyser against the value tracked while generating, confirmed by '
        'Icarus Verilog',
        'Random search over parameters, ranges, replications, generate loops and conditions, overrides and integer literals.'),
'C15': ('generated module hierarchies: reported terms, ranges, signals, constants and instances against an elaboration '
        'tracked while generating',
        'Random search over declarations, port styles, generate constructs, instance arrays, named blocks, functions and implicit nets.'),
'C19': ('generated designs and requested signals: the subset against the closure of the binding relation computed by an '
        'independent traversal',
        'Random search over designs with several clocks, arrays, functions, instances and declarations of all kinds.'),
'C22': ('stateful: generated histories of analyses over shared results, compared request by request, with all earlier results at '
        'the end, and with another process under another hash seed and order',
        'Random search over designs and histories of up to 12 analyses of 13 kinds.'),
'C17': ('generated state machines: reported transitions against an interpreter of the generated statements for all states and '
        'input values, loops against an exact enumeration of elementary cycles',
        'Random search over encodings, guards, reset and process styles; every state with up to 48 values of the other signals.'),
'C18': ('generated guarded assignments next to state machines: reported states and conditions against an interpreter of the '
        'generated statements',
        'Random search over designs and questions; every state with up to 48 values of the other signals.'),
'C23': ('differential testing: generated designs and the code of their terms and bindings, flattened into one module, simulated side by '
        'side by Icarus Verilog',
        'Random search over designs and stimuli, for all bindings, the entire design as a subset, and subsets of requested signals.'),
}
