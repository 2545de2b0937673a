#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

G='lambeq/backend/grammar.py'
prop('P01','Diagram algebra builds exactly the prescribed, well-typed diagram',
 'Any sequence of diagram operations (sequential and parallel composition, left/right rotation, dagger, transpose, currying, slicing, permutation, and the cup/cap/swap/spider constructors) yields a well-typed diagram whose domain, codomain, box order, box offsets and wiring are the ones the operation prescribes, with rotations of types being anti-homomorphic and left/right rotation mutually inverse, and dagger an involution. '
 'Compositions whose types do not match are refused with an error instead of producing a diagram. No operation changes its operands.',
 ['inputs','histories'],'all finite sequences of operations over all diagrams and types (bounded: up to 4-step histories exhaustively from small generators, longer ones sampled)',
 'The tests compare a few dozen fixed expressions; the laws quantify over every composite diagram and every order of operations.',
 [G],[('Ty/Box/Layer/Diagram algebra',G+':128-1200'),('Cap/Cup/Swap/Spider constructors',G+':1407-1915')],
 observe=['dom/cod/layers of the returned diagram','exceptions'])
prop('P02','Normal forms preserve meaning and remove every removable snake',
 'Converting a diagram to snake-removed, normal or pregroup normal form never changes its domain, its codomain, the boxes it contains or which wire of which box is connected to which; swap removal for pregroup sentences keeps the words, their order and the output type. '
 'The result contains no cup-cap snake, applying the conversion again changes nothing, and the conversion terminates on every sentence diagram.',
 ['inputs'],'all rigid and pregroup diagrams with cups, caps, swaps and spiders (bounded sizes; histories of rewrite steps)',
 'Tests check a handful of sentences; correctness of offset bookkeeping depends on the interleaving of boxes, cups and caps in the layer order.',
 [G,'lambeq/backend/snake_removal.py','lambeq/rewrite/rewrite_diagram.py'],
 [('snake removal, interchange','lambeq/backend/snake_removal.py'),('pregroup_normal_form/normal_form',G+':1168-1243'),('RemoveSwapsRewriter','lambeq/rewrite/rewrite_diagram.py')])
prop('P03','Functors are structure preserving on every call, not just the first',
 'Applying a functor to a diagram gives the image of its boxes composed as in the diagram: identities, composition, tensor, adjoint types, daggers, rotations, cups, caps, swaps and spiders are all preserved, and the image of a diagram from A to B goes from the image of A to the image of B. '
 'A box whose image has the wrong type is rejected every time it is met, and the answer for a diagram does not depend on what the functor was applied to before or on what callers did with earlier results.',
 ['inputs','histories'],'all functors given on generators, all diagrams, all call histories on one functor object',
 'Tests apply fresh functors once to fixed diagrams; caching makes results history dependent.',
 [G],[('Functor cache and type check',G+':1977-2108')],[('ob_cache/ar_cache','memoised images',G+':2010')])
prop('P04','Serialisation round trips reproduce the same object',
 'Writing a grammar type, box, diagram (with every kind of box, including daggered words, frames and nested frames), CCG type or CCG derivation to JSON, to its string form where one is offered, or by pickling or deep-copying, and reading it back gives an equal object that behaves the same. '
 'Reading does not consume or alter the serialised data, so the same data can be read any number of times.',
 ['inputs','histories'],'all values of the serialisable classes; any order and number of dump/load steps',
 'Tests round-trip a few hand-written diagrams once each.',
 [G,'lambeq/text2diagram/ccg_tree.py','lambeq/text2diagram/ccg_type.py'],[('to_json/from_json',G),('CCGTree json','lambeq/text2diagram/ccg_tree.py'),('CCGType.parse/str','lambeq/text2diagram/ccg_type.py')])
prop('P05','Tensor diagrams evaluate to their categorical meaning',
 'Evaluating a tensor diagram returns exactly the multilinear map obtained by composing the maps of its boxes, where cups and caps are the (unnormalised) identity pairing in every dimension, swaps permute wires, spiders are copy tensors, dagger is the conjugate transpose and rotation the conjugate with mirrored wires. '
 'The result has the dimensions of the domain followed by those of the codomain, and equal diagrams up to snake or interchange moves evaluate equally.',
 ['inputs'],'all tensor diagrams with integer or Gaussian-integer boxes (bounded wires and dimensions 1..4)',
 'Tests evaluate a few two-dimensional examples; index order and dimension handling must be right for every shape.',
 ['lambeq/backend/tensor.py'],[('to_tn/eval','lambeq/backend/tensor.py')])
prop('P06','Circuit simulation agrees with gate-level quantum mechanics',
 'Simulating a circuit built from the provided gates, controlled gates (any nesting and distance), rotations, daggers, state preparations, post-selections, scalars, swaps, bits, encodings, measurements and discards gives exactly the state, matrix, probability table or channel that the mathematical definitions of these pieces give. '
 'Daggering or adjoining a circuit gives the conjugate transpose, and rewriting it to an equivalent circuital form leaves its meaning unchanged.',
 ['inputs'],'all circuits up to 4 qubits over Clifford+T plus rotations at multiples of a quarter turn (exact arithmetic), pure and mixed',
 'Tests compare a few fixed circuits; the meaning is determined by data, wire order, control distance and the mix of classical and quantum wires.',
 ['lambeq/backend/quantum.py'],[('gates/Controlled/Rotation','lambeq/backend/quantum.py'),('eval/to_tn/to_circuital','lambeq/backend/quantum.py')])
prop('P07','Conversion to and from tket preserves the circuit',
 'Exporting a circuit to tket and running the exported commands with its recorded post-selection, post-processing and scaling gives the same outcome weights as the original circuit; importing the exported circuit back gives a circuit with the same meaning. '
 'A gate that cannot be expressed is refused rather than dropped or altered.',
 ['inputs'],'all circuits of the exportable fragment, up to 4 qubits, with post-selections, measurements and discards in any position',
 'Tests export a handful of circuits; wire renumbering and post-selection depend on the order of preparations and effects.',
 ['lambeq/backend/converters/tk.py'],[('to_tk/from_tk','lambeq/backend/converters/tk.py')])
prop('P08','Conversion to PennyLane preserves the circuit',
 'Running the PennyLane version of a circuit gives the same (post-selected, optionally normalised) state or probabilities as simulating the circuit directly, for concrete and for symbolic parameters once values are supplied. '
 'This includes daggered gates, controlled gates, scalars and post-selection on any qubits.',
 ['inputs'],'all circuits of the supported fragment up to 4 qubits, with concrete or symbolic parameters',
 'Tests run a few fixed circuits.',['lambeq/backend/pennylane.py'],[('to_pennylane/PennyLaneCircuit','lambeq/backend/pennylane.py')])
prop('P09','Conversion to and from discopy is faithful',
 'Converting a grammar, tensor or quantum diagram to discopy and back gives an equal diagram, and the discopy version has the corresponding domain, codomain, boxes and meaning.',
 ['inputs'],'all diagrams of the convertible fragment',
 'Tests convert fixed examples.',['lambeq/backend/converters/discopy.py'],[('to_discopy/from_discopy','lambeq/backend/converters/discopy.py')])
prop('P10','Parameters: every symbol receives its own weight, in any order',
 'The free symbols of a diagram are exactly the symbols in its boxes; substituting or lambdifying symbols in any order replaces each symbol by the value given for it (scaled as written) and nothing else. '
 'A model built from diagrams predicts, for each diagram in the order given, what evaluating that diagram with the model weights would give, independently of which other diagrams are in the batch, of earlier calls, of just-in-time compilation or path caching, and without modifying the diagrams.',
 ['inputs','histories'],'all sets of parameterised diagrams, weight vectors, batch orders and call histories (predict, change weights, save, load, predict)',
 'Tests predict on one or two diagrams with random weights and mostly check shapes.',
 ['lambeq/backend/symbol.py','lambeq/backend/tensor.py','lambeq/backend/quantum.py','lambeq/training/quantum_model.py','lambeq/training/numpy_model.py','lambeq/training/pytorch_model.py','lambeq/training/pytorch_quantum_model.py','lambeq/training/pennylane_model.py','lambeq/training/tket_model.py','lambeq/training/tn_path_optimizer.py'],
 [('Symbol, lambdify','lambeq/backend/symbol.py'),('_fast_subs','lambeq/training/quantum_model.py'),('jit cache','lambeq/training/numpy_model.py'),('path cache','lambeq/training/tn_path_optimizer.py')])
prop('P11','Ansatz conversion is compositional with stable, distinct parameters',
 'An ansatz maps every grammar diagram to a tensor network or circuit whose input and output sizes are the sums/products given by its type map, composing box by box along the diagram, with cups, caps, swaps and spiders becoming their semantic counterparts. '
 'Two occurrences of the same word with the same type share all their parameters, different words or types share none, and the number, naming, placement and gate pattern of parameters follow the documented template for the chosen ansatz and layer count.',
 ['inputs','configurations'],'all diagrams, all ansatz classes, all type maps 0..3 qubits / dims 1..4, layers and options',
 'Tests compare a few words for each ansatz.',
 ['lambeq/ansatz/base.py','lambeq/ansatz/circuit.py','lambeq/ansatz/tensor.py'],[('CircuitAnsatz family','lambeq/ansatz/circuit.py'),('TensorAnsatz family','lambeq/ansatz/tensor.py')])
prop('P12','CCG derivations become diagrams with the derivation\'s wiring',
 'Every CCG derivation whose rules are the supported combinators converts to a diagram with empty domain whose output is the type of the root category, whose words appear once each in sentence order with the types of their categories, and whose wires connect argument slots to the constituents the derivation combines them with; planar and non-planar output differ only in where swaps occur. '
 'A derivation with an unknown rule, a conjunction of nothing or a plain composition whose middle categories differ is refused; inferring the rule of a step gives a rule that licenses it whenever one does; dropping trivial unary steps changes nothing else.',
 ['inputs'],'all CCG derivation trees over the combinators and atomic categories (bounded depth)',
 'Tests convert about a dozen derivations.',
 ['lambeq/text2diagram/ccg_tree.py','lambeq/text2diagram/ccg_rule.py','lambeq/text2diagram/ccg_type.py'],[('CCGTree.to_diagram','lambeq/text2diagram/ccg_tree.py'),('CCGRule.apply/resolve','lambeq/text2diagram/ccg_rule.py')])
prop('P13','The chart parser returns a best valid derivation of the whole sentence',
 'For any lexicon of weighted word categories and any grammar, each derivation returned by the chart parser spans the whole sentence in word order, uses only the supplied categories and grammar-licensed combinations, ends in an allowed root category, and its score is the best among all derivations allowed by the configured limits; when no derivation exists a failure is reported rather than a tree.',
 ['inputs','configurations'],'all sentences up to 6 words over small category sets, all score assignments and root restrictions',
 'Tests parse with a stub tagger on one or two sentences; optimality quantifies over all derivations.',
 ['lambeq/bobcat/parser.py','lambeq/bobcat/rules.py','lambeq/bobcat/lexicon.py','lambeq/bobcat/tree.py','lambeq/bobcat/grammar.py'],[('ChartParser, Chart, Cell','lambeq/bobcat/parser.py'),('Rules','lambeq/bobcat/rules.py')])
prop('P14','Batch processing keeps every result aligned with its own input',
 'Processing a batch of sentences returns exactly one result per input in input order, each equal to the result of processing that sentence alone, regardless of batch size, verbosity, or which other sentences are empty or fail. '
 'With exception suppression each failing sentence yields an empty result at its own position and never another sentence\'s result; without it, a failure is raised.',
 ['inputs','fault_sequences','configurations'],'all batches with any pattern of empty, failing and succeeding sentences, for every reader and parser, and the tagger',
 'Tests use batches with at most one failure in a fixed place.',
 ['lambeq/text2diagram/model_based_reader/base.py','lambeq/text2diagram/model_based_reader/bobcat_parser.py','lambeq/text2diagram/model_based_reader/oncilla_parser.py','lambeq/text2diagram/ccg_parser.py','lambeq/text2diagram/ccgbank_parser.py','lambeq/text2diagram/base.py','lambeq/bobcat/tagger.py'],
 [('validate_sentence_batch / insertion of None','lambeq/text2diagram/model_based_reader/base.py'),('sentences2trees','lambeq/text2diagram/model_based_reader/bobcat_parser.py'),('Tagger.parse','lambeq/bobcat/tagger.py')])
prop('P15','Rewriting changes only what the rules target, and preserves types',
 'Applying rewrite rules to a sentence diagram replaces exactly the words the rules target (by name, case-insensitively, and by type) with the wiring or factored form the rule documents, leaves every other word, its position and its connections untouched, and keeps the domain and codomain; words that match no rule are unchanged. '
 'Diagram-level rewriters (unifying codomains, removing cups, removing swaps, frames) preserve the sentence in the same sense, and rules added later take effect on the next call.',
 ['inputs','histories'],'all sentence diagrams, all subsets and orders of rules, all histories of adding rules and applying',
 'Tests rewrite one sentence per rule with a fresh rewriter.',
 ['lambeq/rewrite/base.py','lambeq/rewrite/rewrite_diagram.py'],[('Rewriter & rules','lambeq/rewrite/base.py'),('DiagramRewriters','lambeq/rewrite/rewrite_diagram.py')])
prop('P16','Pregroup trees and pregroup diagrams describe the same sentence',
 'Converting a pregroup sentence diagram to a pregroup tree records every word once at its position with the type it yields to its parent and exactly the head-dependent links given by the cups; converting a tree without cycles to a diagram gives a well-typed diagram with the words in order, the root type as output and one link per tree edge; and going from such a tree to a diagram and back returns the tree. '
 'Cycle removal leaves each word exactly once.',
 ['inputs'],'all trees up to 6 nodes (projective or not) and the pregroup diagrams they generate',
 'Tests use a fixed list of about ten sentences.',
 ['lambeq/text2diagram/pregroup_tree.py','lambeq/text2diagram/pregroup_tree_converter.py'],[('diagram2tree/tree2diagram/generate_tree','lambeq/text2diagram/pregroup_tree_converter.py')])
prop('P17','Readers encode every word once, in order, in the documented shape',
 'Each syntax-free reader (cups, stairs, spiders, tree and user-configured linear readers) turns any sentence into a diagram containing every word exactly once in order, with empty domain, the documented output type, and the documented composition shape (sequential chain, single spider, or the derivation tree).',
 ['inputs','configurations'],'all sentences up to 8 words and all reader configurations',
 'Tests use one or two sentences.',
 ['lambeq/text2diagram/linear_reader.py','lambeq/text2diagram/spiders_reader.py','lambeq/text2diagram/tree_reader.py','lambeq/text2diagram/base.py'],[('readers','lambeq/text2diagram/')])
prop('P18','Training visits each datum once per epoch and keeps truthful books',
 'In every epoch a training run processes every datum exactly once together with its own target, in batches of the configured size; losses, metrics, durations and evaluations are recorded once per step, epoch or evaluation as configured with correctly weighted averages, validation never changes the weights, and the best-model file always holds the weights at the best validation value so far. '
 'Early stopping halts exactly when the monitored value has not improved for the configured number of evaluations.',
 ['histories','configurations'],'all dataset sizes, batch sizes, epochs, evaluation intervals/modes, loss histories and early-stopping settings',
 'Tests run one or two configurations and check that lists are non-empty.',
 ['lambeq/training/trainer.py','lambeq/training/dataset.py','lambeq/training/quantum_trainer.py','lambeq/training/pytorch_trainer.py'],[('Trainer.fit','lambeq/training/trainer.py'),('Dataset.__iter__','lambeq/training/dataset.py')])
prop('P19','Resuming from a checkpoint equals never having stopped',
 'Interrupting training at any point and resuming from the last saved checkpoint with the same settings and seed continues from the last completed epoch and ends with the same weights, optimiser state, recorded histories, epoch/step counters and best-model file as an uninterrupted run. '
 'A saved model restores to the same symbols, weights and predictions, and a save that fails leaves the previous checkpoint usable.',
 ['crash_points','histories'],'all interruption points, sequences of several interruptions, and trainer/model/optimiser combinations',
 'Tests restore once after a clean finish and check lengths of lists.',
 ['lambeq/training/trainer.py','lambeq/training/checkpoint.py','lambeq/training/quantum_trainer.py','lambeq/training/pytorch_trainer.py','lambeq/training/spsa_optimizer.py','lambeq/training/nelder_mead_optimizer.py'],
 [('load/save checkpoint','lambeq/training/trainer.py'),('Checkpoint.to_file','lambeq/training/checkpoint.py')])
prop('P20','Optimisers perform their published update steps',
 'Each gradient-free optimiser updates the weights exactly by its published rule with its documented hyperparameter schedule (simultaneous perturbation, coordinate-wise sinusoidal minimisation, or simplex reflection/expansion/contraction/shrink), respects parameter bounds, leaves alone the parameters that do not occur in the batch, and reports the loss its rule prescribes. '
 'Saving and loading its state continues the same sequence of updates.',
 ['histories','inputs'],'all loss landscapes and step histories (piecewise integer/dyadic losses exactly; others within tolerance)',
 'Tests run one to three steps on one fixed model.',
 ['lambeq/training/spsa_optimizer.py','lambeq/training/rotosolve_optimizer.py','lambeq/training/nelder_mead_optimizer.py'],[('backward/step','lambeq/training/*_optimizer.py')])
prop('P21','The numerical backend selection is scoped and restored',
 'Code inside a backend selection always computes with the innermost selected backend, and on leaving the block, normally or by an exception, the previously selected backend is in force again, so datasets and evaluations outside are unaffected by any nesting of selections.',
 ['histories','fault_sequences'],'all nestings of selections, exits and exceptions',
 'Tests cover two nestings without exceptions.',
 ['lambeq/backend/numerical_backend.py','lambeq/training/dataset.py'],[('backend context manager','lambeq/backend/numerical_backend.py')])
prop('P22','Text rendering of a sentence shows the diagram\'s actual wiring',
 'The text rendering of a pregroup sentence diagram, in every character set and layout option, shows every word above its types in order, and tracing the drawn lines from each type leads to exactly the type it is connected to in the diagram or to the bottom as an output.',
 ['inputs','configurations'],'all pregroup diagrams with cups and swaps (bounded) and all printer options',
 'Tests compare a few golden strings.',
 ['lambeq/backend/drawing/text_printer.py','lambeq/text2diagram/ccg_tree.py'],[('PregroupTextPrinter','lambeq/backend/drawing/text_printer.py')])
prop('P23','Discourse circuits give each entity one wire threaded through its sentences',
 'The circuit produced for a text starts from one state per distinct retained entity, threads each entity\'s wire through exactly the sentence components that mention it in text order, has the retained entities as outputs, and does so with and without the sandwich form; pruned entities appear nowhere.',
 ['inputs'],'all small texts given as trees plus coreference clusters, all pruning options',
 'Tests use two or three texts.',
 ['lambeq/experimental/discocirc/reader.py','lambeq/experimental/discocirc/coref_resolver.py','lambeq/experimental/discocirc/pregroup_tree_rewriter.py'],[('text2circuit','lambeq/experimental/discocirc/reader.py')])
prop('P24','Command-line runs are equivalent to the library and replayable',
 'A command-line run produces what the corresponding library calls produce for each input sentence, writing it in the requested format to the requested place; storing the options of a run and loading them in a later run reproduces the run, with options given explicitly taking precedence. '
 'Contradictory options are refused before anything is written.',
 ['configurations','histories'],'all combinations of mode, reader, rewriting, ansatz, output options; store then load histories',
 'Tests exercise a dozen fixed command lines.',
 ['lambeq/cli.py'],[('main, validate_args, modules','lambeq/cli.py')])

prop('P25','A drawing shows the diagram, with nothing in the way of anything else',
 'Reading a drawing of a diagram (matplotlib or TikZ, plain, foliated or as a pregroup sentence, or as a term of an equation) along its lines gives back the diagram: every box is drawn once with its name, wires reach the boxes at the inputs and outputs, in order, that they have in the diagram, crossings, cups, caps and spiders join what they join, inputs come in at the top and outputs leave at the bottom. '
 'No box is drawn over another box or over a wire that passes it, no two wires run over one another; type labels stand at their wires, mirrored boxes lean to different sides, foliated drawings have a row for every box, words of a sentence stand in a row in their order, terms of an equation are kept apart by its symbols. A frame is drawn as a box holding, from left to right, drawings of its components (frames that share an ancestor with the wires beside them are out of scope). Every diagram can be drawn.',
 ['inputs','configurations'],'all diagrams and all drawing options that keep the scale, both backends; all diagrams of up to 2 (quick) or 3 (thorough) layers on up to 3 wires exhaustively, larger ones and sentences sampled',
 'The tests compare a few fixed drawings with stored text; where a box is put depends on all the boxes and wires placed before it.',
 ['lambeq/backend/drawing/drawable.py','lambeq/backend/drawing/drawing.py','lambeq/backend/drawing/tikz_backend.py','lambeq/backend/drawing/mat_backend.py'],
 [('placing boxes and wires','lambeq/backend/drawing/drawable.py'),('draw, draw_pregroup, draw_equation','lambeq/backend/drawing/drawing.py'),('backends','lambeq/backend/drawing/tikz_backend.py')],
 observe=['TikZ text','matplotlib artists'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
