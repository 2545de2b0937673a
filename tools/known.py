BY_MSG = {'non-constructive discopy': 'P09', 'mixed discopy scalar': 'P09', 'after the last open wire': 'P25', 'without boxes and wires can be drawn': 'P25', 'frames but without outputs': 'P25', 'swaps in diagrams with frames': 'P25', 'frames with empty components': 'P25', 'frames without components': 'P25', 'symbols of matplotlib equations': 'P25', 'wires start under their types': 'P22', 'with use_ascii are ASCII': 'P22', 'words of discopy that were rotated': 'P09', 'a stored mode is used': 'P24', 'an ansatz without options': 'P24', 'names an image type': 'P24', 'an empty list of rewrite rules': 'P24', 'an output given with stored': 'P24', 'root categories are used': 'P24', 'start with a sentence that mentions no noun': 'P23', 'an added noun is not taken': 'P23', 'mentions of a pruned noun': 'P23', 'pruned and not their namesakes': 'P23', 'wires of missing arguments': 'P23', 'add a layer to the sandwich': 'P23', 'swaps in tree2diagram act': 'P16', 'cycles can be broken when the root': 'P16', 'caps in any position are followed': 'P16', 'from JSON data leaves': 'P04', 'daggered words can be read': 'P04', 'frames with any kind of component': 'P04', 'empty CCG type can be': 'P04', 'malformed bracket in a CCG': 'P04', 'lambdifying with some': 'P10', 'cached contraction paths': 'P10', 'boxes with scaled symbols': 'P10', 'comparing daggered gates': 'P10', 'rotations by numbers': 'P10', 'of any distance have arrays': 'P10', 'distance of a controlled gate have': 'P10', 'quantum boxes stay mixed': 'P10', 'nodes with traced edges': 'P10', 'gates with several controls': 'P10', 'array of symbols': 'P10', 'ChartParser': 'P13', 'Tagger': 'P14', 'CCGBankParser': 'P14', 'WebParser': 'P14', 'DepCCGParser': 'P14', 'lambdifying a rotated': 'P10', 'circuit without boxes': 'P11', 'Rewriter': 'P15', 'SimpleRewriteRule': 'P15', 'currying and collapsing': 'P15', 'SPSA': 'P20', 'Rotosolve': 'P20', 'NelderMead': 'P20', 'early stopping counts': 'P18', 'failed checkpoint save': 'P19', 'resumed training run': 'P19', 'resuming an early-stopped': 'P19', 'NumpyModel drops compiled': 'P19', 'PennyLane': 'P08', 'CCG tree': 'P12', 'crossed composition': 'P12', 'unary rules': 'P12'}
KNOWN = [
 {'property': 'P07', 'status': 'known', 'key': 'export:ValueError:swap of bits together with a post-selection',
  'what': 'to_tk of a circuit that post-selects a qubit and swaps classical bits, e.g. Ket(0,0,0) >> Id(1) @ Bra(0) @ Id(1) >> Measure() @ Measure() >> Swap(bit, bit): '
          'to_circuital raises ValueError (its layers are rebuilt on bits it expects to be qubits) although the circuit is expressible'},
 {'property': 'P20', 'status': 'known', 'key': 'nm:step:absent-set-to-zero',
  'what': 'NelderMeadOptimizer.step sets the weights of the parameters that do not occur in the batch to zero (NelderMeadOptimizer.backward: '
          'self.gradient = self.sim[0] * mask) instead of leaving them alone; tests/training/test_nelder_mead_optimizer.py pins the zero, so it is not repaired'},
 {'property': 'P11', 'status': 'known', 'key': 'split:shared-by-split-words',
  'what': "MPSAnsatz and SpiderAnsatz name the pieces of a box that is too large by the word and the piece's own type, so a word used with two types "
          "shares parameters between them, e.g. SpiderAnsatz: Word('eats', n.r @ s) and Word('eats', n.r @ s @ n.l) both use eats_0__n.r@s. "
          'Not repaired: the names identify the weights of saved models'},
 {'property': 'P09', 'status': 'known', 'key': 'meaning:conjugated-box',
  'what': 'a tensor or quantum box rotated an odd number of times, e.g. tensor.Box("f", Dim(2), Dim(3), data).l, is the conjugate (reversed) box in lambeq, while '
          'discopy reads its winding as a transposition (tensor) or ignores it (quantum gates such as T.r): to_discopy keeps the winding, so the evaluations differ. '
          'Not repaired: tests/backend/converters/discopy pin that the winding is kept'},
 {'property': 'P25', 'status': 'known', 'key': 'frame:covers-wire-from-same-box',
  'what': 'a frame on one output of a box is drawn over the wire of the next output of that box, e.g. Box("b", n @ n, n @ n) >> Frame("F", n, n, components=[c, e]) @ n: '
          'DrawableDiagramWithFrames._make_space_for_frame moves aside only what does not share an ancestor with the frame. Not repaired: it needs another layout of diagrams with frames'},
]
