TLCNOTE = ('TLC decides every verdict on records of what the real code answered; trusted: TLC, the JSON projection in vlib/, '
           'the drivers that choose inputs. Bounded: exhaustive over the small sets named in DESIGN.md, seeded sampling beyond. ')
CLAIMED = {
 'P01': ('TLA+ state machine of the diagram algebra; recorded operation histories validated by TLC; laws model-checked',
         TLCNOTE + 'All pairs from 22 generators, all type constructors on 12 types, all permutations to width 4, 600 random histories.'),
 'P02': ('TLA+ wiring semantics and model-checked rewriting system; recorded normalisations validated by TLC', TLCNOTE),
 'P03': ('TLA+ specification of structure-preserving maps; recorded functor call histories validated by TLC', TLCNOTE),
 'P05': ('TLA+ exact Gaussian-integer tensor semantics; recorded evaluations validated by TLC', TLCNOTE + 'Wires of dimension 1..3, at most 5 wires.'),
 'P06': ('TLA+ exact semantics over Z[omega]/sqrt2^k; recorded simulations validated by TLC', TLCNOTE + 'Clifford+T and quarter-turn angles, up to 4 wires; answers compared to 1e-5.'),
 'P07': ('TLA+ machine of tket command lists with exact semantics; recorded exports/imports validated by TLC', TLCNOTE + 'Up to 4 wires; angles on the pi/4 grid.'),
}
NOT_CLAIMED = {}
CLAIMED['P08'] = ('TLA+ exact semantics over Z[omega]/sqrt2^k; recorded PennyLane runs validated by TLC', TLCNOTE + 'Up to 4 qubits, default.qubit device; angles on the pi/4 grid, symbols with scales.')
CLAIMED['P12'] = ('TLA+ shift-reduce machine of CCG with wiring semantics, model-checked; every derivation it builds is replayed into the code, results validated by TLC', TLCNOTE + 'All derivations up to 3 words over two lexicons (8444, sampled in the quick tier), random ones to 9 words.')

CLAIMED['P18'] = ('TLA+ state machine of training runs, model-checked over all small schedules, which are replayed; recorded runs of the real trainers validated by TLC', TLCNOTE + 'Scripted stub, quantum and torch models; up to 6 data, 4 epochs.')
CLAIMED['P19'] = ('TLA+ state machine with crashes, failed saves and resumes, model-checked; every schedule replayed; resumed real runs validated by TLC against the uninterrupted run', TLCNOTE + 'Crashes before/after any callback or during any save; ten trainer/model/optimiser set-ups.')

CLAIMED['P15'] = ('TLA+ specification of every rule as wiring semantics, sentences model-checked under all rule lists and replayed; recorded rewrites validated by TLC', TLCNOTE + 'All rule lists to length 2 on model sentences, random histories of adding and applying rules beyond.')
CLAIMED['P17'] = ('TLA+ machine of what each reader builds; recorded readings validated by TLC', TLCNOTE + 'Sentences to 8 words, seeded configurations.')
CLAIMED['P20'] = ('TLA+ machines of the three optimisers, model-checked on integer landscapes, runs replayed; recorded runs validated by TLC', TLCNOTE + 'Dyadic landscapes checked in scaled integers; up to 3 parameters.')
CLAIMED['P11'] = ('TLA+ specification of the ansatz templates and compilation, all small configurations model-checked and replayed; recorded circuits and tensor networks of whole diagrams validated by TLC against exact values', TLCNOTE + 'Up to 5 qubits (3 with discards), quarter-turn parameters; integer tensors of dimension 1..6 per wire.')
CLAIMED['P13'] = ('TLA+ specification of the Bobcat chart, rules and scores; recorded charts, parses and rule applications validated by TLC', TLCNOTE + 'Small grammars, sentences to 6 words.')
CLAIMED['P14'] = ('TLA+ machine of batch reading, model-checked over all failure patterns to length 4, all replayed into every parser and reader; records validated by TLC', TLCNOTE + 'Neural models are replaced by table stubs; everything around them is real.')
CLAIMED['P21'] = ('TLA+ stack machine of backend selection, model-checked; all histories replayed and recorded histories validated by TLC', TLCNOTE + 'numpy, jax and pytorch.')
CLAIMED['P10'] = ('TLA+ memo machine of symbolic models, all short histories model-checked and replayed into the five kinds of model; recorded substitutions and predictions validated by TLC against exact values', TLCNOTE + 'Up to 4 qubits; quarter-turn weights; integer tensors; default.qubit and Aer.')
CLAIMED['P04'] = ('TLA+ store machine of objects and documents and TLA+ grammar of CCG categories, model-checked; all short histories and texts replayed, records validated by TLC', TLCNOTE + 'Histories to length 4 (7 on fixed routes), values of bounded depth.')
CLAIMED['P16'] = ('TLA+ semantics of pregroup sentences (running a diagram, following wires) and of trees, laws model-checked over all small trees, which are replayed; recorded conversions validated by TLC', TLCNOTE + 'All trees to 4 words over two types, random ones to 8; diagrams to 6 words with tangles, cycles and caps.')
CLAIMED['P22'] = ('TLA+ semantics of character drawings (following lines) against the wiring of the sentence, model-checked; all model sentences and random ones rendered, pictures validated by TLC', TLCNOTE + 'Sentences to 3 words with one swap exhaustively, random ones to 7 words.')
CLAIMED['P23'] = ('TLA+ specification of text circuits as steps on named wires, model-checked; all small texts replayed into the reader; recorded circuits executed by TLC step by step', TLCNOTE + 'Trees and clusters are given (no parser or coreference models here); texts to 4 sentences.')
CLAIMED['P24'] = ('TLA+ specification of option resolution and of the plan of a run, model-checked; runs of the real main with scripted parsers validated by TLC against the plan', TLCNOTE + 'Parsers and tokenisers are stubs; images are checked by type, not by content.')
CLAIMED['P09'] = ('TLA+ specification of the conversion as an identity and homomorphism; recorded conversions and evaluations by discopy validated by TLC against exact values', TLCNOTE + 'Diagrams to 6 wires; Clifford+T and quarter-turn angles.')
CLAIMED['P25'] = ('TLA+ specification of what a drawing means (a reader of pictures), model-checked on all small diagrams, which are replayed; recorded TikZ and matplotlib drawings validated by TLC', TLCNOTE + 'All diagrams up to 2 layers (3 thorough) on 3 wires, random ones to 8 layers; wires are taken as their end points (curves are not traced); quantum states, measurements and controlled gates are not read.')
