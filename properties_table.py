# One entry per property; read by gen.py.

prop('V01', 'Vocabulary is a consistent bijection partitioned into classes',
     'Whatever vocabulary or class file is read, every word gets exactly one ID that maps back to it, the sentence-boundary and '
     'unknown-word tokens are always present, shortlist words come before the other words, and the classes partition the shortlist '
     'exactly as the file says. Unknown and out-of-shortlist words are looked up as the unknown-word token, and a file that lists a '
     'word twice is rejected.',
     ['inputs', 'configurations'], 'every vocabulary file (words, classes) within the bounds and every set of out-of-shortlist words',
     'Tests read one small vocabulary per format; the invariants must hold for every file, including ones that contain special '
     'tokens, duplicates and out-of-shortlist words.',
     ['theanolm/vocabulary/vocabulary.py', 'theanolm/vocabulary/wordclass.py'],
     [('file readers', 'theanolm/vocabulary/vocabulary.py:Vocabulary.from_file'),
      ('construction', 'theanolm/vocabulary/vocabulary.py:Vocabulary.__init__'),
      ('class membership lookup', 'theanolm/vocabulary/vocabulary.py:Vocabulary.get_class_memberships')],
     'word lists up to 3-4 entries, class numbers symbolic')

prop('V02', 'Class and unigram probabilities are normalised relative frequencies',
     'The membership probabilities of every class are non-negative and sum to one, and equal the weights of the class file or the '
     'relative frequencies of the training counts, with special tokens never getting zero probability. The unigram probabilities '
     'divide the out-of-shortlist mass by frequency and give class probabilities that sum to one.',
     ['inputs'], 'every assignment of counts and weights, including zero counts, unseen classes and words outside the vocabulary',
     'Tests use one table of counts; the normalisation has to hold for every table, including degenerate ones.',
     ['theanolm/vocabulary/vocabulary.py', 'theanolm/vocabulary/wordclass.py'],
     [('count based probabilities', 'theanolm/vocabulary/vocabulary.py:Vocabulary.compute_probs'),
      ('class creation from counts', 'theanolm/vocabulary/vocabulary.py:Vocabulary.from_word_counts'),
      ('normalisation', 'theanolm/vocabulary/wordclass.py:WordClass')],
     '4-7 words in 1-5 classes, counts and weights symbolic')

prop('V03', 'A saved vocabulary is restored exactly',
     'Writing a vocabulary to a model state and reading it back gives the same words, IDs, shortlist, classes, membership '
     'probabilities and unigram probabilities, also when the state already contains an earlier save. A state that lacks a part of the '
     'vocabulary is rejected with IncompatibleStateError.',
     ['inputs', 'histories'], 'every vocabulary layout and count table within the bounds, first and repeated saves',
     'Tests save one vocabulary once; a loss in any field for any layout changes the scores of a stored model silently.',
     ['theanolm/vocabulary/vocabulary.py'],
     [('save', 'theanolm/vocabulary/vocabulary.py:Vocabulary.get_state'),
      ('load', 'theanolm/vocabulary/vocabulary.py:Vocabulary.from_state')],
     '5-9 words, two class layouts, counts symbolic; HDF5 is an in-memory model, replays use h5py')

prop('V04', 'Corpus statistics count every token exactly once',
     'Word counts and word unigram and bigram counts computed from training files equal the number of occurrences in the '
     'sentences of the files, sentence boundaries included, whatever the line structure and the split into files.',
     ['inputs'], 'every text within the bounds: empty lines, repeated words, explicit sentence boundaries, several files',
     'Tests count one fixed text.',
     ['theanolm/vocabulary/statistics.py', 'theanolm/parsing/functions.py'],
     [('word counts', 'theanolm/vocabulary/statistics.py:compute_word_counts'),
      ('bigram statistics', 'theanolm/vocabulary/statistics.py:BigramStatistics')],
     '2 files, up to 5 tokens in all over a 4-token alphabet')

prop('B01', 'Sequential iteration returns the text exactly, padded and masked',
     'Every sentence of the input files is returned once per pass, in order, with sentence boundaries added, split at the maximum '
     'sequence length, with the correct word and file IDs, and padding exactly where the mask is zero. The reported number of '
     'mini-batches is the number returned, on every pass and no matter how much has been read before.',
     ['inputs', 'configurations', 'histories'],
     'every text, vocabulary ID assignment, batch size and maximum length within the bounds, several passes',
     'Tests iterate over one corpus with a couple of batch sizes.',
     ['theanolm/parsing/batchiterator.py', 'theanolm/parsing/linearbatchiterator.py', 'theanolm/parsing/scoringbatchiterator.py',
      'theanolm/parsing/functions.py'],
     [('mini-batch assembly', 'theanolm/parsing/batchiterator.py:BatchIterator'),
      ('sequential reading', 'theanolm/parsing/linearbatchiterator.py:LinearBatchIterator'),
      ('utterance parsing', 'theanolm/parsing/functions.py:utterance_from_line')],
     '2-3 lines of up to 4 words, batch size 1-3, maximum length none or 1-4, word IDs symbolic; up to 300 files')

prop('B02', 'A shuffled epoch is a permutation of the training data',
     'Each training epoch returns every sentence (of plain and gzip-compressed files) exactly once with its file ID, whatever order the random numbers give, in full '
     'mini-batches except the last, and parts of a split sentence in order. With sampling fractions, the requested fraction of each '
     'file is returned, without repetition unless more than the whole file is requested.',
     ['inputs', 'configurations', 'schedules'], 'every outcome of the random number generator, batch size, maximum length and sampling fraction within the bounds',
     'Tests see the orders one seed gives; a dropped or repeated sentence under another order is invisible to them.',
     ['theanolm/parsing/shufflingbatchiterator.py', 'theanolm/parsing/batchiterator.py'],
     [('order generation', 'theanolm/parsing/shufflingbatchiterator.py:ShufflingBatchIterator'),
      ('mini-batch assembly', 'theanolm/parsing/batchiterator.py:BatchIterator')],
     '4-5 lines in 2 files, all random outcomes of one or two draws')

prop('B03', 'Training data position survives a checkpoint',
     'Restoring the saved position of the training data, in a new process or in the one that saved it, continues with exactly the '
     'mini-batches that had not been returned, and the next epoch is a complete one.',
     ['histories', 'crash_points', 'inputs'],
     'every checkpoint position in an epoch, every amount of reading before the restore, every order, batch size and maximum length within the bounds',
     'Tests restore one position with one batch size.',
     ['theanolm/parsing/shufflingbatchiterator.py', 'theanolm/parsing/batchiterator.py'],
     [('save and restore', 'theanolm/parsing/shufflingbatchiterator.py:ShufflingBatchIterator.get_state, set_state')],
     '3 lines in 2 files, checkpoint after 0-5 mini-batches, batch size 1-3')

prop('L01', 'Lattice nodes are ordered topologically',
     'Whatever the numbering of the nodes, every node that can be reached from the initial node is processed exactly once and after '
     'all its predecessors, earliest first when node times are known, and a lattice that has a cycle is rejected instead of being '
     'processed partially.',
     ['inputs'], 'every graph on up to 4 (5) nodes, every node numbering given, symbolic node times',
     'Tests sort two hand-written lattices; decoding silently loses paths when a node comes too early.',
     ['theanolm/scoring/lattice.py'], [('topological sort', 'theanolm/scoring/lattice.py:Lattice.sorted_nodes')],
     'all acyclic graphs on 4 nodes and all graphs on 3 nodes; 5 nodes in the thorough tier')

prop('L02', 'SLF lattices are read and written without loss',
     'Reading an SLF file gives the nodes, times, links, words and header values of the file with all scores converted to natural '
     'logarithms, and writing a lattice and reading it back gives the same lattice, whatever characters the words contain and '
     'whichever scores are missing. A file whose number of links does not match its header, or that lacks the counts, the initial '
     'node, or an end of a link, has words both in nodes and links, or contains malformed fields is rejected with InputError.',
     ['inputs'], 'every score, time, scale, logarithm base and field-name style within the bounds; words with quotes, comment '
     'characters, blanks and backslashes', 'Tests read one lattice with plain words and natural logarithms.',
     ['theanolm/scoring/slflattice.py', 'theanolm/scoring/lattice.py'],
     [('reader', 'theanolm/scoring/slflattice.py:SLFLattice'), ('writer', 'theanolm/scoring/lattice.py:Lattice.write_slf')],
     '3-4 nodes and links, all scores symbolic')

prop('L03', 'Kaldi lattices are read and written without loss',
     'Reading a Kaldi text lattice gives its arcs with the costs negated into log probabilities, omitted weights as zero, epsilon '
     'words as null words, transition IDs preserved and the final weights as links to one final node; writing and reading back gives '
     'the same lattice; sentence boundary and back-off symbols and malformed lines are rejected.',
     ['inputs'], 'every cost, every combination of omitted weights, arc orders, epsilon arcs', 'Tests read one lattice.',
     ['theanolm/scoring/kaldilattice.py', 'theanolm/scoring/lattice.py'],
     [('reader', 'theanolm/scoring/kaldilattice.py:KaldiLattice'), ('writer', 'theanolm/scoring/lattice.py:Lattice.write_kaldi')],
     '3-4 states, all costs symbolic')

prop('L04', 'Every lattice is processed by exactly one job',
     'When a set of lattices is divided into jobs, each lattice given on the command line or in a list file is read by exactly one of '
     'the jobs, in the given order; every lattice of a Kaldi archive is returned exactly once; job numbers out of range are rejected.',
     ['inputs', 'configurations'], 'every number of lattices up to 6, every number of jobs up to 4, archives with any separator layout',
     'Tests run one split.', ['theanolm/scoring/latticebatch.py'],
     [('division into jobs', 'theanolm/scoring/latticebatch.py:LatticeBatch')], 'up to 6 lattices and 4 jobs')

prop('D01', 'Decoding finds the best paths with exact scores',
     'Without pruning, decoding a lattice returns every word sequence of the lattice once, ordered by probability, and the score of '
     'each is exactly the acoustic score, plus the interpolated and scaled language model score, plus the word insertion penalty, of '
     'its best path. Recombination keeps the best of the paths that share their recent words.',
     ['inputs', 'configurations'], 'every link score, network probability, weight, scale and penalty; seven lattice topologies with '
     'every labelling from a pool, null links, missing and infinite scores',
     'Tests decode two lattices with fixed scores; an error in any score term changes which hypothesis wins only for some scores.',
     ['theanolm/scoring/latticedecoder.py', 'theanolm/backend/probfunctions.py'],
     [('token passing', 'theanolm/scoring/latticedecoder.py:LatticeDecoder.decode'),
      ('scores', 'theanolm/scoring/latticedecoder.py:LatticeDecoder.Token.recompute_total'),
      ('recombination', 'theanolm/scoring/latticedecoder.py:LatticeDecoder._sorted_recombined_tokens')],
     'lattices up to 4 nodes and 5 links; network = arbitrary table over histories')

prop('D02', 'Pruning only removes hypotheses outside the limits',
     'Beam and token-count pruning never lose a path all of whose prefixes are within the limits, keep at least one hypothesis, keep '
     'the best token of each node, respect the limits they are given, never tighten them below the absolute minima, and never return '
     'a path that is not in the lattice or a score that is not the score of the path.',
     ['inputs', 'configurations'], 'every set of token scores, best scores, node times, beam and limit',
     'Tests prune a few tokens at one node.',
     ['theanolm/scoring/latticedecoder.py'], [('pruning', 'theanolm/scoring/latticedecoder.py:LatticeDecoder._prune')],
     '3 tokens and 4 nodes in a step, 4-5 paths in a decode, all scores and the beam symbolic')

prop('D03', 'Unknown words are scored by the selected policy',
     'A word outside the shortlist or the vocabulary is scored as the unknown-word token, as its share of the out-of-shortlist '
     'probability, with the lattice score or with the penalty exactly as the options say; it appears in the result as it is in the '
     'lattice; and the class membership probability of every predicted word is included.',
     ['inputs', 'configurations'], 'every combination of options, word kinds and scores within the bounds',
     'Tests cover a couple of the option combinations with fixed scores.',
     ['theanolm/scoring/latticedecoder.py', 'theanolm/vocabulary/vocabulary.py'],
     [('unknown words', 'theanolm/scoring/latticedecoder.py:LatticeDecoder._handle_unk_logprob'),
      ('word prediction', 'theanolm/scoring/latticedecoder.py:LatticeDecoder._append_word')],
     'two words of every kind, all scores symbolic')

prop('D04', 'A rescored lattice keeps every path with its scores',
     'The lattice written after rescoring has exactly the word sequences of the original lattice when nothing is pruned; on each '
     'path the acoustic score and transition IDs are those of the original path, final weights included, and the language model '
     'score is the original one plus the network score, also for the paths that were recombined during decoding.',
     ['inputs', 'configurations'], 'every score of the lattice and the network; topologies with null links, final weights, unknown words '
     'and recombination', 'Tests compare one rescored lattice without recombination.',
     ['theanolm/scoring/rescoredlattice.py', 'theanolm/scoring/latticedecoder.py'],
     [('construction', 'theanolm/scoring/rescoredlattice.py:RescoredLattice')],
     'determinised lattices up to 7 nodes, recombination order none/1/2, all scores symbolic')

prop('D05', 'Interpolation of log probabilities is exact over the whole range',
     'Linear interpolation gives the logarithm of the weighted sum of the probabilities also where the probabilities underflow or are '
     'zero, log-linear interpolation gives the weighted sum of the log probabilities, and a component with zero weight is ignored even '
     'if it is infinite.',
     ['inputs'], 'every pair of log probabilities in [-5000, 0] or minus infinity and every weight',
     'Tests check a few values.', ['theanolm/backend/probfunctions.py'],
     [('linear', 'theanolm/backend/probfunctions.py:interpolate_linear'), ('log-linear', 'theanolm/backend/probfunctions.py:interpolate_loglinear')],
     'all values symbolic; log-linear and linear formulas over reals, underflow limit modelled')

prop('D06', 'theanolm decode applies its options and prints the best paths',
     'The decode command passes every scoring, unknown-word and pruning option to the decoder, converts the penalty and the printed '
     'scores to the requested logarithm base, prints the N best paths of each lattice best first with the right utterance ID and '
     'scores in the selected format, and writes rescored lattices with the scale, penalty and scores that were used. It works without '
     'a GPU.',
     ['inputs', 'configurations'], 'every option value within the bounds and every score',
     'Tests never run the command.',
     ['theanolm/commands/decode.py', 'theanolm/scoring/latticedecoder.py', 'theanolm/backend/gpu.py'],
     [('command', 'theanolm/commands/decode.py:decode'), ('output', 'theanolm/commands/decode.py:format_token')],
     'lattices with 1-4 paths, option values and scores symbolic, the network a free table')

prop('N01', 'A prediction depends only on the context it may use',
     'In every architecture without bidirectional layers, the output distribution at a position is a function of the words of the '
     'same sequence up to that position: it does not change when later words or other sequences of the mini-batch change. With '
     'bidirectional layers it does not change when the predicted word or other sequences change.',
     ['inputs', 'configurations'], 'every word and class ID and every value of the parameters, 13 architectures that cover all layer types',
     'Tests compare numbers for fixed weights; a leak of the target word makes training look good and every probability meaningless.',
     ['theanolm/network/*.py'],
     [('network graph', 'theanolm/network/network.py:Network.__init__'),
      ('recurrent layers', 'theanolm/network/lstmlayer.py, grulayer.py, bidirectionallayer.py'),
      ('convolution', 'theanolm/network/glulayer.py')],
     '13 architectures, 2 sequences of 3-4 words, layer sizes 1-4, parameters symbolic; sigmoid, tanh, exp uninterpreted')

prop('N02', 'Padding never changes a prediction',
     'The output distributions of a sequence are the same whether it is processed alone or in a mini-batch with other, longer or '
     'shorter sequences, whatever the padding contains.',
     ['inputs', 'configurations'], 'every padding content, word and class ID and every value of the parameters, 13 architectures',
     'Tests use masks of ones, or one mask with one padding value.',
     ['theanolm/network/*.py'],
     [('masking of recurrent states', 'theanolm/network/lstmlayer.py:LSTMLayer._create_step, grulayer.py'),
      ('backward pass over padded sequences', 'theanolm/network/lstmlayer.py, grulayer.py')],
     '13 architectures, mini-batches of 2 sequences of 1-3 words, parameters symbolic')

prop('N03', 'Stepwise evaluation equals mini-batch evaluation',
     'Feeding a sequence one word at a time, passing on the recurrent state (as decoding and sampling do), gives the same '
     'distribution at every step as processing the whole sequence at once, for several sequences combined in one batch.',
     ['inputs', 'histories', 'configurations'], 'every word and class ID, every value of the parameters, 10 architectures',
     'Tests never compare the two evaluation modes; a mismatch makes decoding use a different model from the one trained.',
     ['theanolm/network/network.py', 'theanolm/network/recurrentstate.py', 'theanolm/network/lstmlayer.py', 'theanolm/network/grulayer.py'],
     [('single step graph', 'theanolm/network/lstmlayer.py, grulayer.py'),
      ('recurrent state', 'theanolm/network/recurrentstate.py:RecurrentState')],
     '10 architectures, 2 sequences of 3 words, parameters symbolic')

prop('N04', 'The output is a probability distribution over the classes',
     'At every position the softmax output is positive and sums to one over the classes (hierarchical softmax: at most one), the '
     'probability reported for a target class is its entry of the distribution, the unnormalised log probability differs from the '
     'log probability by the same constant for every class, and an excluded <unk> has probability zero.',
     ['inputs', 'configurations'], 'every word, class and target ID and every value of the parameters',
     'Tests evaluate fixed weights; normalisation has to hold for all.',
     ['theanolm/network/softmaxlayer.py', 'theanolm/network/hsoftmaxlayer.py', 'theanolm/network/network.py'],
     [('softmax', 'theanolm/network/softmaxlayer.py:SoftmaxLayer'), ('hierarchical softmax', 'theanolm/network/hsoftmaxlayer.py:HSoftmaxLayer'),
      ('target probabilities', 'theanolm/network/network.py:Network.target_probs')],
     '3 architectures with and without <unk>, 2 x 2 mini-batches, parameters symbolic; exp is an uninterpreted positive function')

prop('N05', 'Every layer computes its documented function',
     'Projection, fully connected, highway, GRU, LSTM, bidirectional, gated convolution, addition and dropout layers compute exactly '
     'the functions they are documented to compute from all of their inputs. Dropout is the identity outside training; during '
     'training a unit is dropped independently at the requested rate and otherwise scaled so that its expectation is unchanged.',
     ['inputs', 'configurations', 'schedules'], 'every word and class ID, every value of the parameters and every outcome of the random number generator',
     'Tests check output shapes and a few numbers; a wrong gate or input order trains to a worse model without any failure.',
     ['theanolm/network/*.py'],
     [('layer graphs', 'theanolm/network/*layer.py:create_structure'),
      ('helper functions', 'theanolm/network/basiclayer.py:BasicLayer')],
     '25 layer configurations, mini-batches of 2 sequences of 1-3 words, layer sizes 1-5, parameters symbolic')

prop('N06', 'A model file restores the model exactly',
     'A model file written from a network and its vocabulary gives back the same architecture, vocabulary and parameter values, also '
     'when it was written over an earlier save, and the order of inputs and layers is kept whatever their number. Reading a state '
     'that lacks a parameter or that was made with a different architecture raises IncompatibleStateError.',
     ['inputs', 'histories', 'configurations'], 'every value of the parameters, 8 architectures, first and repeated saves, 16 pairs of differing architectures',
     'Tests save one small network; a lost or exchanged parameter or a silently accepted mismatch gives wrong scores only.',
     ['theanolm/network/network.py', 'theanolm/network/architecture.py', 'theanolm/backend/parameters.py'],
     [('network state', 'theanolm/network/network.py:Network.get_state, set_state, from_file'),
      ('architecture state', 'theanolm/network/architecture.py:Architecture'),
      ('parameter state', 'theanolm/backend/parameters.py:Parameters')],
     '8 architectures of layer sizes 1-4, parameters symbolic, up to 12 inputs; HDF5 is an in-memory model, replays use h5py files')

prop('N07', 'An architecture description gives the network it describes',
     'Every input and layer line of an architecture description becomes one input or layer of the network, in the order of the file, with '
     'exactly the options given, the layer inputs and devices in order and the sizes as numbers, whatever the order of the options and '
     'however many comments and empty lines there are; the last layer is the output layer, whose size is the number of classes. A '
     'description with an incomplete or unknown element, or without inputs or layers, is rejected with InputError, and so are (with an error) '
     'references to unknown layers and unknown layer types.',
     ['inputs', 'configurations'], 'every layer size, field order and combination of options within the bounds, 13 kinds of defect',
     'Tests read no description files; a dropped or reordered option gives a network that trains but is not the one requested.',
     ['theanolm/network/architecture.py', 'theanolm/network/network.py'],
     [('reading a description', 'theanolm/network/architecture.py:Architecture.from_description'),
      ('packaged architectures', 'theanolm/network/architecture.py:Architecture.from_package'),
      ('layers of the network', 'theanolm/network/network.py:Network.__init__, create_layer')],
     'descriptions of 1-2 inputs and 3 layers; sizes symbolic up to 100000 when only read, 1-4 when the network is built')

prop('S01', 'Text scores are exactly what the model assigns',
     'For every text, the text scorer gives each predicted word the log probability the network assigns to its class plus the log '
     'probability of the word within the class; padding is never scored; <unk> is handled by the selected policy (predicted, excluded, or '
     'its probability distributed to out-of-shortlist words by their unigram probabilities); a word of zero probability is left out. '
     'Perplexity is the exponential of the mean negative log probability over all scored words of all mini-batches, and a line score is '
     'the sum over its words and </s>. The perplexity of a text without scored words, or to which the network gives zero or no valid '
     'probability, is reported as an error.',
     ['inputs', 'configurations'], 'every network distribution, every combination of known, unknown, zero-probability and out-of-shortlist words, every policy',
     'Tests compare a few numbers for a fixed dummy network; special words and mini-batch boundaries are combinations they do not sample.',
     ['theanolm/scoring/textscorer.py'],
     [('word scores', 'theanolm/scoring/textscorer.py:TextScorer.score_batch, score_sequence'),
      ('totals', 'theanolm/scoring/textscorer.py:TextScorer.compute_perplexity, score_line')],
     'mini-batches of up to 2 sequences of up to 3 words, 7 kinds of word; network output symbolic, log uninterpreted')

prop('S02', 'theanolm score reports the scores of the words it prints',
     'The score command prints, for every line of the input in order, the words with their log probabilities in the requested base, the '
     'number of words and the perplexities that follow from them; utterance scores are line sums; subwords are merged into words whose '
     'score is the sum of their subwords. The options for unknown words, subwords and log base are honoured.',
     ['inputs', 'configurations'], 'every network distribution, every combination of words within the bounds, every option combination',
     'Tests check only the subword merging of a few sequences.',
     ['theanolm/commands/score.py', 'theanolm/scoring/textscorer.py'],
     [('score command', 'theanolm/commands/score.py:score'),
      ('text', 'theanolm/commands/score.py:_score_text'), ('utterances', 'theanolm/commands/score.py:_score_utterances'),
      ('subwords', 'theanolm/commands/score.py:_merge_subwords')],
     'texts of 1-3 lines with up to 3 arbitrary words; network output symbolic; log uninterpreted')

prop('S03', 'Sampled text follows the model distribution',
     'Text generated by the sampler starts with <s> and the seed, and each further word is drawn from the distribution that the network '
     'gives after all the preceding words of the same sequence: a class by the output distribution, then a word by its class membership '
     'probability. Seed words that the network does not know are read as <unk>.',
     ['inputs', 'schedules', 'configurations'], 'every outcome of the random number generators and every value of the network parameters',
     'No test covers the sampler; a wrong state or input still generates plausible text.',
     ['theanolm/textsampler.py', 'theanolm/vocabulary/vocabulary.py'],
     [('sampler', 'theanolm/textsampler.py:TextSampler.generate'),
      ('word of a class', 'theanolm/vocabulary/wordclass.py:WordClass.sample')],
     '3 architectures, 1-2 sequences of 2-3 tokens, with or without a seed word; parameters symbolic; random numbers are symbolic uniform reals')

prop('S04', 'theanolm sample prints the sentences sampled from the stored model',
     'theanolm sample restores the network and the vocabulary exactly as they are in the model file, samples the requested number of sentences of '
     'the requested length with the requested seed (or the documented defaults), and prints one sentence on each line up to and including '
     'the first </s>.',
     ['inputs', 'configurations'], 'every value of the parameters in the model file, every option value and every generated sentence',
     'No test runs the command.',
     ['theanolm/commands/sample.py'],
     [('command', 'theanolm/commands/sample.py:sample')],
     'one architecture with symbolic parameters, symbolic length and number of sentences, 0-2 generated sentences of at most 4 tokens')

prop('T01', 'Validations are evenly spaced and computed from the requested statistic',
     'During every epoch of training the validation set is evaluated as many times as requested (at most once per update), evenly spaced '
     'also when only a part of the training data is sampled on an epoch. Each validation cost is the chosen statistic (median by '
     'default) of exactly the perplexity samples measured around the validation point, and the candidate state is the one in the middle.',
     ['inputs', 'histories', 'configurations'], 'every sequence of perplexities; every number of updates, validations and samples within the bounds',
     'Tests check the schedule predicate of one configuration; intervals, epoch ends and sample counts combine in ways they do not sample.',
     ['theanolm/training/trainer.py'],
     [('schedule', 'theanolm/training/trainer.py:Trainer._is_scheduled, train'),
      ('validation', 'theanolm/training/trainer.py:Trainer._validate')],
     '1-15 updates in an epoch, 1-7 validations of 1-7 samples, 1-2 epochs; perplexities symbolic; the optimizer, network and scorer are recording stubs')

prop('T02', 'The best model found in training is the one kept',
     'With validation data the model file and the final state always hold the parameters of the validation with the lowest cost so far; after a '
     'validation that does not improve within the allowed patience the learning rate is halved and training goes back to that state; '
     'training stops exactly when the stopping criterion (epoch count, no improvement or annealing count) is met after the minimum '
     'number of epochs, or at the maximum. Without validation data the state at the end of training is kept.',
     ['inputs', 'histories', 'configurations'], 'every sequence of validation perplexities, every initial learning rate, every criterion',
     'The decisions depend on the order of all perplexities in a run; tests do not run the trainer.',
     ['theanolm/training/trainer.py', 'theanolm/training/stoppers.py'],
     [('training loop', 'theanolm/training/trainer.py:Trainer.train, _validate, _set_candidate_state, _decrease_learning_rate, _reset_state'),
      ('stopping', 'theanolm/training/stoppers.py')],
     'at most 26 updates and perplexities in 1-3 epochs of 1-7 updates; perplexities and learning rate symbolic; the optimizer, network and '
     'scorer are recording stubs')

prop('T03', 'Interrupted training continues from the saved model',
     'If training is interrupted at any point, the model file holds a complete consistent state, and training started again from it '
     'continues with the parameters, learning rate, epoch, position in the epoch, cost history and iterator order of that state, making '
     'the decisions the uninterrupted run would make from there.',
     ['crash points', 'histories', 'inputs'], 'every interruption point within the bounds and every sequence of perplexities',
     'Tests never interrupt training.',
     ['theanolm/training/trainer.py', 'theanolm/parsing/shufflingbatchiterator.py'],
     [('state', 'theanolm/training/trainer.py:Trainer.get_state, initialize, _set_candidate_state'),
      ('iterator position', 'theanolm/parsing/shufflingbatchiterator.py:ShufflingBatchIterator.get_state, set_state')],
     'interruption before any of the first 10 updates or perplexities, then at most 10 more; perplexities symbolic; interruption during the '
     'writing of the file itself is outside the bounds')

prop('T04', 'Optimizers apply their documented update rules',
     'Each optimization method (SGD, Nesterov momentum, AdaGrad, ADADELTA, RMSProp with and without Nesterov momentum, Adam) changes '
     'every parameter by its published rule from the gradient, learning rate and stored statistics; gradients are scaled down '
     'to the maximum norm when one is given; updates are scaled by the weights of the files that the sentences came from; saving and '
     'restoring the state of the optimizer in between changes nothing.',
     ['inputs', 'histories', 'configurations'], 'every gradient, parameter, learning rate, statistic and weight',
     'Tests compare no optimizer with its definition; a wrong accumulator only trains worse.',
     ['theanolm/training/*optimizer.py'],
     [('update rules', 'theanolm/training/*optimizer.py:_get_param_updates'),
      ('normalization and weights', 'theanolm/training/basicoptimizer.py:BasicOptimizer')],
     '1-3 updates of a network whose gradient has two nonzero elements; everything real-valued is symbolic; the cost is a linear stand-in '
     'that yields the symbolic gradient')

prop('T05', 'The training objective is the documented cost of the unmasked words',
     'The cost of a mini-batch is the mean over unmasked and unexcluded words of the negative log probability (cross-entropy), the '
     'noise-contrastive estimate or the BlackOut discriminative objective, plus the requested L1 or L2 term, also when a class is missing from the noise distribution; words outside the mask and '
     'excluded words have no influence. Noise classes are drawn from the noise distribution and shared as requested. One SGD update '
     'moves every parameter exactly against the gradient of that cost.',
     ['inputs', 'schedules', 'configurations'], 'every parameter value, every word, every outcome of the noise sampling',
     'No test evaluates the cost functions; a sign, normalisation or mask error still trains.',
     ['theanolm/training/cost.py', 'theanolm/network/network.py', 'theanolm/backend/classdistribution.py'],
     [('cost functions', 'theanolm/training/cost.py'), ('noise', 'theanolm/network/network.py:Network.noise_sample, set_sampling'),
      ('noise distributions', 'theanolm/backend/classdistribution.py')],
     'one projection + softmax network of layer size 1, 1-2 sequences of 1-2 words, 1-2 noise samples; uniform, log-uniform and unigram noise; exp and log '
     'uninterpreted')

prop('T06', 'theanolm train trains with the options given and the vocabulary it documents',
     'theanolm train passes every option it was given, and otherwise the documented default, to the training process, the optimizer, the cost '
     'function, the noise sampler and the validation; pads missing file weights with ones; rejects too many weights, sampling fractions or noise samples '
     'before training. The vocabulary is that of the model when it exists already, otherwise that of the vocabulary file or the words of the '
     'training text, with class membership and out-of-shortlist probabilities by the counts of the training text (or those of an SRILM class '
     'file), and is saved with the model. The validation text is read entirely, and the perplexity printed at the end is that of the best model.',
     ['inputs', 'configurations'], 'every numeric option value; every option given or not; every vocabulary source',
     'Tests construct the parts directly and never run the command.',
     ['theanolm/commands/train.py'],
     [('options', 'theanolm/commands/train.py:train, add_arguments'),
      ('vocabulary', 'theanolm/commands/train.py:_read_vocabulary')],
     '1-3 training files, options in groups of at most 4, symbolic numbers; text of 3 arbitrary words out of 4 in 2 files, 1 or 2 word classes')

prop('W01', 'Word class statistics and likelihoods are exact',
     'For every training text and assignment of words to classes, both word class optimizers (NumPy and Theano) report the log likelihood '
     'of the class bigram model, the class of every word and its class membership probability as defined by the counts; the evaluated change '
     'of a candidate move equals the difference of the log likelihoods; and after any sequence of moves all of these equal those computed '
     'from scratch.',
     ['inputs', 'histories'], 'every number of occurrences of the sentences (including words and classes that do not occur) and every move',
     'Tests use one text in which no count is zero and one move.',
     ['wordclasses/bigramoptimizer.py', 'wordclasses/numpybigramoptimizer.py', 'wordclasses/theanobigramoptimizer.py'],
     [('statistics', 'wordclasses/bigramoptimizer.py:BigramOptimizer._compute_class_statistics'),
      ('NumPy', 'wordclasses/numpybigramoptimizer.py:NumpyBigramOptimizer'),
      ('Theano', 'wordclasses/theanobigramoptimizer.py:TheanoBigramOptimizer')],
     '5 words in 3 classes (and the special tokens), subsets of 4 sentences repeated 1-9 times, up to 2 moves; log uninterpreted, exact arithmetic')

prop('W02', 'The exchange algorithm only makes the best improving move',
     'Offering a word for moving puts it in the class that increases the log likelihood of the training text most, or leaves it where it is '
     'exactly when no move increases it. Special tokens and the only word of a class stay, and no other word changes its class.',
     ['inputs', 'histories'], 'every number of occurrences of the sentences and every word offered',
     'No test runs the search.',
     ['wordclasses/bigramoptimizer.py', 'wordclasses/numpybigramoptimizer.py', 'wordclasses/theanobigramoptimizer.py'],
     [('search', 'wordclasses/bigramoptimizer.py:BigramOptimizer.move_to_best_class, _find_best_move')],
     '5 words in 3 classes, subsets of 3 sentences repeated 1-9 times, two words offered; log uninterpreted, exact arithmetic')

prop('W03', 'wctool runs to convergence and writes the classes it found',
     'wctool offers every word for moving once on an iteration, continues until an iteration makes no move, saves the classes the requested number of '
     'times on an iteration and at the end, and the output file then lists every word exactly once with its final class (and '
     'membership probability) in the requested format.',
     ['inputs', 'schedules', 'configurations'], 'every sequence of moves and non-moves within the bounds, every option combination',
     'No test runs the tool.',
     ['wordclasses/wctool.py', 'wordclasses/functions.py'],
     [('command', 'wordclasses/wctool.py:main, save'), ('schedule', 'wordclasses/functions.py:is_scheduled')],
     '7 words, at most 3 iterations with moves, 1-9 saves on an iteration; up to 12 words and 14 events for the schedule')
