"""The property table: writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (pid, len(title))
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = state
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


H = 'nephosem/core/handler.py'
TT = 'nephosem/models/typetoken.py'
TE = 'nephosem/core/terms.py'
UT = 'nephosem/utils.py'
VO = 'nephosem/core/vocab.py'
MX = 'nephosem/core/matrix.py'
MU = 'nephosem/specutils/mxutils.py'
MC = 'nephosem/specutils/mxcalc.py'
GR = 'nephosem/core/graph.py'
DM = 'nephosem/models/deprel.py'
DU = 'nephosem/specutils/deputils.py'
DB = 'nephosem/deprel/basic.py'
CB = 'nephosem/models/cbc.py'

prop('C01', 'Corpus processing gives the same result for every worker count and schedule',
     'For a given corpus and settings, the item frequency list, the collocate frequency matrix, the retrieved tokens '
     'with their contexts, and the dependency matrices are the same whatever the number of worker processes, '
     'whichever worker takes which file, and in whatever order the workers\' results arrive. No occurrence is lost, '
     'duplicated or attributed to another item, and no temporary file stays behind.',
     ['schedules', 'configurations'],
     'all interleavings of master and worker queue operations for 1..4 workers and 0..4 files, with idle workers, '
     'empty files and files without any hit',
     'A test run sees one schedule of the operating system; a lost or doubled result needs a particular assignment '
     'of files to workers and arrival order.',
     [H, TT, DM, MU], [('job queue and worker loop', H + ':Paralleler.process'),
                       ('merging of item counts', TT + ':ItemFreqHandler._process_results'),
                       ('merging of partial matrices', TT + ':ColFreqHandler._process_results'),
                       ('merging of tokens', TT + ':TokenHandler._process_results'),
                       ('merging of matched features', DM + ':DepRelHandler._process_results')],
     ['build_item_freq', 'build_col_freq', 'retrieve_tokens', 'build_dependency'],
     state=['job queue', 'result queue', 'temporary partial matrices'])
prop('C02', 'A worker that dies or cannot read a file is never silent and never hangs',
     'If a worker process is killed at any point, or one of the corpus files cannot be opened or decoded, or a file '
     'operation of master or worker fails, the operation ends with an error. It never blocks forever and never returns a result that is missing the '
     'contribution of some file as if it were complete.',
     ['fault_sequences', 'schedules', 'crash_points'],
     'every point at which one worker can be killed, queue and file operations included, in every interleaving, '
     'every position of an unreadable file in the corpus, and the failure of every single file operation',
     'Needs a fault injected at a particular point of a particular schedule; tests only run healthy workers.',
     [H, TT, DM], [('joining workers and checking how they ended', H + ':Paralleler.process')],
     ['build_item_freq', 'build_col_freq', 'retrieve_tokens', 'build_dependency'])
prop('C03', 'The item frequency list counts every annotated corpus line exactly once',
     'The frequency list of a corpus gives each item the number of corpus lines that the line pattern matches and '
     'whose configured columns form that item, over all files; nothing else occurs in it. Separator lines, markup and '
     'blank lines count for nothing, and column order, item format, file encoding and line endings are honoured.',
     ['inputs', 'configurations'],
     'all small corpora over a line alphabet of tokens, separators, markup and blank lines, and all combinations of '
     'the format settings',
     'Tests count one fixed corpus; boundary files and format combinations are not sampled.',
     [TT, TE], [('line matching and item formation', TE + ':CorpusFormatter'),
                ('counting', TT + ':ItemFreqHandler.update_one_file')],
     ['build_item_freq'])

prop('C04', 'Collocate frequencies are exact windowed counts within segment boundaries',
     'Each cell of the collocate frequency matrix is the number of pairs (occurrence of the row item, occurrence of '
     'the column item) in which the column item stands within the configured number of tokens to the left or right '
     'in the same segment of the same file, restricted to the row and column vocabularies given. A separator line '
     'ends a segment, other non-token lines are skipped, and every occurrence, including those at the edges of short '
     'segments, is counted exactly once.',
     ['inputs', 'configurations'],
     'all small corpora over tokens, separators and junk lines, all left and right spans up to beyond the segment '
     'length, all row and column vocabulary subsets, and all format settings',
     'The window code has special cases for segments shorter than the span, empty segments and zero spans that one '
     'sample corpus never combines.',
     [H, TT, TE], [('sliding window', TE + ':Window.update'), ('segment handling', H + ':BaseHandler.update_one_file'),
                   ('counting around a node', TT + ':ColFreqHandler.update_one_match'),
                   ('flushing the right window', TT + ':ColFreqHandler.process_right_window')],
     ['build_col_freq', 'TypeVectorizer.fit'], state=['window of the current segment'])
prop('C05', 'Token retrieval returns every occurrence once with its identity and context',
     'Retrieving tokens of a set of query types returns exactly one token for each occurrence of a query in the '
     'corpus, identified by its type, the file path relative to the corpus without extension and the line number, with the '
     'collocates on its left and right in text order, cut at the span and the segment boundary and filtered by the '
     'context vocabulary. The token matrix holds for each token and context word the signed distance.',
     ['inputs', 'configurations'],
     'all small corpora over tokens, separators and junk lines, all spans, query sets, context vocabularies, '
     'directory layouts and format settings',
     'An off-by-one at a segment edge or a wrong line number shows only for particular layouts.',
     [H, TT, TE, MU], [('token creation', TT + ':TokenHandler.update_one_match'),
                       ('flushing the right window', TT + ':TokenHandler.process_right_window'),
                       ('position matrix', MU + ':transform_nodes_to_matrix')],
     ['retrieve_tokens', 'token nodes'], state=['window of the current segment'])
prop('C06', 'The corpus processed is exactly the set of files selected',
     'The files processed are exactly those selected: the given list, or the paths listed in a file-names file '
     '(ignoring blank lines and comments, base names resolved in the corpus directory, suffix optional), or else '
     'every file below the corpus directory. Each selected file is processed exactly once per mention, and a missing '
     'file-names file is reported.',
     ['inputs', 'configurations'],
     'all small directory trees and all small file-names files over a line alphabet of paths, base names, comments '
     'and blank lines',
     'Tests always pass an explicit list of absolute paths.',
     [H, UT], [('selection', H + ':BaseHandler.prepare_fnames'), ('file-names file', UT + ':read_fnames'),
               ('directory walk', UT + ':read_fnames_of_corpus')],
     ['prepare_fnames', 'build_item_freq'])
prop('C07', 'Settings and inputs are never modified and calls are repeatable',
     'A settings file overrides the defaults key by key and span values become integers, without changing the '
     'defaults or any settings handed out earlier. Creating or running a handler or formatter leaves the caller\'s settings, vocabularies, '
     'queries and patterns unchanged, and any sequence of calls on the same or other handlers gives each call the '
     'result it would have had alone.',
     ['histories', 'configurations'],
     'all sequences up to a depth of handler constructions and calls sharing settings, vocabularies, queries and '
     'scratch directories; all small settings files',
     'State leaking between calls only shows in sequences of calls; every test builds fresh objects.',
     [H, TT, DM, 'nephosem/conf.py'], [('settings loading', 'nephosem/conf.py:ConfigLoader'),
                                       ('handler state', TT + ':TokenHandler'), ('copying settings', H + ':BaseHandler')],
     ['ConfigLoader', 'handlers'], state=['handler attributes', 'settings dictionary'])
prop('C08', 'Processing touches no files but its own temporaries and results',
     'Constructing or running a handler, and saving or loading a vocabulary or matrix, never deletes, changes or '
     'leaves behind any file other than the result asked for, whatever already lies in the home, temporary, output '
     'and corpus directories and however these are set. Without output or temporary directory in the settings the '
     'documented defaults are used.',
     ['histories', 'configurations'],
     'all layouts of pre-existing files in the directories involved, all ways to set the directories, all sequences '
     'up to a depth of handler constructions, runs, saves and loads',
     'Tests run in clean scratch directories and look only at the result.',
     [H, TT, MX, VO], [('temporary directory', H + ':BaseHandler.__init__'),
                       ('removing partial matrices', TT + ':ColFreqHandler._process_results'),
                       ('packing', MX + ':TypeTokenMatrix.save')],
     ['handlers', 'TypeTokenMatrix.save', 'TypeTokenMatrix.load', 'Vocab.save'], state=['files'])
prop('C09', 'Runs at the same time, or after a killed run, do not disturb each other',
     'Operations of two processes that share home, corpus, output and temporary directories give the same results as '
     'each of them alone, in every interleaving of their file operations. A run that is killed at any point leaves '
     'nothing behind that changes the result of, or makes fail, a later run, even one with the same process number; '
     'and no run deletes or overwrites files of another.',
     ['schedules', 'crash_points', 'histories'],
     'all pairs of operations, all points at which one is interrupted by the other, and all points at which the first '
     'is killed before the second starts; directories new, used or set in the settings',
     'Needs a second process between two file operations of the first, or the remains of a run that ended at one point.',
     [H, TT, UT, CB, 'nephosem/logging.py', MX],
     [('names of temporary directories', H + ':Paralleler.subtmpdir'), ('creating directories', UT + ':make_dir'),
      ('temporary and result directories of CBC', CB + ':CBC.cluster'),
      ('partial matrices', TT + ':ColFreqHandler._worker_loop_with_colvocab')],
     ['handlers', 'import nephosem', 'CBC.cluster', 'TypeTokenMatrix.save', 'TypeTokenMatrix.load', 'Vocab.save'],
     state=['files'])
prop('C10', 'A vocabulary behaves as a map from items to frequencies',
     'Under any sequence of construction, increments, assignments, selections by item, frequency, threshold, pattern, '
     'lemma or slice, copies and lookups, a vocabulary agrees with a plain mapping from items to frequencies: '
     'selections contain exactly the qualifying items with their frequencies, totals and sizes are right, frequency '
     'order is descending with ties alphabetical, and no selection or copy shares changes with its source.',
     ['histories', 'inputs'],
     'all operation sequences up to a depth over a small item alphabet, and all small vocabularies for each selection '
     'operation',
     'Aliasing between a selection and its source and tie handling need particular sequences.',
     [VO, UT], [('selection', VO + ':Vocab.__getitem__'), ('ordering', UT + ':sort_dict'),
                ('comparison operators', VO + ':Vocab.__gt__')],
     ['Vocab'], state=['frequency dictionary'])
prop('C11', 'Vocabulary files load back to the same vocabulary',
     'Saving a vocabulary and loading it with the same format and encoding gives the same items with equal '
     'frequencies, for both file formats and any item text the encoding can represent, also when an older file is '
     'overwritten. A saved list is ordered by descending frequency in the plain format, a file made for a list of types '
     'holds each of them with its frequency (0 if it has none), and the vocabulary itself is not changed by saving.',
     ['inputs', 'histories'],
     'all small vocabularies over items with non-ASCII text, spaces, quotes and slashes and integer or fractional '
     'frequencies, all formats and encodings, all save/load sequences up to a depth',
     'Tests save one ASCII vocabulary with integer counts.',
     [VO, UT], [('saving', VO + ':Vocab.save'), ('plain format', UT + ':save_dict_plain'),
                ('plain loading', UT + ':load_dict_plain')],
     ['Vocab.save', 'Vocab.load'])
prop('C20', 'Matrix selection keeps every value under its own row and column label',
     'For any sequence of submatrix, reorder, transpose, drop, drop-empty, sample, densify and copy operations on a '
     'labelled matrix, sparse or dense, the value found under a row and column label is the one the original matrix '
     'had under those labels; labels and shape follow the requested selection and order, and unknown labels are left '
     'out; zeros stored explicitly stay stored. Lookup by label, by index and by slice agree.',
     ['histories', 'inputs'],
     'all sequences up to a depth of selection operations from a set of small matrices, including single-row, '
     'single-column, empty-row and square ones with explicit zeros',
     'A label list that gets out of step with the data shows only for particular orders of operations.',
     [MX], [('label bookkeeping', MX + ':TypeTokenMatrix.submatrix'), ('reordering', MX + ':TypeTokenMatrix.reorder'),
            ('dropping', MX + ':TypeTokenMatrix.drop')],
     ['TypeTokenMatrix'], state=['matrix', 'row labels', 'column labels', 'label-to-index caches'])
prop('C21', 'Matrix arithmetic, masks, sums and equality follow cell-by-cell definitions',
     'Element-wise product, threshold masks, row, column and total sums, counts of non-zero cells, empty rows, '
     'concatenation and equality of labelled matrices give what the cell-by-cell definition gives, with the right '
     'labels. This holds for sparse matrices with explicitly stored zeros, single-row and single-column matrices and '
     'matrices with all-zero rows as well.',
     ['inputs'],
     'all matrices up to 2x2 (and selected 1xn, nx1, 2x3) over a small value set including explicit zeros, all '
     'thresholds around the values, all pairs for binary operations',
     'Storage details (explicit zeros, single rows) change the code path for equal mathematical content.',
     [MX], [('multiplication', MX + ':SparseMatrix.multiply'), ('thresholds', MX + ':SparseMatrix._operator_positive'),
            ('sums', MX + ':TypeTokenMatrix.sum'), ('equality', MX + ':TypeTokenMatrix.equal')],
     ['TypeTokenMatrix'])
prop('C22', 'Operations never modify their operands and results are independent copies',
     'No matrix, measure, weight, merge or selection operation changes the matrices or vocabularies it is given, and '
     'changing a copy, or a matrix built from given data and labels, does not change the object it came from.',
     ['histories', 'inputs'],
     'every public operation on every matrix of a set of small matrices, followed by every in-place change of the '
     'result or of an argument',
     'Aliasing is invisible until somebody changes one of the objects.',
     [MX, MU, MC], [('copying', MX + ':TypeTokenMatrix.__init__'), ('merging', MU + ':merge_matrices'),
                    ('measures', MC + ':compute_association')],
     ['TypeTokenMatrix', 'mxcalc', 'mxutils'], state=['matrix data', 'label lists'])
prop('C23', 'Saved matrices load back identical',
     'A matrix saved to a packed or unpacked file and loaded back has the same labels in the same order and the same '
     'value in every cell, whatever operation produced it and whatever storage it uses, also when files of an earlier '
     'matrix with the same name exist. Packing leaves no loose files behind, and loading leaves the stored file '
     'usable.',
     ['inputs', 'histories', 'configurations'],
     'all small matrices in every storage (sparse row, column, coordinate, dense, symmetric), with non-ASCII labels; '
     'all sequences up to a depth of save and load with the two layouts and the same or different names',
     'Tests save one matrix of one storage kind in a clean directory.',
     [MX], [('saving', MX + ':TypeTokenMatrix.save'), ('loading', MX + ':TypeTokenMatrix.load')],
     ['TypeTokenMatrix.save', 'TypeTokenMatrix.load'], state=['files in the directory'])
prop('C24', 'Merging matrices adds values cell by cell over the union of labels',
     'Merging matrices gives, for each pair of labels occurring in any of them, the sum of the values the matrices '
     'hold there, whatever the order of labels and the order and number of matrices. Conversion between nested '
     'dictionaries and labelled sparse matrices keeps every value, its type and its labels in both directions.',
     ['inputs'],
     'all pairs and triples of small matrices with equal, overlapping, nested and disjoint label lists in any order, '
     'with integer and fractional values',
     'The code takes different paths for equal, reordered and different labels; only one is tested.',
     [MU, MX], [('merging two', MU + ':merge_two_matrices'), ('merging many', MU + ':merge_matrices'),
                ('conversion', MU + ':transform_dict_to_spmatrix')],
     ['merge_matrices', 'TypeTokenMatrix.merge', 'transform_dict_to_spmatrix', 'transform_spmatrix_to_dict'])
prop('C25', 'Printed and tabular forms of a matrix show each value under its own labels',
     'The printed form of a labelled matrix, its data frame and a matrix made from a data frame have the labels in '
     'their order, as they are spelled, and under each pair of labels the value the matrix has there (in print to four '
     'decimals, and NaN for a cell a sparse matrix does not store), for every number of rows and columns asked for; '
     'rows and columns left out are marked as such. The description gives the real shape, number of stored cells and density.',
     ['inputs'],
     'all small matrices in every storage and number type, labels of every kind, all limits of rows and columns',
     'Which cell is shown wrongly depends on storage, limits and how the labels look; tests print nothing.',
     [MX], [('printing', MX + ':TypeTokenMatrix.print_matrix'), ('data frame', MX + ':TypeTokenMatrix.dataframe'),
            ('from a data frame', MX + ':TypeTokenMatrix.from_dataframe')],
     ['TypeTokenMatrix.print_matrix', 'str(TypeTokenMatrix)', 'TypeTokenMatrix.dataframe', 'TypeTokenMatrix.describe'])
prop('C30', 'Association measures equal their contingency-table definitions',
     'Every measure computed for a cell of a frequency matrix equals its definition on the two-by-two table given by '
     'the cell, the marginal frequencies supplied and the total, regardless of which other rows and columns are '
     'present and in which order. Positive PMI is PMI with negatives set to zero, the fast and the general '
     'computation agree, and cells without co-occurrence stay zero.',
     ['inputs'],
     'all two-by-two tables with small counts for every measure, all small matrices with their own or larger '
     'reference marginals, all row and column selections and orders',
     'Tests check PMI and PPMI on one matrix; swapped margins cancel out on symmetric data.',
     [MC], [('measures', MC + ':calc_association'), ('fast PPMI', MC + ':compute_ppmi'),
            ('margins', MC + ':compute_association')],
     ['compute_association', 'compute_ppmi', 'pairwise_association'])
prop('C31', 'Distances, cosines, similarity ranks and neighbours equal their definitions',
     'Cosine similarities and all supported distances between the rows (or columns) of a matrix equal their '
     'definitions under the right labels, with self-similarity one and self-distance zero. Similarity ranks number '
     'the items of each row consistently with the values in the requested direction, and the nearest neighbours of '
     'an item are the items with the best values, never the item itself.',
     ['inputs'],
     'all matrices of up to 3 rows over a small value set including zero rows and ties, both axes, all metrics, all '
     'orders and all neighbour counts',
     'Axis mix-ups and label mix-ups need asymmetric data; tests use one matrix.',
     [MC, MX, MU], [('distances', MC + ':compute_distance'), ('ranks', MC + ':compute_simrank'),
                    ('neighbours', MX + ':TypeTokenMatrix.most_similar')],
     ['compute_cosine', 'compute_distance', 'compute_simrank', 'most_similar'])
prop('C32', 'Token weights and vectors combine exactly the weights of the right context words',
     'The weight of a context word for a token is the weight of that word for the token\'s type if the word occurs '
     'in the token\'s context and zero otherwise. The vector of a token is the sum, weighted mean or product over '
     'its context words of weight times the word\'s own vector, normalised as asked, independently of label order '
     'and of the other tokens.',
     ['inputs', 'configurations'],
     'all small position matrices, type weight matrices and second-order matrices over small values, all operations '
     'and normalisations, all permutations of the intermediate labels',
     'No test covers token weighting or vectors at all.',
     [MC], [('weights', MC + ':compute_token_weights'), ('vectors', MC + ':compute_token_vectors'),
           ('older weights', 'nephosem/models/typetoken.py:build_tc_weight_matrix')],
     ['compute_token_weights', 'compute_token_vectors', 'build_tc_weight_matrix'])
prop('C40', 'Dependency pattern matching finds every embedding of a pattern exactly once',
     'Matching a tree pattern against a dependency sentence yields exactly the ways of mapping the pattern nodes to '
     'different words of the sentence such that every pattern edge is an arc with a matching relation and direction '
     'and every node matches its description; each way is found once and none is missed or invented. The result does '
     'not depend on word order or on other sentences.',
     ['inputs'],
     'all dependency trees up to a number of words over small label alphabets and all tree patterns up to a number '
     'of nodes, compared with brute-force search',
     'Subtree enumeration goes wrong on particular shapes (siblings with equal relations, gaps) that two hand-made '
     'examples do not contain.',
     [GR, DU], [('subtree enumeration and matching', GR), ('match collection', DU)],
     ['match_pattern', 'MacroGraph.match'], state=['sentence graph', 'pattern graph'])
prop('C41', 'Dependency features and targets are exact counts of the macro matches',
     'The dependency matrix counts, for each target and feature string defined by the macros, the number of matches '
     'in the corpus whose target is among the queries; a target or feature string is made of the words and relations '
     'matched at the places the macro names. In token mode each row is one occurrence identified by file and line '
     'number; macros, sentences, files and worker counts do not influence each other.',
     ['inputs', 'configurations'],
     'all small dependency corpora over a sentence set, all macro subsets, target vocabularies, and both modes',
     'No end-to-end test exists for dependency models.',
     [DM, GR, DU], [('handler', DM + ':DepRelHandler'), ('macro strings', GR + ':MacroGraph')],
     ['build_dependency'], state=['matched features'])
prop('C42', 'Dependency sentences are segmented and turned into the right graphs',
     'Reading a dependency corpus yields its sentences in order, without loss, merging or empty ones, whatever '
     'separators, markup and line endings stand between them. The graph of a sentence has one node per word with its '
     'attributes and one arc per head relation, and the root is the word whose head is outside the sentence.',
     ['inputs'],
     'all small corpus files over sentences, separators and junk lines, all head assignments up to a number of words',
     'Boundary layouts (no final separator, doubled separators) are not sampled by tests.',
     [DB, GR, 'nephosem/deprel/basic.py'], [('reading', DB + ':read_sentence'), ('graph building', GR + ':SentenceGraph')],
     ['read_sentence', 'SentenceGraph'])
prop('C43', 'Pattern and macro files are read as written',
     'Reading pattern and macro definitions gives, for each definition in the file, a pattern with the nodes, edges, '
     'conditions and identifiers written there, macros attached to the pattern they name, in any order of the '
     'definitions. Patterns written in the different notations for the same tree match the same sentences.',
     ['inputs'],
     'all small definition files over a grammar of nodes, edges and conditions',
     'Tests read two fixed files.',
     [DU, GR], [('template reading', DU)],
     ['PatternGraph.read_graphml', 'MacroGraph.read_xml', 'PatternGraph.read_csv'])
prop('C50', 'Clustering by committee returns valid committees, similarities and assignments',
     'Clusters of each word come from its nearest neighbours by average linkage, cut and scored as asked; of equal '
     'clusters one is kept, of nested ones the smallest. Every committee is kept or merged exactly once, with its most '
     'similar free partner when similar enough, and none is kept beside another as similar. A word joins the committee '
     'it is most similar to, only if similar enough, or is left over; none is lost. Committee vectors and similarities '
     'equal their definition. The result does not depend on the order or names of the words, the order of the matrix '
     'rows, or the processes used, beyond ties.',
     ['inputs', 'configurations'],
     'all small similarity structures over a few words and values, all thresholds around the values',
     'Tests run one data set with one threshold.',
     [CB], [('phases', CB + ':CBC')],
     ['CBC'], state=['committees', 'residues'])
prop('C60', 'Type and token objects and text utilities keep their information',
     'A type or token string parses into its parts and is printed back unchanged in any format; merging, sampling, '
     'saving and loading type objects keep every token with its identity and contexts exactly once. Concordance and '
     'query files contain one line per token or query with the parts in the documented places, and read back as '
     'written.',
     ['inputs', 'histories'],
     'all formats, all small token sets, all small query files over a line alphabet, all sequences of append, merge, '
     'sample, save and load up to a depth',
     'Tests construct single objects; combinations of merge, sample and save/load are not covered.',
     [TE, UT], [('type objects', TE + ':TypeNode'), ('token objects', TE + ':TokenNode'),
                ('concordance', UT + ':save_concordance'), ('queries', UT + ':read_word_queries')],
     ['TypeNode', 'TokenNode', 'save_concordance', 'read_word_queries'])

prop('C61', 'Saved objects come back complete and saving never changes them',
     'An object saved with SaveLoad is loaded with every attribute equal, whether attributes are pickled, stored in '
     'separate array files or compressed, in nested objects too; exactly the attributes asked to be ignored come back as '
     'None. The object in memory is the same after every save, also after one that failed part-way, and can be saved '
     'again in any other way.',
     ['inputs', 'histories', 'fault_sequences'],
     'all small objects, all choices of attributes to store apart or ignore, every file of a save failing, all histories '
     'of changes, saves and loads up to a depth',
     'No test covers it; failures in the middle of a save and mixed histories of saves need enumeration.',
     [UT], [('save and load', UT + ':SaveLoad')], ['SaveLoad.save', 'SaveLoad.load'],
     state=['attributes set aside during a save', 'separate files'])

prop('C70', 'The workflow from corpus to token distances gives what the definitions give',
     'Going through the documented steps on a corpus (frequency list, collocate matrix, association scores, tokens with '
     'bag-of-words contexts or with the words of a dependency relation, token weights, second-order vectors, distances) '
     'yields at every step the labels and values that follow from the definitions applied to the text of the corpus, whether '
     'an intermediate result is handed on in memory or saved and loaded again.',
     ['inputs', 'configurations', 'histories'],
     'all small corpora, all subsets of the intermediate results that go through files, all combinations of scores, '
     'operations, normalisations, metrics and queries',
     'Every part can look right alone while the parts disagree on labels, order, zeros or types of values; tests cover no '
     'chain of more than two steps.',
     [TT, MX, MC, MU, VO, DM], [('frequencies and tokens', TT + ':TokenHandler.retrieve_tokens'),
                                ('selection', MX + ':TypeTokenMatrix.submatrix'), ('scores', MC + ':compute_association'),
                                ('vectors', MC + ':compute_token_vectors')],
     ['compute_token_weights', 'compute_token_vectors', 'compute_distance', 'TypeTokenMatrix.load', 'Vocab.load'])

REASON = 'the check is not built yet'


def main():
    done = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'mc', 'checks')) if f[0] == 'c'}
    import re
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if pid not in done:
            na.append({'property': pid, 'reason': REASON})
            continue
        src = open(os.path.join(HERE, 'mc', 'checks', pid.lower() + '.py')).read()
        level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
        tech = re.search(r"^TECHNIQUE = \(?((?:\s*'[^\n]*'\n?)+)\)?", src, re.M)
        note = re.search(r"^NOTE = \(?((?:\s*'[^\n]*'\n?)+)\)?", src, re.M)
        checks.append({
            'property': pid,
            'quick_cmd': './check %s --tier quick' % pid,
            'thorough_cmd': './check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': ''.join(re.findall(r"'([^\n]*)'", tech.group(1))) if tech else DEFAULT_TECH,
            'level': level,
            'level_note': ''.join(re.findall(r"'([^\n]*)'", note.group(1))) if note else DEFAULT_NOTE,
        })
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks run the real code of /repo; no hooks are needed. See DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties,', len(checks), 'checks')


DEFAULT_TECH = ('explicit-state bounded model checking: exhaustive enumeration of all inputs / operation sequences '
                'within the stated bounds on the real code, compared step by step with a reference model')
DEFAULT_NOTE = 'exhaustive within the bounds recorded in the evidence file'

if __name__ == '__main__':
    main()
