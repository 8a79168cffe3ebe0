"""The properties as text (written to properties.jsonl by gen.py)."""
S = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    S.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})


TOK, MOD, LAT, PRO, LIB = "src/tokenizer.rs", "src/model.rs", "src/lattice.rs", "src/processor.rs", "src/lib.rs"

p("C01", "Encoding then decoding returns the text",
  "Whatever tokenizer has a base vocabulary that covers every byte and no lossy processor, decoding the ids produced by encoding a text returns exactly that text when special tokens are included. This holds for every text (empty, multi-byte characters cut by tokens, texts that contain special tokens), for every dropout value, for encoding with special tokens interpreted or taken as ordinary text, and after any additions of tokens.",
  ["inputs", "configurations", "histories"], "for all texts, all vocabularies covering the bytes, all special tokens, all dropout values and draws, all earlier additions of tokens",
  "The tests round-trip a handful of fixed sentences with one vocabulary and no special tokens; the guarantee is over all texts, vocabularies and random draws.",
  [TOK, MOD], [("split at special tokens, encode the pieces, map ids back", "src/tokenizer.rs encode/encode_ordinary/decode"), ("best segmentation and byte concatenation", "src/model.rs encode/decode")], ["Tokenizer::encode", "Tokenizer::decode"])
p("C02", "Encoding returns a best-scoring segmentation, or an error when there is none",
  "Without dropout, encoding a text returns ids whose token bytes concatenate to the text and whose total score is the greatest of all ways to write the text as a sequence of vocabulary tokens. If the text cannot be written with the vocabulary, encoding reports that there is no path instead of returning something else.",
  ["inputs", "configurations"], "for all texts, vocabularies (with gaps, long tokens, tens of thousands of entries) and finite scores",
  "One test compares a few hand-computed segmentations; optimality is a statement about all other segmentations of all texts under all scores.",
  [MOD, "src/trie.rs"], [("dynamic programming over prefix matches", "src/model.rs encode"), ("prefix search", "src/trie.rs common_prefix_search")], ["Model::encode"])
p("C03", "Dropout only removes choices, never produces a wrong encoding",
  "With any dropout value and any random draws, encoding a text either returns ids whose bytes are exactly the text or reports that there is no path, and it never fails when all single bytes of the text are in the vocabulary. A multi-byte token is left out, wherever it might be used, exactly when its draw falls under the given probability: dropout 0 gives the ordinary best segmentation; dropout 1 uses no multi-byte token; single bytes are never dropped.",
  ["inputs", "configurations"], "for all texts, all dropout values, all sequences of random draws",
  "The dropout test draws real random numbers a few hundred times on one sentence; rare combinations of drops are never reached.",
  [MOD, LAT], [("multi-byte tokens are skipped at random", "src/model.rs encode, populate_nodes")], ["Model::encode", "Model::populate_nodes"])
p("C04", "Special tokens are found exactly, and never inside ordinary encoding",
  "Encoding with special tokens splits the text at the occurrences of special tokens found left to right (the leftmost first and, of several starting at one place, the one listed first), maps each occurrence to its own id and encodes the stretches between them independently. Ordinary encoding never produces a special token id, and encoding always ends, whatever strings are special tokens.",
  ["inputs", "configurations"], "for all sets of special tokens (overlapping, prefixes of each other, multi-byte, empty) and all texts",
  "No test uses special tokens at all.",
  [TOK], [("search for special tokens between ordinary stretches", "src/tokenizer.rs encode"), ("ids above the base vocabulary", "src/tokenizer.rs special_token_to_id")], ["Tokenizer::encode", "Tokenizer::encode_ordinary"])
p("C05", "Decoding is total and exact on every list of ids",
  "Decoding any list of ids either returns the text formed by the tokens' bytes in order (special tokens included or left out as asked), or an error: an out-of-range id is reported as such and never causes a crash or is silently skipped. Each run of tokens between special tokens is decoded on its own; leaving special tokens out leaves out their text and changes nothing else.",
  ["inputs"], "for all lists of 32-bit ids, all token byte contents including incomplete characters",
  "Tests decode only ids that encoding has just produced.",
  [TOK, MOD], [("range checks on ids, lossy conversion", "src/tokenizer.rs decode; src/model.rs decode")], ["Tokenizer::decode", "Model::decode"])
p("C06", "Ids and tokens stay in one-to-one correspondence through every addition",
  "Ids run from 0 to the vocabulary size, base tokens first and special tokens after them; every id maps to a token, every distinct token maps back to its id, and the reported sizes agree with the listings. After any sequence of additions of base or special tokens this holds again, and a tokenizer built in steps behaves like one built at once.",
  ["histories", "inputs"], "for all sequences of additions, duplicates included, and all token contents",
  "Only the initial construction of one vocabulary is exercised by the tests.",
  [TOK, MOD, LIB], [("lookup tables extended on addition", "src/model.rs add_tokens; src/tokenizer.rs add_special_tokens, add_base_tokens")], ["token_to_id", "id_to_token", "vocab_size"])
p("C07", "Saving and loading restores the same tokenizer",
  "A tokenizer written to a file and loaded again has the same tokens byte for byte in the same order, the same flags, scores equal to within one unit in the last place, the same special tokens and the same processors in order, and hence encodes and decodes the same. Writing over a longer file leaves no remains of it.",
  ["inputs", "configurations"], "for all token contents (text, control characters, invalid UTF-8), finite scores, special tokens and processor lists",
  "One test serializes a few fixed tokens and never reads a whole tokenizer back.",
  [TOK, LIB, PRO], [("text or base64 form of a token", "src/lib.rs Serialize/Deserialize of ScoredToken"), ("file layout", "src/tokenizer.rs save, from_file, to_string")], ["Tokenizer::save", "Tokenizer::from_file"])
p("C08", "Loading a damaged or foreign file reports an error instead of crashing",
  "Loading a tokenizer from any bytes either succeeds with a usable tokenizer or returns an error; it never crashes or hangs. Documents that differ only in field order load the same; a missing or unknown version, an unknown field, an incomplete token entry, broken base64 or a truncated document is rejected, while absent special tokens, processors or vocabulary mean none.",
  ["inputs", "fault_sequences"], "for all single-byte changes, insertions, deletions, truncations and field permutations of a document",
  "No test loads a malformed document.",
  [TOK, LIB, PRO], [("version test and field checks", "src/tokenizer.rs Deserialize; src/lib.rs ScoredTokenVisitor; src/processor.rs visitors")], ["Tokenizer::from_str", "Tokenizer::from_file"])
p("C09", "The line-end processor turns every CRLF into LF and changes nothing else",
  "Preprocessing drops each carriage return that is directly followed by a line feed and keeps every other character, lone carriage returns included, in place and in order. Postprocessing leaves text unchanged.",
  ["inputs"], "for all texts, any length and any arrangement of line-end characters",
  "No test covers this processor.",
  [PRO], [("replacement", "src/processor.rs CrlfProcessor")], ["CrlfProcessor::preprocess"])
p("C10", "The Unicode processors produce the named normalization form",
  "Each of the four Unicode processors maps any text to exactly its named normalization form (NFC, NFD, NFKC, NFKD) of the Unicode standard; applying it twice gives the same as once; postprocessing returns text unchanged.",
  ["inputs", "configurations"], "for all texts and the four forms",
  "No test covers this processor.",
  [PRO], [("form selection", "src/processor.rs UnicodeProcessor")], ["UnicodeProcessor::preprocess"])
p("C11", "Processors run once, in order, on the text between special tokens",
  "Encoding with processors equals applying the processors, in their listed order, to each stretch of text between special tokens and encoding the result without processors; special tokens are searched in the unprocessed text. Ordinary encoding applies them to the whole text, decoding applies the reverse steps, and the batch functions do the same.",
  ["inputs", "configurations"], "for all processor sequences and texts, with and without special tokens",
  "No test builds a tokenizer with processors.",
  [TOK, PRO], [("fold over the processors", "src/tokenizer.rs encode, encode_ordinary, decode")], ["Tokenizer::encode", "Tokenizer::decode"])
p("C12", "Batch results equal one-by-one results, in input order, under every schedule",
  "Encoding or decoding a batch returns, in input order, exactly what encoding or decoding each item alone returns, and an error if and only if some item alone gives an error. This holds for every batch size, thread count and completion order.",
  ["schedules", "inputs"], "for all batches, all assignments of items to threads and all completion orders",
  "No test calls the batch functions.",
  [TOK], [("parallel map with ordered collection", "src/tokenizer.rs encode_batch, encode_ordinary_batch, decode_batch")], ["encode_batch", "decode_batch"])
p("C13", "The lattice yields the best path and the n best paths",
  "For any sentence and any set of scored candidate tokens, the best-path search returns a complete segmentation with the greatest total score, or nothing if the candidates cannot cover the sentence. The n-best search returns distinct complete segmentations in order of decreasing score, as many as exist up to n, and none that is left out scores higher than one returned.",
  ["inputs", "configurations"], "for all sentences, candidate sets (gaps and dead ends included), scores and n",
  "The lattice test is commented out in the source; nothing exercises n-best.",
  [LAT], [("Viterbi recursion", "src/lattice.rs viterbi"), ("A* over the reversed lattice", "src/lattice.rs nbest")], ["Lattice::viterbi", "Lattice::nbest"])
p("C14", "Expected token counts are the exact posterior expectations",
  "For any sentence and token probabilities, the expected count computed for each token is the sum of the weights of the segmentations containing it (with multiplicity) divided by the weight of all segmentations, added to what the caller has collected so far, and the returned value is the log of the total weight. Hence the expected counts cover every byte of the sentence exactly once.",
  ["inputs", "configurations"], "for all sentences, candidate sets and probabilities, including extreme ones",
  "No test computes a marginal.",
  [LAT], [("forward-backward recursion in log space", "src/lattice.rs populate_marginal, log_sum_exp")], ["Lattice::populate_marginal"])
p("C15", "Prefix search finds exactly the vocabulary tokens that start the input",
  "For any vocabulary and any input, prefix search returns each token that is a prefix of the input exactly once with its own id and length, from shortest to longest, and nothing else (of equal tokens, the one added last); additions to the vocabulary take effect immediately and leave earlier entries in place.",
  ["inputs", "histories"], "for all vocabularies of byte strings, all inputs and all sequences of insertions",
  "The trie has no test of its own; encoding tests touch a few paths.",
  ["src/trie.rs", MOD], [("byte trie", "src/trie.rs"), ("ids of matches", "src/model.rs common_prefix_search")], ["Model::common_prefix_search"])

CLI, FIL, GEN, MER, MIN, PRU, REG = "src/cli.rs", "src/filter.rs", "src/generate.rs", "src/merge.rs", "src/mine.rs", "src/prune.rs", "src/regex.rs"
p("C16", "Filtering removes only the worst unprotected low-scoring tokens",
  "Filtering a vocabulary down to a size with a minimum score removes exactly as many tokens as needed, taking them only from tokens that score below the minimum and are not marked to be kept (unless forced), lowest scores first. Every other token stays with its bytes, score and mark, and nothing is removed when the vocabulary is small enough, when no minimum is given or when all tokens are protected. Ids after filtering follow the order of decreasing score.",
  ["inputs", "configurations"], "for all vocabularies, scores (ties included), marks, target sizes, minimum scores, with and without force",
  "No test runs the filter.",
  [FIL], [("sort by score, drop from the end while over the size", "src/filter.rs VocabularyFilter::filter")], ["VocabularyFilter::filter", "tokengeex filter"])
p("C17", "Merging adds the most frequent allowed pairs, and always ends",
  "Merging leaves every existing token unchanged and adds at most the requested number of new tokens: in each round, the concatenations of the most frequent neighbouring pairs in the encoded samples that match the allow pattern, do not exceed the length limit and are not in the vocabulary yet, scored by the scaled sum of their parts. It counts over all samples whatever the number of threads and their order of completion, and it ends when enough tokens were added or no allowed pair is left.",
  ["inputs", "configurations", "schedules"], "for all vocabularies, samples, allow patterns, numbers of merges, steps, factors, limits and schedules",
  "No test runs the merger; endless loops need particular samples and step sizes.",
  [MER], [("pair counts over chunks in parallel, best pairs per round", "src/merge.rs ModelVocabularyMerger::merge")], ["ModelVocabularyMerger::merge", "tokengeex merge"])
p("C18", "Pruning keeps what must stay, drops the least useful, and always ends",
  "Pruning shrinks a vocabulary towards the target by removing, round by round, unmarked tokens whose loss costs the least likelihood, after re-estimating scores from the expected counts on the samples. Tokens marked to be kept stay, so every sample that these tokens alone can write can still be encoded; no token appears that was not there, and scores stay finite; the run ends at the target size or when nothing more may be removed, also with dropout, under every schedule. Samples that cannot be encoded give an error and leave the vocabulary as it was.",
  ["inputs", "configurations", "schedules"], "for all vocabularies with marks and scores, samples, targets, shrink factors, numbers of re-estimations, dropout draws and schedules",
  "No test runs the pruner; it combines floating-point statistics with tie-breaking and a loop whose end depends on the data.",
  [PRU, LAT, MOD], [("expectation and maximisation steps", "src/prune.rs run_e_step, run_m_step"), ("loss of each token against its best alternative", "src/prune.rs prune_vocab"), ("rounds", "src/prune.rs prune")], ["ModelVocabularyPruner::prune", "tokengeex prune"])
p("C19", "A generated vocabulary has all bytes, all listed tokens and the top candidates",
  "A generated vocabulary contains every single byte and every added token (marked to be kept) and the suggested tokens, and fills up to the requested size with the substrings of the samples that stay within one piece of the split pattern, match the allow pattern and the length limit, most frequent first by number of samples containing them, scored by the logarithm of their relative frequency. No token appears twice, and the outcome does not depend on how samples are divided over threads.",
  ["inputs", "configurations", "schedules"], "for all samples, patterns, listed tokens, limits, sizes, insert probabilities and draws, schedules",
  "No test runs the generator.",
  [GEN], [("candidate counts per sample, merged over chunks", "src/generate.rs VocabularyGenerator::feed"), ("bytes, added, suggested, then by frequency", "src/generate.rs generate")], ["VocabularyGenerator::generate", "tokengeex generate"])
p("C20", "Mining lists the idioms found in most samples",
  "Mining returns the texts matched by any of the patterns, scanning each sample from left to right without overlaps, with the number of their occurrences as the code counts them, the most frequent ones first and no more than requested. No idiom is listed twice and none of the most frequent is missing, under every schedule.",
  ["inputs", "configurations", "schedules"], "for all samples, sets of patterns, numbers of idioms and schedules",
  "No test runs the miner.",
  [MIN, REG], [("counts over chunks in parallel", "src/mine.rs IdiomMiner::mine")], ["IdiomMiner::mine", "tokengeex mine"])
p("C21", "Composed patterns accept exactly what their parts accept",
  "The allow pattern built from a list of patterns accepts a text exactly when one of the listed patterns matches the whole of it, also after it was written to a file and read back; the mining pattern finds what the first listed pattern matching at a place would find there. A name from the table of patterns stands for that pattern, anything else for itself, whatever alternatives, anchors or line ends it contains.",
  ["inputs", "configurations"], "for all lists of named and custom patterns and all texts",
  "The pattern test matches a few strings per named pattern, one at a time; composition and files are not tested.",
  [REG, CLI], [("anchored and grouped alternatives", "src/regex.rs build_allow_regex, build_mine_regex"), ("names and files", "src/cli.rs load_patterns, load_regex")], ["tokengeex regex"])
p("C22", "Commands read sources, processors and token lists faithfully",
  "The samples of a source are the pieces of its file between NUL bytes, without empty ones, limited to the requested leading share and run through the requested processors in order; every sample of every source reaches the command exactly once. Token lists are taken whole and in order, processor names mean the processors they name. Anything else (text that is not UTF-8, malformed descriptions, unknown names, missing files) stops the command instead of being skipped.",
  ["inputs", "configurations"], "for all file contents, source descriptions, shares, processor lists and token lists",
  "No test covers the command-line tool's inputs.",
  [CLI], [("file reading and splitting", "src/cli.rs load_sources"), ("names", "src/cli.rs load_processors"), ("lists", "src/cli.rs load_tokens")], ["tokengeex generate/merge/prune/mine"])
p("C23", "Reusing a lattice gives the results of a fresh one",
  "A lattice (or a node memory) used again for another sentence gives exactly the results a new one would, whatever sentences, vocabularies and queries it served before, including longer sentences, failed searches and sentences without any segmentation. Memory handed out is never shared between two users.",
  ["histories", "inputs"], "for all sequences of sentences and vocabularies processed with one lattice",
  "No test uses a lattice twice.",
  [LAT], [("buffers are cleared, nodes are pooled", "src/lattice.rs from, clear, VecPool")], ["Lattice::from", "VecPool"])
p("C24", "Commands write what their step computes and keep the rest of the tokenizer",
  "The commands that change a vocabulary store exactly the vocabulary their step computes from the samples as that tokenizer would process them, together with the processors and special tokens of the input in their order. Generating stores the requested processors and special tokens and all listed tokens; mining stores the idioms in order.",
  ["configurations", "inputs"], "for all tokenizers (processors, special tokens) and samples",
  "No test runs a command.",
  [CLI], [("load, change, store", "src/cli.rs generate_cmd, filter_cmd, merge_cmd, prune_cmd, mine_cmd")], ["tokengeex generate, filter, merge, prune, mine"])
p("C25", "Failed or partial file operations are never taken for success",
  "When opening, reading or writing a file fails, is interrupted or transfers only a part, saving and loading either complete correctly or report an error; a tokenizer is never loaded from a part of its file, and after a failed save the file never loads as a different tokenizer. The commands likewise either end with their complete result stored or stop abnormally.",
  ["fault_sequences"], "for all sequences of failing, interrupted and short system calls on the files involved, up to a number of faults",
  "Tests never see a failing or short system call.",
  [TOK, CLI], [("whole-file reads and writes with errors passed on", "src/tokenizer.rs save, from_file"), ("errors stop the command", "src/cli.rs")], ["Tokenizer::save", "Tokenizer::from_file", "tokengeex commands"])
p("C26", "The Python module behaves like the library",
  "Every function of the Python module gives the value the library gives for the same arguments, and turns every library error (including failures to write a file) into a Python exception with the library's message. A pickled tokenizer, once unpickled, is the one that was pickled, and a rejected state changes nothing. The module offers the tokenizer class and the exception it raises.",
  ["inputs", "histories", "fault_sequences"], "for all arguments, tokenizers, additions of special tokens and failing file operations",
  "The module has no tests; its build is checked only for compiling.",
  ["bindings/python/src/lib.rs"], [("thin wrappers, conversion of errors", "bindings/python/src/lib.rs")], ["tokengeex.Tokenizer (Python)"])

p("C27", "Every command-line option reaches its step, with the documented defaults",
  "Running the command-line tool hands every given option, and the default for every omitted one, to the step it names, in any order of options and in the short or long spelling. The defaults are: generate insert-probability 0.1 and max-token-length 24; prune dropout 0.01, shrink-factor 0.8 and em-subiters 1; merge num-merges 1000, step 50, scale-factor 0.9 and max-token-length 24; filter vocab-size 0, no minimum score and no force. Options that may be repeated (sources, patterns, processors, special tokens, token lists) accumulate in the given order. `regex` without an output file only lists the named patterns, and the command the README gives for the exact pattern builds a pattern that accepts what data/exact.regex accepts. A command line that does not fit (unknown or missing options, values that are no numbers) stops before any file is read or written.",
  ["inputs", "configurations"], "for all subsets, orders, repetitions and values of the options of every command",
  "No test runs the binary; crossed or dropped options still compile and change only the numbers a step works with.",
  [CLI], [("declaration of the command line, one arm per command", "src/cli.rs main, flags"), ("defaults", "src/cli.rs unwrap_or of the options")], ["tokengeex generate, filter, merge, prune, mine, regex"])

NA = {}
