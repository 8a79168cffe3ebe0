"""Which harnesses decide which property, with their bounds.

H(name, quick bounds, thorough bounds, **options); the crate and module are found
from the sources, the description is the harness's doc comment."""
import glob, os, re

HS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "hs")
WHERE = {}  # harness -> (crate, feature, doc, source lines)


def scan():
    for crate, pat in (("lib", HS + "/lib/src/*.rs"), ("cli", HS + "/cli/src/harness/*.rs"), ("py", HS + "/py/src/harness/*.rs")):
        for f in sorted(glob.glob(pat)):
            mod = os.path.splitext(os.path.basename(f))[0]
            doc = []
            for l in open(f, encoding="utf-8"):
                m = re.match(r"pub fn (h_\w+)\(", l)
                if m:
                    WHERE[m.group(1)] = (crate, mod, " ".join(doc), f)
                    doc = []
                elif l.startswith("///"):
                    doc.append(l[3:].strip())
                elif not l.startswith("#["):
                    doc = []


scan()


def H(name, quick, thorough=None, **kw):
    crate, mod, doc, src = WHERE[name]
    d = {"name": name, "crate": crate, "module": mod, "what": doc, "src": src, "bounds": [quick, thorough or quick]}
    d.update(kw)
    return d


ENGINE = [
    "the engine executes the LLVM IR that rustc and LLVM's -O2 pipeline produce from /repo's sources, linked with the real dependencies and the real standard library; the harness build uses panic=abort",
    "allocation never fails and addresses are assigned by a bump allocator",
    "solver models are re-checked by the engine's own evaluator; every counterexample and a sample of the explored paths are replayed natively against the real crate",
]
HASHC = "harnesses that put symbolic byte strings into hash maps run with all hash values equal (the maps must work whatever the hash function returns); the others run the real hash function"
RAYON = "the rayon crate is replaced by a stub whose collecting and reducing operations follow rayon's documented contract under any assignment of items to threads; data races are excluded by the compiler (no unsafe code in the crate)"
RAND = "the rand crate is replaced by a stub whose every draw is an arbitrary value of the documented range"

PROPS = {}


def prop(pid, harnesses, outside, assumptions=(), **kw):
    PROPS[pid] = dict(harnesses=harnesses, outside=outside, assumptions=list(assumptions) + ENGINE, **kw)


prop("C01", [
    H("h_rt_utf8", "any UTF-8 text of <=2 bytes, 256 single bytes + 9 tokens cutting characters, 2 special tokens", "<=3 bytes", reach=[1], secs=(120, 3000)),
    H("h_rt_utf8_4", "four-byte characters, lead and last byte symbolic", "all four bytes symbolic in range", reach=[1], secs=(120, 3000)),
    H("h_rt_special", "text <=4 bytes over 3 letters, two symbolic special tokens of 1-2 bytes", "text <=5, special tokens 1-3 bytes", reach=[1], secs=(120, 3000)),
    H("h_rt_dropout", "text <=4 bytes over 2 letters, any dropout value in eighths, every random draw", "text <=5", reach=[1], secs=(120, 3000)),
    H("h_rt_ordinary", "text <=4 bytes over 3 letters, two symbolic special tokens", "text <=5", reach=[1], secs=(120, 3000)),
    H("h_rt_history", "two additions of symbolic tokens with symbolic scores between round trips, text of 3", "text of 4", reach=[1], secs=(120, 3000)),
    H("h_rt_long", "lengths 1..257 around powers of two, symbolic letters at four positions", "lengths up to 1030", reach=[1], secs=(120, 3000)),
    H("h_rt_many", "3 to 256 characters of 2-4 one-byte tokens each, one symbolic letter", "up to 512", reach=[1], secs=(120, 3000)),
    H("h_rt_huge", "texts of 66000 bytes of 2-4 byte characters at every offset, a symbolic byte near the end", "300000 bytes", reach=[1], secs=(100, 1200)),
], "longer texts with several symbolic regions, vocabularies beyond the stated shapes, processors (C09-C11)", [HASHC, RAND])

prop("C02", [
    H("h_opt_struct", "two symbolic tokens of 2-3 bytes over 3 letters, two single letters, input <=4", "input <=5", reach=[1, 2], secs=(150, 3000)),
    H("h_opt_scores", "seven tokens with symbolic scores (quarters in [-16,2]), input <=4 over 2 letters", "input <=5", reach=[1], secs=(150, 3000)),
    H("h_opt_gaps", "two fixed and two symbolic tokens of 1-3 bytes without single-byte coverage, input <=6", "input <=7", reach=[1, 2], secs=(150, 3000)),
    H("h_opt_utf8", "14 byte-level tokens cutting characters, any UTF-8 input of 1-3 bytes", "1-4 bytes", reach=[1, 2], secs=(150, 3000)),
    H("h_opt_fine", "score differences of 2^-20 to 2^-44, near zero and after a long prefix", reach=[1], secs=(60, 60)),
    H("h_opt_huge", "texts of 66000 bytes, one symbolic letter at three places, against a search from the right", "300000 bytes, five places", reach=[1, 2], secs=(100, 1200)),
    H("h_opt_scales", "three vocabularies, scores scaled from 10^-300 to 10^300 and of either sign, input <=4", "input <=6", reach=[1, 2], secs=(100, 1200)),
    H("h_opt_long", "tokens of 15..257 and 1025 bytes, wanted and unwanted", "up to 70000 bytes", reach=[1, 2], secs=(150, 3000)),
    H("h_opt_bigvocab", "66000-entry vocabulary, 13 probe ids around 8/15/16-bit limits, symbolic byte", "140000 entries", reach=[1], secs=(150, 3000)),
    H("h_opt_two", "two models used in turn and a copy that grows: one symbolic score, a symbolic token, texts of 3 letters", "texts of 3-4", reach=[1], secs=(60, 600)),
], "scores outside the stated grids (NaN, infinities), inputs longer than stated", [HASHC])

prop("C03", [
    H("h_drop_any", "text <=4 over 2 letters, six tokens, dropout below 0, 0, (0,1), 1, above 1, every draw", "text <=5", reach=[1, 2, 3], secs=(200, 3000)),
    H("h_drop_nopath", "four tokens (two symbolic), text <=4, dropout in eighths of [0,1]", "text <=5", reach=[1, 2], secs=(200, 3000)),
    H("h_drop_independent", "four texts of 3-4 letters over eight tokens, every sequence of draws: every choice of uses to leave out comes about", "a text of 5 letters", reach=[1], secs=(60, 600)),
    H("h_drop_lattice", "text <=3, six tokens, dropout 0, (0,1), 1", "text <=4", reach=[1], secs=(200, 3000)),
    H("h_drop_rate", "probabilities in eighths, five constant draws around each, texts of 5-6 bytes", "texts of 5-8 bytes", reach=[1], secs=(100, 1200)),
    H("h_drop_long", "tokens of 2-1025 bytes after 0-66000 bytes of text, four constant draws, through encoding and through the lattice", "tokens of up to 4097 bytes", reach=[1], secs=(150, 1200)),
], "texts longer than stated, the distribution of random draws (only their range is used)", [HASHC, RAND])

prop("C04", [
    H("h_sp_split", "two symbolic special tokens of 1-2 bytes, text <=4 over 3 letters", "special tokens 1-3 bytes, text <=5", reach=[1, 2], secs=(150, 3000)),
    H("h_sp_utf8", "every set of up to three special tokens with multi-byte characters around 1 arbitrary byte", "2 arbitrary bytes of UTF-8", reach=[1, 2], secs=(150, 3000)),
    H("h_sp_order", "four overlapping special tokens in all 24 orders, text <=4", "text <=5", reach=[1, 2], secs=(150, 3000)),
    H("h_sp_many", "15-300 special tokens, all ids looked up, one symbolic byte", reach=[1, 2], secs=(100, 1200)),
    H("h_sp_long", "special tokens of 15-1500 bytes, one byte of the text symbolic at six places", reach=[1, 2], secs=(100, 1200)),
    H("h_pipe_huge", "special tokens across every place of a text of 66000 bytes", "300000 bytes", reach=[1], secs=(150, 1200)),
    H("h_sp_empty", "two special tokens of 0-2 bytes, text <=2", "text <=3", reach=[1], secs=(150, 3000)),
], "more than four special tokens, longer texts", [HASHC])

prop("C05", [
    H("h_dec_total", "<=3 ids in 0..=11 over 6 base and 3 special tokens", "<=4 ids", reach=[1, 2, 3], secs=(150, 3000)),
    H("h_dec_wide", "one of three ids anywhere in the 32-bit range", reach=[1, 2, 3], secs=(150, 3000)),
    H("h_dec_bytes", "token bytes arbitrary (1-2 bytes, and one in 0x7f..0xc4)", reach=[1], secs=(150, 3000)),
    H("h_dec_many", "lists of 31-5000 ids, one symbolic at three places", "66000 ids", reach=[1, 2, 3], secs=(100, 1200)),
], "longer id sequences", [HASHC])

prop("C06", [
    H("h_map_history", "two additions (base or special) of symbolic 1-2 byte tokens, maps checked after each", "three additions", reach=[1], secs=(150, 3000)),
    H("h_map_build", "three symbolic tokens split at every point between construction and addition, text <=3", reach=[1], secs=(150, 3000)),
    H("h_opt_two", "a copy that grows leaves the original alone, and the other way round", reach=[1], secs=(60, 600)),
    H("h_sp_many", "15-300 special tokens, every id looked up", reach=[1, 2], secs=(100, 1200)),
    H("h_opt_bigvocab", "ids around 16-bit limits in a 66000-entry vocabulary", "140000 entries", reach=[1], secs=(150, 3000)),
], "longer histories", [HASHC])

prop("C07", [
    H("h_ser_token", "tokens of <=2 arbitrary bytes", "<=3 bytes", reach=[1], secs=(150, 3000)),
    H("h_ser_b64", "non-UTF-8 tokens of 1-9 bytes, one symbolic byte", "1-40 bytes", reach=[1], secs=(100, 3000)),
    H("h_ser_text", "base64-looking text followed by 1-2 bytes of arbitrary UTF-8", reach=[1], secs=(100, 3000)),
    H("h_ser_scores", "24 hard-to-print scores, their neighbours and negations", "and six derived logarithms each", reach=[1], secs=(100, 3000)),
    H("h_ser_specials", "a special token of one arbitrary ASCII byte or 2 bytes of UTF-8", reach=[1], secs=(100, 3000)),
    H("h_ser_vocab", "three entries, one of 0-2 bytes with an arbitrary byte, duplicates allowed", reach=[1], secs=(100, 3000)),
    H("h_ser_procs", "every sequence of up to three of the five processors", reach=[1], secs=(100, 3000)),
    H("h_ser_behaves", "symbolic two-letter token, text <=3", "text <=4", reach=[1, 2], secs=(100, 3000)),
    H("h_ser_large", "255-1000 tokens", "up to 4097 tokens", reach=[1], secs=(100, 3000)),
    H("h_ser_long", "tokens and special tokens of 255-70000 bytes, 300 special tokens, one symbolic byte", reach=[1], secs=(100, 1200)),
    H("h_ser_overwrite", "a shorter tokenizer over a file 200 to 70000 bytes longer", reach=[1], secs=(60, 600)),
], "scores are finite and restored to within one unit in the last place (the JSON reader is not correctly rounding); the file system is modelled in memory", [HASHC])

prop("C08", [
    H("h_load_byte", "every position of a 250-byte document replaced by any ASCII byte", reach=[1, 2], secs=(150, 3000)),
    H("h_load_edit", "every insertion of one ASCII byte, every deletion of 1-7 bytes", "deletions up to 27 bytes", reach=[1, 2], secs=(200, 3000)),
    H("h_load_trunc", "every truncation, with one trailing byte", reach=[1], secs=(60, 600)),
    H("h_load_around", "any one or two bytes of text before or after a document", "three bytes", reach=[1, 2], secs=(60, 600)),
    H("h_load_version", "version strings of <=4 bytes in '-'..'3'", reach=[1, 2], secs=(60, 600)),
    H("h_load_fields", "all orders of the four fields, each missing in turn, an extra one anywhere", reach=[1, 2], secs=(60, 600)),
    H("h_load_token", "all orders of a token entry's fields, each missing in turn", reach=[1, 2], secs=(60, 600)),
    H("h_load_b64", "encoded values of <=8 characters, up to two (thorough: four) of them arbitrary; padding, white space or NUL before and after", reach=[1, 2], secs=(60, 1200)),
    H("h_load_escape", "any two hex-range digits of a unicode escape, with and without a following surrogate", reach=[1, 2], secs=(100, 1200)),
    H("h_load_long", "tokens of 1000 and 250000 bytes: no stack overflow on loading, copying or releasing", reach=[1], secs=(100, 600)),
], "documents with several simultaneous edits; nesting depth", [HASHC])

prop("C09", [
    H("h_crlf_small", "<=6 bytes in 0x0a..0x0d", "<=9 bytes", reach=[1], secs=(100, 2000)),
    H("h_crlf_utf8", "2 arbitrary UTF-8 bytes in nine contexts", reach=[1], secs=(100, 600)),
    H("h_crlf_long", "three symbolic bytes at every position of 72 bytes", "300 bytes", reach=[1], secs=(100, 2000)),
    H("h_crlf_many", "up to 300 line ends", reach=[1], secs=(100, 2000)),
    H("h_crlf_huge", "66000 bytes of line ends at both parities, last byte symbolic", "300000 bytes", reach=[1], secs=(100, 600)),
], "longer symbolic regions")

prop("C10", [
    H("h_uni_ascii", "one arbitrary ASCII byte in contexts of <=3 bytes, four forms", "<=4 bytes", reach=[1], secs=(100, 2000)),
    H("h_uni_post", "decoded text unchanged, six samples", reach=[1], secs=(60, 60)),
    H("h_uni_table", "every character of 9 blocks against Python's unicodedata", "15 blocks", reach=[1], secs=(100, 2000)),
    H("h_uni_hangul", "1176 Hangul syllables against the arithmetic definition, composed and decomposed", "all 11172", reach=[1], secs=(100, 2000)),
    H("h_uni_marks", "a-z followed by 1-2 of six combining marks", "1-3 marks", reach=[1], secs=(100, 2000)),
    H("h_uni_compose", "a letter with 1-2 of ten combining marks between texts, letter symbolic, against Python's unicodedata", "all pairs of marks", reach=[1], secs=(150, 2000)),
    H("h_uni_long", "4500 bytes of characters that compose, decompose and reorder, at every offset, last byte symbolic", "70000 bytes", reach=[1], secs=(100, 1200)),
    H("h_uni_stack", "5-300 marks on one letter, in and out of order, letter symbolic", reach=[1], secs=(60, 600)),
], "characters outside the listed blocks; the normalization tables themselves belong to a dependency")

prop("C11", [
    H("h_pipe", "every sequence of up to two processors, two of eight text pieces and a symbolic byte", "up to three processors, three pieces", reach=[1], secs=(150, 3000)),
    H("h_pipe_crlf", "<=2+2 bytes in 0x0a..0x0d around an optional special token", "<=3+2", reach=[1], secs=(150, 2000)),
    H("h_pipe_long", "four lists of processors, 20-300 text pieces with special tokens between, last byte symbolic", reach=[1], secs=(100, 1200)),
    H("h_pipe_huge", "texts of 66000 bytes of special tokens and changing characters at every offset, last byte symbolic", "300000 bytes", reach=[1], secs=(150, 1200)),
], "longer pipelines and texts", [HASHC])

prop("C12", [
    H("h_batch", "<=3 items of <=2 symbolic bytes, every completion order over 1-3 threads", "first item <=3 bytes", reach=[1, 2], secs=(150, 3000)),
    H("h_batch_decode", "<=3 id lists, any ids in 0..=4, every completion order", reach=[1, 2], secs=(150, 3000)),
    H("h_batch_large", "batches of 31..257 items, in order and reversed", reach=[1], secs=(150, 3000)),
    H("h_batch_huge", "batches of 511-5000 items, one symbolic at three places", reach=[1], secs=(100, 1200)),
    H("h_batch_long", "one long item (66000 bytes at four offsets, or its ids) among short ones", "300000 bytes", reach=[1], secs=(150, 1200)),
], "interleavings inside one item's encoding: items share only immutable data", [HASHC, RAYON])

prop("C13", [
    H("h_lat_viterbi", "four vocabularies (gaps, dead ends) with symbolic scores (quarters in [-64,-1]), sentence <=4 over 2 letters", "sentence <=5", reach=[1, 2], secs=(100, 2000)),
    H("h_lat_nbest", "four vocabularies with symbolic scores (halves in [-1000,-0.5]), sentence <=3, n in 0..4", "sentence <=4", reach=[1, 2], secs=(100, 2000)),
    H("h_lat_nbest_long", "fixed scores, sentence of 4-6, n up to 100 (all paths)", "sentence of 4-7", reach=[1, 2], secs=(100, 2000)),
    H("h_lat_scales", "four vocabularies, scores scaled from 10^-300 to 10^300 and of either sign, sentence <=3, n 2-3", "sentence <=5", reach=[1, 2], secs=(100, 1200)),
    H("h_lat_grow", "four edges over two letters, a query of every kind between the insertions", reach=[1], secs=(60, 600)),
    H("h_lat_nbest_wide", "160000 paths over parallel edges, n=1100: the agenda is shortened", "three shapes, n up to 1500", secs=(100, 600)),
    H("h_lat_nbest_spread", "up to 300 paths through three stretches, steps from 2^-7 to 2^30, n of 1-1000", reach=[1], secs=(100, 600)),
    H("h_lat_graph", "any graph of <=4 edges over <=3 positions, parallel edges, symbolic scores in [-16,4]", "<=5 edges", reach=[1, 2], secs=(120, 3000)),
    H("h_lat_long", "sentences of 15..257 letters with one symbolic letter at three places, reference by dynamic programming", reach=[1], secs=(60, 600)),
    H("h_lat_huge", "sentences of 1000-450000 letters with exactly two segmentations: no stack overflow", reach=[1], args=["--steps", "3000000000"], secs=(100, 1200)),
], "scores outside the grids")

prop("C14", [
    H("h_lat_marginal", "four vocabularies, every token's probability an unknown of a real algebra, sentence of 1-4 letters", "1-5 letters", reach=[1, 2], secs=(150, 3000), real=True),
    H("h_lat_marginal_sum", "as above with two unknown probabilities and weight-one tokens, sentence of 1-4", "1-5", reach=[1, 2], secs=(100, 3000), real=True),
    H("h_lat_marginal_range", "7x7x7 combinations of scores from -300 to 3 on four sentences, floating point against the exact ratio", reach=[1], secs=(60, 600)),
    H("h_lat_marginal_long", "sentences of 50-1000 letters, three magnitudes, one symbolic letter, floating point", "3000 letters", reach=[1], secs=(100, 1200)),
], "rounding: the two algebraic harnesses compute over exact rational functions instead of floating point (exp and log cancel exactly); the third covers chosen magnitudes", ["in real mode the difference of the two rational functions is a zero polynomial, or z3 (nonlinear real arithmetic) decides it; comparisons of unknown probabilities are followed both ways"])

prop("C15", [
    H("h_trie", "1-2 entries of 1-3 letters over 3, query <=4", "1-3 entries", reach=[1], secs=(100, 2000)),
    H("h_prefix_model", "two symbolic tokens of 1-2 and 1-3 arbitrary bytes, one added later, query <=2 arbitrary bytes", "query <=3", reach=[1], secs=(100, 2000)),
    H("h_prefix_grow", "two symbolic tokens of 1-2 letters added to two, together or one after the other, equal ones included, query <=3; the model, a copy and one built at once", "three tokens", reach=[1], secs=(100, 1200)),
    H("h_prefix_long", "beginnings of 7-300 bytes shared by six entries, three symbolic letters after", reach=[1], secs=(100, 600)),
    H("h_trie_deep", "tokens of 65535-250000 bytes: no stack overflow, exact lengths", reach=[1], secs=(100, 600)),
], "longer tokens and larger tries than stated (C02 covers long tokens and large vocabularies through encoding)", [HASHC])

prop("C16", [
    H("h_filter", "1-4 tokens, scores (halves in [-4,1]) and minimum symbolic, every mark, size and force", "1-5 tokens", reach=[1, 2], secs=(100, 2000)),
    H("h_filter_large", "21, 64 and 257 tokens in three orders with ties, one symbolic score", "up to 1000 tokens", reach=[1, 2], secs=(100, 2000)),
    H("h_filter_fine", "three tokens whose scores differ by 2^-50 to 10^300, two of them symbolic, every size, mark, minimum and force", "3-4 tokens, three symbolic", reach=[1, 2], secs=(100, 1200)),
    H("h_cmd_filter", "the command on every configuration of <=2 processors and <=5 special tokens", reach=[1], secs=(100, 600)),
], "larger vocabularies with several symbolic scores", [HASHC])

prop("C17", [
    H("h_merge", "two samples of <=3 letters over 2, 1-3 merges, step 1-2, limit 2-3, two patterns, every completion order", "first sample <=4", reach=[1, 2], secs=(150, 3000)),
    H("h_merge_existing", "a sample of 5 letters, one symbolic score, unused existing tokens, step 1, 2, 5", reach=[1, 2], secs=(100, 600)),
    H("h_merge_utf8", "characters of 1-3 bytes, tokens cutting them, two threads", "one more character", reach=[1, 2], secs=(100, 1200)),
    H("h_merge_chunks", "7-25 samples over 1-3 threads, every completion order", reach=[1], secs=(100, 1200)),
    H("h_merge_many", "64-1030 samples over 1-3 threads; pairs that occur 66000 times", reach=[1], secs=(100, 1200)),
    H("h_merge_race", "2-3 samples of 2-3 letters, one chunk each, every interleaving of the chunks at operations on shared state with up to 2 preemptions", "3 preemptions", reach=[1, 2], secs=(100, 1200)),
], "more rounds and longer samples; the choice among equally frequent pairs is left open", [HASHC, RAYON])

prop("C18", [
    H("h_prune_select", "one round: 6 tokens, two symbolic scores, a sample of 2-3 letters and one of 4, every target and mark", "2-4 letters", reach=[1, 2, 3, 4], secs=(150, 3000)),
    H("h_prune_em", "1-2 re-estimations and a round: samples of 1-3 letters, targets 3-4", "1-4 letters, targets 3-5, every completion order", reach=[1, 2, 3], secs=(150, 3000)),
    H("h_prune_rounds", "whole runs: shrink factors 0.5-1, every target, with and without re-estimation", "longer samples, up to 2 re-estimations", reach=[1, 2, 3], secs=(100, 3000)),
    H("h_prune_dropout", "whole runs with dropout 0.25 and 1, every draw", "longer samples", reach=[1], secs=(150, 3000)),
    H("h_prune_nopath", "a sample of 1-4 letters that may not be writable, with and without re-estimation, every completion order", reach=[1, 2, 3], secs=(60, 600)),
    H("h_prune_rare", "samples of 1-100 repetitions, kept tokens they do not use, 1-2 re-estimations", "1-300 repetitions, 1-3 re-estimations", reach=[1, 2], secs=(100, 1200)),
    H("h_prune_race", "2 samples of 2-4 letters, one chunk each, every interleaving of the chunks at operations on shared state with up to 1 preemption, with and without re-estimation", "2-3 samples, 2 preemptions", reach=[1, 2, 3, 4], secs=(100, 1200)),
    H("h_prune_certain", "samples of total probability one, scores of zero, 1-2 re-estimations", "1-3 re-estimations", reach=[1], secs=(60, 600)),
    H("h_prune_long", "a sample of up to 173000 bytes, counts known in closed form", reach=[1], secs=(100, 600)),
], "ties (losses or counts too close to call in floating point) are only checked for the general guarantees; either of the two published loss normalizations is accepted", [HASHC, RAYON, RAND])

prop("C19", [
    H("h_gen", "two samples over 3 letters, with and without patterns and listed tokens, every limit and size", "longer samples", reach=[1, 2], secs=(150, 3000)),
    H("h_gen_listed", "listed tokens longer than the limit, not allowed, overlapping, absent, listed twice", reach=[1, 2], secs=(100, 1200)),
    H("h_gen_utf8", "characters of 2-4 bytes", "one more character", reach=[1, 2], secs=(100, 1200)),
    H("h_gen_random", "insert probability below one, every draw", "longer samples", reach=[1, 2], secs=(100, 2000)),
    H("h_gen_chunks", "many samples over several threads, every completion order", reach=[1, 2], secs=(100, 1200)),
    H("h_gen_many", "64-1030 samples over 1-3 threads, one of 2100 bytes", "66000 samples", reach=[1, 2], secs=(100, 1200)),
    H("h_gen_race", "2 samples of 2-3 letters, one chunk each, every interleaving of the chunks at operations on shared state with up to 1 preemption", "2-3 samples, 2 preemptions", reach=[1, 2], secs=(100, 1200)),
    H("h_gen_long", "a candidate at one place of a sample of up to 8300 bytes, at block borders", "up to 10100 bytes", reach=[1, 2], secs=(150, 1200)),
], "longer samples and other patterns", [HASHC, RAYON, RAND])

prop("C20", [
    H("h_mine", "two samples over 3 letters, four patterns, any number of idioms", "longer samples", reach=[1, 2], secs=(100, 2000)),
    H("h_mine_chunks", "many samples over several threads, every completion order", reach=[1, 2], secs=(100, 1200)),
    H("h_mine_many", "64-1030 samples over 1-3 threads; idioms that occur 66000 times, or once", reach=[1, 2], secs=(100, 1200)),
    H("h_mine_long", "idioms of 64-20000 letters, 1-2 threads", reach=[1, 2], secs=(100, 600)),
    H("h_mine_race", "2-3 samples of 2-5 letters, one chunk each, every interleaving of the chunks at operations on shared state with up to 2 preemptions", "3 preemptions", reach=[1], secs=(100, 1200)),
    H("h_cmd_mine", "the command with a symbolic idiom", reach=[1], secs=(60, 600)),
], "other patterns and longer samples", [HASHC, RAYON])

prop("C21", [
    H("h_re_custom", "lists of up to three of the custom patterns, any text of the stated length over the alphabet", "longer texts", reach=[1, 2], secs=(100, 2000)),
    H("h_re_literal", "one or two of twelve patterns with blanks and punctuation, any text of <=3 of nine characters", reach=[1, 2], secs=(100, 600)),
    H("h_re_cmd", "the regex command with one or two of eleven patterns with inline options or groups, any text of <=3 of six characters", "<=4 characters", reach=[1, 2], secs=(100, 1200)),
    H("h_re_mine_cmd", "the mine command with one or two of nine of these patterns, any sample of <=2 of six characters", "<=3 characters", reach=[1], secs=(100, 1200)),
    H("h_re_named", "each named ASCII pattern alone and with another, any ASCII text of <=3 bytes", "<=4 bytes", reach=[1, 2], secs=(100, 2000)),
    H("h_re_table", "every entry of the table by name, next to a custom one", reach=[1], secs=(60, 600)),
    H("h_re_mine", "three lists of words, any text of <=3 letters", "<=4 letters", reach=[1], secs=(60, 600)),
    H("h_re_flags", "one or two of ten patterns with inline options, comments and line ends, any text of <=3 of six characters", "<=4 characters", reach=[1, 2], secs=(100, 1200)),
    H("h_re_line_end", "a pattern with a line end, alone or with another, read back from its file, any text of <=3 of six characters", secs=(60, 600)),
    H("h_re_comment_file", "a pattern that ends in a comment, alone or with another, read back from its file", secs=(60, 600)),
    H("h_re_mine_flags", "one or two of ten patterns with inline options, any text of <=3 of six characters", "<=4 characters", reach=[1], secs=(100, 1200)),
    H("h_re_file", "line ends and spaces around a stored pattern", reach=[1], secs=(60, 600)),
], "other patterns; the regular-expression engines themselves belong to dependencies (their compiled code is executed)")

prop("C22", [
    H("h_cmd_sources", "any file of <=5 bytes over NUL, line ends and letters, five shares, with and without a processor", "<=6 bytes", reach=[1], secs=(100, 1200)),
    H("h_cmd_sources_many", "files of 63-5000 samples, one of up to 66000 bytes, six shares, with and without a processor", reach=[1], secs=(100, 600)),
    H("h_cmd_sources_text", "any text of <=3 bytes, alone or next to a letter, first, middle and last of a file", "<=4 bytes", reach=[1], secs=(100, 1200)),
    H("h_cmd_nottext", "any file of 1-2 bytes", "1-3 bytes", reach=[1, 2], secs=(100, 1200)),
    H("h_cmd_badspec", "malformed descriptions, unknown names, missing files", reach=[1, 2], secs=(60, 600)),
    H("h_cmd_procs", "lists of processor names with symbolic letters", reach=[1, 2, 3], secs=(60, 600)),
    H("h_cmd_tokens", "three token lists, one token of <=2 symbolic letters", "<=3", reach=[1], secs=(60, 600)),
    H("h_main_mine", "one or two sources and patterns, any number of idioms", reach=[1], secs=(60, 600)),
], "larger files", [RAYON, RAND])

prop("C23", [
    H("h_lat_grow", "edges inserted after queries of every kind", reach=[1], secs=(60, 600)),
    H("h_lat_reuse", "1-2 earlier sentences of <=3 letters with any query, then one of <=3", "then one of <=4", reach=[1], secs=(120, 3000)),
    H("h_lat_reuse_wide", "3-1025 tokens over one stretch before, another sentence of <=4 letters after", reach=[1], secs=(60, 600)),
    H("h_lat_reuse_long", "sentences of 1-130 letters after sentences of 1-130", "1-300, two earlier sentences", reach=[1], secs=(100, 1200)),
    H("h_lat_pool", "4 operations on a pool", "5 operations", reach=[1], secs=(60, 600)),
], "longer histories", [HASHC])

prop("C24", [
    H("h_cmd_filter", "<=2 processors, <=5 special tokens", reach=[1], secs=(100, 600)),
    H("h_cmd_merge", "<=2 processors, <=5 special tokens, 1-3 merges", reach=[1], secs=(150, 1200)),
    H("h_cmd_prune", "<=2 processors, <=5 special tokens", reach=[1], secs=(100, 600)),
    H("h_cmd_generate", "one configuration of each kind, with and without patterns", reach=[1], secs=(100, 600)),
    H("h_cmd_mine", "a symbolic idiom", reach=[1], secs=(60, 600)),
], "other samples", [HASHC, RAYON, RAND])

FAULTS = "an open may be interrupted, denied or out of descriptors; a read or write may be interrupted, short (1 byte, half, all but one), fail, or (write) return 0 or find the disk full; the harness interposes on the C library's open/read/write in both the symbolic and the native run"
prop("C25", [
    H("h_io_save", "up to 2 faults, with and without an earlier file", "3 faults", reach=[1, 2, 3], secs=(100, 1200)),
    H("h_io_load", "up to 2 faults", "3 faults", reach=[1, 2], secs=(100, 1200)),
    H("h_io_cmd", "each of six commands, 1 fault anywhere", "2 faults", reach=[1, 2, 3, 4, 5, 6], secs=(120, 2000)),
    H("h_io_read", "token lists, patterns and sources, up to 2 faults", "3 faults", reach=[1, 2, 3], secs=(100, 1200)),
    H("h_load_trunc", "the file left by a crash at any byte of a save: every truncation", reach=[1], secs=(60, 600)),
], "more faults in one operation; faults of other system calls (fstat, close)", [FAULTS, HASHC, RAYON])

PYO3 = "the pyo3 crate is replaced by a stub in which Python objects and exceptions are plain values; conversion of arguments and the interpreter itself are outside"
prop("C26", [
    H("h_py_encode", "any text of <=3 letters, alone and in batches, dropout 0 and 1", "<=4 letters", reach=[1, 2], secs=(60, 600)),
    H("h_py_decode", "<=2 ids in 0..=9", "<=3 ids", reach=[1, 2], secs=(60, 600)),
    H("h_py_lookup", "any bytes of <=2 letters, any 32-bit id", reach=[1, 2], secs=(60, 600)),
    H("h_py_prefix", "any text of <=3 letters", "<=4 letters", reach=[1], secs=(60, 600)),
    H("h_py_store", "string, file and pickle, an added special token of 1-2 letters, four rejected states", reach=[1, 2, 3, 4], secs=(100, 600)),
    H("h_py_io", "1 fault anywhere while saving or loading", "2 faults", reach=[1, 2], secs=(60, 600)),
    H("h_py_module", "the module's names", reach=[1], secs=(60, 60)),
], "the type stubs (tokengeex.pyi); arguments of wrong Python types", [PYO3, FAULTS, HASHC, RAYON])

XFLAGS = "the parser is the real xflags 0.3.2, except that the process arguments are given by the harness and leaving the process is a panic; env_logger is replaced by one that writes nothing unless asked"
prop("C27", [
    H("h_main_filter", "every subset of the options in both spellings, a symbolic minimum", reach=[1], secs=(60, 600)),
    H("h_main_merge", "every subset of the optional arguments, one symbolic letter", reach=[1], secs=(60, 600)),
    H("h_main_merge_many", "the defaults on samples with more candidates than a round takes", reach=[1], secs=(60, 600)),
    H("h_main_prune", "every subset of the optional arguments, constant draws around each probability", reach=[1], secs=(150, 1200)),
    H("h_main_generate", "every subset of the optional arguments, constant draws around each probability", reach=[1], secs=(150, 1200)),
    H("h_main_mine", "one or two sources and patterns, any number of idioms", reach=[1], secs=(60, 600)),
    H("h_main_list", "no output file; a list of patterns with one", reach=[1], secs=(60, 600)),
    H("h_main_exact", "the README's command, any ASCII text of the stated length", reach=[1], secs=(60, 600)),
    H("h_main_values", "ordinary and unusual values of every numeric option, one at a time", reach=[1], secs=(120, 900)),
    H("h_main_bad", "command lines with a missing, unknown or malformed part", reach=[1], secs=(60, 600)),
], "the unimplemented encode and decode commands; values of the options other than those used", [XFLAGS, HASHC, RAYON, RAND])
