#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)))

p('C01', 'NFD and NFKD are exactly the UAX #15 decompositions',
  "For every sequence of Unicode scalar values, the NFD (NFKD) iterator yields exactly the concatenation of the full canonical (compatibility) decompositions of its characters per the Unicode Character Database of the reported version, with every maximal run of non-starters stably sorted by canonical combining class. Nothing is lost, invented, duplicated or otherwise reordered, whatever the length of the text or of a run of combining marks.",
  ['inputs'], 'every string: every scalar value in every context, mark runs of every length and class order, Hangul, any mixture',
  'NormalizationTest.txt has about 20 000 short rows (runs of at most a few marks, no long text, no unassigned characters); the guarantee is over all strings.',
  ['src/decompose.rs', 'src/normalize.rs', 'src/lookups.rs', 'src/perfect_hash.rs', 'src/tables.rs'],
  [('buffered decomposition with stable sort of the pending non-starters', 'src/decompose.rs Decompositions::push_back, sort_pending, next'), ('per-character decomposition', 'src/normalize.rs decompose, decompose_hangul'), ('perfect-hash tables', 'src/perfect_hash.rs mph_lookup')],
  [('buffer, ready', 'characters decomposed but not yet emitted; the sorted prefix', 'src/decompose.rs Decompositions')],
  ['str/iterator .nfd(), .nfkd()'])
p('C02', 'NFC and NFKC are exactly the UAX #15 compositions',
  "For every sequence of Unicode scalar values, the NFC (NFKC) iterator yields exactly the result of the canonical composition algorithm of UAX #15 applied to the canonical (compatibility) decomposition: each unblocked character is combined with its last starter whenever they form a primary composite (Hangul included), composition-excluded characters never reappear, and every other character stays in its place. This holds whatever the length of the text or of a run of combining marks.",
  ['inputs'], 'every string: every composing pair with every blocking or non-blocking context, starters composing with starters, Hangul jamo sequences, long mark runs',
  'The official test rows use a fixed pattern of contexts; blocking, chains of compositions, starter-starter composition next to mark runs and long runs quantify over all strings.',
  ['src/recompose.rs', 'src/normalize.rs', 'src/lookups.rs', 'src/tables.rs'],
  [('composition state machine with blocking by last combining class', 'src/recompose.rs Recompositions::next'), ('pair composition', 'src/normalize.rs compose, compose_hangul; src/lookups.rs composition_table')],
  [('state, buffer, composee, last_ccc', 'current starter, blocked marks waiting, phase', 'src/recompose.rs Recompositions')],
  ['str/iterator .nfc(), .nfkc()'])
p('C03', 'Equivalence: forms are idempotent, compose, and decide equivalence',
  "For all strings, each normalization form is idempotent and the forms compose as UAX #15 requires (for instance NFC of NFD is NFC, NFD of NFC is NFD, and NFKC or NFKD of any form equals NFKC or NFKD of the original). Two strings have the same NFC (and the same NFD) if and only if they are canonically equivalent, and the same NFKC (NFKD) if and only if they are compatibility equivalent.",
  ['inputs', 'programs'], 'every string, every pair of strings, every chain of normalizations',
  'Tests compare fixed rows; equivalence-preserving rewrites (reordering, partial composition, singleton substitution) of arbitrary text are unbounded.',
  ['src/decompose.rs', 'src/recompose.rs', 'src/normalize.rs', 'src/tables.rs'],
  [('shared decomposition stage under both kinds of iterator', 'src/recompose.rs, src/decompose.rs'), ('full decompositions in the tables', 'src/tables.rs')], (), ['.nfd() .nfkd() .nfc() .nfkc() and their compositions'])
p('C04', 'Normalization is local: pieces normalize as the whole does',
  "For all strings x and y, normalizing the concatenation of the normalized x and the normalized y gives the normalization of xy. If y starts at a normalization boundary (its decomposition begins with a starter and, for NFC and NFKC, that starter can combine with nothing before it), the normalization of xy is the normalization of x followed by that of y, so text may be cut at boundaries into any number of pieces.",
  ['inputs'], 'every pair (and list) of strings, every split point',
  'No test concatenates or splits; carry-over of iterator state from one segment to the next only shows for particular neighbours and lengths.',
  ['src/decompose.rs', 'src/recompose.rs'],
  [('state reset at starters', 'src/decompose.rs reset_buffer; src/recompose.rs Purging, Finished')], [('last_ccc, composee, ready', 'state carried between segments', 'src/recompose.rs, src/decompose.rs')], ['.nfd() .nfkd() .nfc() .nfkc()'])
p('C05', 'Quick checks are sound and as decisive as UAX #15 detection',
  "For every string each quick check (NFC, NFD, NFKC, NFKD, stream-safe NFC, stream-safe NFD) answers Yes only if the string is in that form, No only if it is not, and Maybe only where the UAX #15 detection algorithm with the UCD quick-check properties does. In particular the NFD and NFKD checks and their stream-safe versions never answer Maybe, and ASCII is always Yes.",
  ['inputs'], 'every string, in particular strings that are in or almost in the form',
  'test_quick_check calls the authoritative predicates on the official rows; the three-valued answers and their dependence on neighbouring combining classes and run lengths are not enumerable.',
  ['src/quick_check.rs', 'src/tables.rs', 'src/stream_safe.rs'],
  [('single pass over combining class, quick-check property and non-starter count', 'src/quick_check.rs quick_check'), ('property tables', 'src/tables.rs qc_nfc, qc_nfkc, qc_nfd, qc_nfkd')],
  [('last_cc, nonstarter_count, result', 'running state of the pass', 'src/quick_check.rs quick_check')], ['is_nfc_quick, is_nfd_quick, is_nfkc_quick, is_nfkd_quick, is_nfc_stream_safe_quick, is_nfd_stream_safe_quick'])
p('C06', 'is_nfc/is_nfd/is_nfkc/is_nfkd are exact',
  "For every string, each of the four authoritative predicates returns true if and only if normalizing the string to that form leaves it unchanged.",
  ['inputs'], 'every string',
  'Tested on the official rows only; the quick path and the full path agree there but are separate code with separate tables.',
  ['src/quick_check.rs', 'src/tables.rs', 'src/recompose.rs'],
  [('quick check, then comparison with the normalized iterator', 'src/quick_check.rs is_nfc, is_nfkc, is_nfd, is_nfkd')], (), ['is_nfc, is_nfd, is_nfkc, is_nfkd'])
p('C07', 'Stream-safe predicates are exact',
  "For every string, the authoritative stream-safe NFC (NFD) predicate returns true if and only if the string is in NFC (NFD) and its compatibility decomposition contains no run of more than 30 non-starters.",
  ['inputs'], 'every string, in particular runs of 28 to 33 non-starters counted across characters that decompose to several',
  'Two hand-written strings per form; the count depends on leading and trailing non-starters of every decomposition and on where the run starts.',
  ['src/quick_check.rs', 'src/stream_safe.rs', 'src/tables.rs'],
  [('counting leading and trailing non-starters per character', 'src/stream_safe.rs classify_nonstarters; src/quick_check.rs quick_check')], [('nonstarter_count', 'non-starters since the last starter, in NFKD', 'src/quick_check.rs')], ['is_nfc_stream_safe, is_nfd_stream_safe'])
p('C08', 'Stream-safe transformation follows UAX15-D4',
  "For every string, the stream-safe iterator yields the input unchanged except that a combining grapheme joiner (U+034F) is inserted exactly where the Stream-Safe Text Process (UAX15-D4) requires it: immediately before a character that would bring the run of non-starters, counted in NFKD, over 30. The output never contains a longer run, text that is already stream-safe comes out identical, and the transformation is idempotent.",
  ['inputs'], 'every string, in particular long runs mixing marks with characters whose decompositions begin or end with non-starters',
  'Four fixed strings; the position of each joiner depends on the whole run before it.',
  ['src/stream_safe.rs', 'src/tables.rs', 'src/lookups.rs'],
  [('run counting and insertion', 'src/stream_safe.rs StreamSafe::next'), ('leading and trailing counts', 'src/tables.rs stream_safe_leading_nonstarters, TRAILING_NONSTARTERS')], [('nonstarter_count, buffer', 'length of the current run; the character held back behind an inserted joiner', 'src/stream_safe.rs StreamSafe')], ['.stream_safe()'])
p('C09', 'Stream-safety and normalization compose in either order',
  "For every string and every form, normalizing the stream-safe version gives text that is still stream-safe, and making normalized text stream-safe gives text that is still normalized; the library's own predicates confirm both. Chaining the iterators directly gives the same result as collecting in between, and both results are fixed points of both operations.",
  ['inputs', 'programs'], 'every string, every chain of stream_safe and the four forms',
  'One regression string; the crate once got this wrong for a run of decomposing marks at the boundary.',
  ['src/stream_safe.rs', 'src/quick_check.rs', 'src/recompose.rs', 'src/decompose.rs'],
  [('counting in NFKD so that normalization cannot lengthen a run', 'src/stream_safe.rs classify_nonstarters')], (), ['.stream_safe().nfc() and the like; is_nfc_stream_safe, is_nfd_stream_safe'])
p('C10', 'Canonical combining class of every character',
  "For every Unicode scalar value, assigned or not, the canonical combining class returned is the one in the Unicode Character Database of the reported version, and 0 for every character not listed there.",
  ['inputs'], 'all 1 112 064 scalar values',
  'No test looks at the value itself; order-preserving or rarely exercised errors in a perfect-hash lookup pass the official rows.',
  ['src/lookups.rs', 'src/perfect_hash.rs', 'src/tables.rs'], [('perfect-hash lookup with key verification and default', 'src/lookups.rs canonical_combining_class; src/perfect_hash.rs mph_lookup')], (), ['char::canonical_combining_class'])
p('C11', 'Character decompositions are complete and correct',
  "For every Unicode scalar value, the canonical and the compatibility decomposition functions pass to the callback, once each and in order, exactly the characters of its full decomposition per the Unicode Character Database of the reported version (arithmetically for Hangul syllables), or the character itself if it has none. Every character passed is itself fully decomposed.",
  ['inputs'], 'all 1 112 064 scalar values, both functions',
  'Only the characters in the official rows go through these functions, via iterators.',
  ['src/normalize.rs', 'src/lookups.rs', 'src/tables.rs'], [('decomposition', 'src/normalize.rs decompose_canonical, decompose_compatible, decompose_hangul'), ('fallback from compatibility to canonical table', 'src/normalize.rs decompose_compatible')], (), ['char::decompose_canonical, char::decompose_compatible'])
p('C12', 'Pair composition inverts decomposition, and nothing else composes',
  "For every ordered pair of Unicode scalar values, compose returns a character exactly when the pair is the canonical decomposition of a primary composite of the reported Unicode version (composition exclusions respected) or a conjoining Hangul pair (L+V or LV+T), and it returns that composite. Every other pair, including pairs that differ from a composing one only in high-order bits or lie just outside the Hangul ranges, returns nothing.",
  ['inputs'], 'all pairs of scalar values (1.2 * 10^12)',
  'The official rows contain the composing pairs; that no other pair composes is a statement about 10^12 pairs.',
  ['src/normalize.rs', 'src/lookups.rs', 'src/tables.rs'], [('Hangul arithmetic then table', 'src/normalize.rs compose, compose_hangul; src/lookups.rs composition_table'), ('separate table for pairs outside the BMP', 'src/tables.rs composition_table_astral')], (), ['char::compose'])
p('C13', 'Combining-mark test matches General_Category=Mark',
  "For every Unicode scalar value, the combining-mark test is true if and only if its General_Category in the Unicode Character Database of the reported version is Mn, Mc or Me.",
  ['inputs'], 'all 1 112 064 scalar values',
  'Tested for ASCII and two characters.', ['src/lookups.rs', 'src/tables.rs'], [('perfect-hash set', 'src/lookups.rs is_combining_mark')], (), ['char::is_combining_mark'])
p('C14', 'Assigned-character test and reported version agree with one UCD',
  "For every Unicode scalar value, the public-assigned test is true if and only if the character is assigned and not private-use in the Unicode version the library reports; noncharacters, private-use and unassigned code points give false, and every character of a First..Last range gives true. All data the library exposes is of that one version: a character not assigned in it has combining class 0, is no mark, does not decompose or compose, and passes every transformation unchanged.",
  ['inputs'], 'all 1 112 064 scalar values, in every function',
  'About 130 sampled code points at range ends; 700 ranges are listed by hand in a match.', ['src/tables.rs', 'src/lib.rs'], [('range match', 'src/tables.rs is_public_assigned'), ('version constant', 'src/tables.rs UNICODE_VERSION')], (), ['char::is_public_assigned, UNICODE_VERSION'])
p('C15', 'CJK compatibility variants: exact, lossless, normalization-stable',
  "For every string, the CJK-variants iterator (and the per-character function) replaces each CJK compatibility ideograph that has a standardized variation sequence by exactly that sequence and leaves every other character, Hangul included, untouched and in place. No two different characters get the same replacement, the replacement survives all four normalization forms, and dropping the variation selectors from the result's normalization gives the normalization of the original.",
  ['inputs'], 'every string and all 1 112 064 scalar values',
  'Tested on two ideographs and one Hangul string, out of 1 002 mappings.', ['src/replace.rs', 'src/normalize.rs', 'src/tables.rs'], [('replacement iterator with one-character buffer', 'src/replace.rs Replacements::next'), ('lookup', 'src/normalize.rs decompose_cjk_compat_variants')], [('buffer', 'second character of a replacement', 'src/replace.rs Replacements')], ['.cjk_compat_variants(), char::decompose_cjk_compat_variants'])
p('C16', 'Iterators obey the Iterator contract under any consumption pattern',
  "For every source and every sequence of operations (next, nth, skipping, folding, counting, collecting, cloning at any moment, size queries), each of the six adapters behaves as a plain sequence of its output characters. size_hint always brackets the number of characters still to come, a clone and its original continue independently with the same remaining output, and over a fused source an exhausted adapter keeps returning None (the decomposing and composing adapters also over a source that is not fused).",
  ['histories', 'inputs'], 'every operation sequence on every adapter over every source',
  'Tests only collect from fresh iterators; buffered and purging states are never cloned, queried or resumed.', ['src/decompose.rs', 'src/recompose.rs', 'src/replace.rs', 'src/stream_safe.rs'], [('size_hint', 'src/decompose.rs, src/replace.rs'), ('derived Clone over buffers', 'src/decompose.rs, src/recompose.rs, src/replace.rs'), ('Fuse and terminal state', 'src/decompose.rs iter, src/recompose.rs Finished')], [('buffers and phase', 'see C01, C02, C08, C15', 'src/*.rs')], ['Iterator, Clone, FusedIterator on the adapters'])
p('C17', 'Display writes exactly the remaining output and consumes nothing',
  "At any point of consumption, formatting a decomposing, composing or replacing adapter writes exactly the characters it has still to yield, and leaves the adapter's own remaining output unchanged. If the writer fails after any number of characters, formatting reports the error, having written exactly that prefix.",
  ['histories', 'fault_sequences'], 'every consumption point of every adapter over every string; every position of a writer failure',
  'to_string is called on fresh iterators only; no test uses a failing writer or formats a partly consumed iterator.', ['src/decompose.rs', 'src/recompose.rs', 'src/replace.rs'], [('fmt over a clone with error propagation', 'src/decompose.rs, src/recompose.rs, src/replace.rs impl Display')], (), ['Display, to_string, write!'])
p('C18', 'All entry points agree',
  "For every text, each transformation gives the same output whether it is called on a string slice, on any iterator of the same characters, or through the adapter's public constructor; called on a single character it equals the result for the one-character string. The predicates that take an iterator depend only on the characters it yields, not on its type, its size hint or how it batches them.",
  ['inputs', 'programs'], 'every string and character, every kind of source iterator, all entry points',
  'Tests use str and chars(); three separate trait implementations forward by hand to twelve constructors.', ['src/lib.rs', 'src/decompose.rs', 'src/recompose.rs', 'src/replace.rs', 'src/stream_safe.rs', 'src/quick_check.rs'], [('three impls of the trait', 'src/lib.rs UnicodeNormalization for &str, char, I'), ('constructors', 'new_canonical, new_compatible, new_cjk_compat_variants, StreamSafe::new')], (), ['UnicodeNormalization trait; public constructors'])
p('C19', 'Streaming: no reading ahead beyond what the next output needs',
  "Each adapter pulls from its source only as far as its next output character requires: a decomposed starter needs only its own source character, a decomposed non-starter only the next starter after its run, a composed segment only what completes it and the starter that ends it, and the replacing and stream-safe adapters only the current character. Constructing, querying, cloning or formatting an adapter pulls nothing from the original's source, the decomposing and composing adapters do not poll a source again after it has ended unless it promises to be fused, and a quick check stops at the first character that makes the answer No. So all of them work on endless sources.",
  ['histories', 'inputs'], 'every source (finite or endless) and every point of consumption',
  'A fuzz target states it but is not run; ordinary tests collect everything and cannot see when characters were pulled.', ['src/decompose.rs', 'src/recompose.rs', 'src/replace.rs', 'src/stream_safe.rs', 'src/quick_check.rs', 'fuzz/fuzz_targets/streaming.rs'], [('drain the ready or purging buffer before pulling', 'src/decompose.rs next; src/recompose.rs Purging'), ('early return', 'src/quick_check.rs quick_check')], (), ['number of source polls at each output'])
p('C20', 'Bounded memory and near-linear work',
  "Streaming through any adapter holds memory proportional to the longest run of non-starters in the text, not to the text: over stream-safe text of any length it is bounded by a constant, and the quick checks allocate nothing. Every operation terminates, and the total work for a text of n characters grows no faster than n log n, for any text including a single run of n combining marks.",
  ['inputs'], 'every text, in particular very long ones and very long mark runs',
  'Tests use short strings; a quadratic drain or a buffer that is never cleared passes them all.', ['src/decompose.rs', 'src/recompose.rs', 'src/stream_safe.rs', 'src/quick_check.rs'], [('ready range instead of draining one by one', 'src/decompose.rs increment_next_ready, reset_buffer'), ('purging by index', 'src/recompose.rs Purging')], [('buffer', 'its capacity is the memory held', 'src/decompose.rs, src/recompose.rs')], ['allocations and executed code edges per character'])
p('C21', 'Total and memory-safe on every input',
  "No function or adapter of the library panics, overflows, aborts or reads out of bounds for any Unicode scalar values, any length of text and any run of combining marks, also with overflow and undefined-behaviour checks on; every character it produces is a valid Unicode scalar value. If the source iterator, the callback or the writer panics at any point, the panic reaches the caller and whatever is done with the adapter afterwards is still free of aborts and invalid characters.",
  ['inputs', 'fault_sequences'], 'every character, pair and string; every position of a panic in the source, callback or writer',
  'unsafe unchecked conversions and unchecked index arithmetic are correct only if every range is; tests execute few values, and never a panicking source.', ['src/normalize.rs', 'src/decompose.rs', 'src/recompose.rs', 'src/replace.rs', 'src/perfect_hash.rs', 'src/lookups.rs'], [('range checks before from_u32_unchecked', 'src/normalize.rs is_hangul_syllable, compose_hangul'), ('table offsets and lengths', 'src/lookups.rs; src/tables.rs')], (), ['all public functions'])
p('C22', 'Every build configuration behaves the same',
  "With and without the std feature, with debug or release settings, on 32-bit and 64-bit targets of either byte order, every public function and adapter gives identical results on every input (only the upper bound of a size hint may differ, where it does not fit a usize).",
  ['configurations', 'inputs'], 'the configurations std/no_std x debug/release x target, every input to every public function',
  'Tests run in debug only on the host, on the same few inputs.', ['src/lib.rs', 'Cargo.toml', 'src/__test_api.rs'], [('cfg-selected alloc or std', 'src/lib.rs cfg_attr no_std')], (), ['all public functions in each build'])
p('C23', 'Results depend on the arguments alone, not on history or threads',
  "Every public function and adapter is a pure function of its arguments: its result is the same whatever was called before, whatever other adapters are alive and being advanced in alternation, and whatever other threads are doing at the same time. An adapter over a source that can be moved to another thread or shared between threads can be too, in the middle of a text, and gives the same there.",
  ['histories', 'schedules'], 'every interleaving of calls and of live adapters, on one thread and on many',
  'Tests make isolated calls; hidden shared state (a cache, a scratch buffer) shows only for particular histories or races.', ['src/lib.rs', 'src/lookups.rs', 'src/decompose.rs', 'src/recompose.rs', 'src/replace.rs', 'src/stream_safe.rs'], [('immutable tables and owned buffers only', 'src/tables.rs; buffers in each adapter')], (), ['all public functions'])
p('C24', 'The table generator encodes any character database faithfully',
  "For every well-formed Unicode Character Database (the real one, or any later one that adds to it within its stability rules), the table-generating script, unless it stops with its message that the hash search failed, writes tables from which the library answers exactly as that database says: combining classes, full decompositions, compositions with exclusions, quick-check properties, marks, assigned ranges, variation sequences and stream-safe counts, with defaults for every other code point, and the reported version; and the test vectors it writes are the rows of the database's normalization test file. Run on the database of the reported version it reproduces the behaviour of the committed tables.",
  ['inputs', 'programs'], 'every well-formed database; every code point of each',
  'The script downloads its input and no test runs it; the committed tables are tested only as far as the official rows reach.', ['scripts/unicode.py', 'src/tables.rs', 'src/lookups.rs', 'src/perfect_hash.rs'], [('recursive decomposition, composition table, perfect hash', 'scripts/unicode.py _compute_fully_decomposed, _compute_canonical_comp, minimal_perfect_hash, gen_*')], (), ['tables.rs written by the script, compiled into the library'])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
