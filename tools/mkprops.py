#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

I, C, H, S = "inputs", "configurations", "histories", "schedules"

p("C01", "The seven arrays of an encoding always have equal length",
  "In every encoding the library produces, and in every overflow window inside it, the ids, type ids, tokens, word indices, offsets, special-token mask and attention mask have the same number of entries. Tokenising, truncating, post-processing and padding each preserve this when given an encoding (and a template whose special tokens list as many ids as token texts) that satisfies it.",
  [I, C], "every input text and every truncation, post-processor and padding configuration, in every combination",
  "Tests compare a few hand-written encodings; the truncation, padding and post-processing tests are not even linked by the pinned build, and no test combines stages.",
  ["src/tokenizer.cpp", "src/utils.cpp", "src/post_processor.cpp", "src/common.cpp"],
  [("into_encoding", "src/tokenizer.cpp"), ("truncate", "src/utils.cpp"), ("pad", "src/utils.cpp"), ("TemplateProcessing::process", "src/post_processor.cpp"), ("ByteLevelProcessing::process", "src/post_processor.cpp")],
  observe=["Tokenizer::encode"])

p("C02", "Padding adds only neutral entries, on one side, up to the right length",
  "Padding never alters, drops or reorders an existing entry: it only adds entries on the configured side (left or right), each carrying the configured pad id, pad type id and pad token, attention 0, special-token mask 1 and offset (0,0). The padded length is the fixed size, or otherwise the encoding's own length, rounded up to the configured multiple; a longer encoding is left as it is. Every overflow window is padded in the same way to the same target length.",
  [I, C], "every encoding, direction, strategy, fixed size, multiple and pad entry",
  "Two tests pad to the right with multiple 3; left padding, overflow, no multiple and over-long encodings are never exercised.",
  ["src/utils.cpp"], [("pad", "src/utils.cpp"), ("Padding::pad_encoding", "src/utils.cpp")], observe=["Padding::pad_encoding"])

p("C03", "Truncation cuts aligned windows that cover the whole encoding",
  "An encoding no longer than the maximum length is returned unchanged; a longer one is split into windows of at most the maximum length, the first being the kept part and the others its overflow in order. All seven arrays of one window come from the same index range; consecutive windows share exactly the configured stride and together the windows cover every entry, starting from the beginning (right) or the end (left) of the encoding. A maximum length of zero keeps nothing, and a stride that is not smaller than the maximum length is rejected instead of looping.",
  [I, C], "every encoding length, maximum length, stride, direction and strategy",
  "The two truncation tests use two tokens, maximum length 1, stride 0 and direction right, and the pinned build does not link them.",
  ["src/utils.cpp"], [("truncate", "src/utils.cpp"), ("Truncation::truncate_encoding", "src/utils.cpp")], observe=["Truncation::truncate_encoding"])

p("C04", "Every documented component name builds exactly that component",
  "When a configuration names a supported normalizer, pre-tokenizer, model, post-processor or decoder type, loading it yields that component and no other, also as a child of a sequence; an unsupported name never yields some other component. Direction and strategy names for truncation and padding and split behaviours likewise select the behaviour of that name.",
  [C], "every type, direction, strategy and behaviour name that can occur in a configuration",
  "Tests only instantiate some names and mostly check that the result is not null; they never check the negative half (an unknown or neighbouring name).",
  ["src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/model.cpp", "src/post_processor.cpp", "src/decoder.cpp", "src/utils.cpp", "src/common.cpp"],
  [("with_normalizer / get_normalizer", "src/normalizer.cpp"), ("with_pre_tokenizer / get_pre_tokenizer", "src/pre_tokenizer.cpp"), ("with_model / get_model", "src/model.cpp"), ("with_post_processor / get_post_processor", "src/post_processor.cpp"), ("with_decoder / get_decoder", "src/decoder.cpp"), ("get_truncation_direction, get_padding_strategy, ...", "src/utils.cpp")])

p("C05", "Every configuration option reaches its own setting, with a neutral default",
  "Each option of a component's configuration determines the setting of the same name in the loaded component and nothing else, with its value unchanged; a null option yields the neutral value (empty text, zero, false, or for accent stripping the lowercase setting). A setting that a configuration can choose is used by the component it configures (the template for text pairs, for which there is no entry point, and the id an added token states, which is assigned anew, excepted).",
  [C], "every option of every component, every value including null",
  "Tests set one or two combinations per component and observe only behaviour on one text, so swapped or dropped options with equal values in that test go unnoticed.",
  ["src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/model.cpp", "src/post_processor.cpp", "src/decoder.cpp", "src/utils.cpp", "src/added_vocabulary.cpp"],
  [("with_* factories", "src/*.cpp"), ("with_truncation, with_padding", "src/utils.cpp"), ("with_added_vocabulary", "src/added_vocabulary.cpp"), ("component constructors", "src/*.cpp")])

p("C06", "A sequence component applies all of its children, in order",
  "A sequence of normalizers, pre-tokenizers, post-processors or decoders gives each child the result of the one before it, the first child the sequence's own input, and returns the last child's result; with no children it returns its input. The children are exactly the configured ones that are supported, in configured order, and none is applied twice.",
  [C, I], "every list of children and every input",
  "Tests use sequences of one or two children, for which order and threading mistakes can cancel out; there is no test of a post-processor sequence.",
  ["src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/post_processor.cpp", "src/decoder.cpp"],
  [("SequenceNormalizer::normalize", "src/normalizer.cpp"), ("SequencePreTokenizer::pre_tokenize", "src/pre_tokenizer.cpp"), ("SequenceProcessing::process", "src/post_processor.cpp"), ("SequenceDecoder::decode_chain", "src/decoder.cpp")])

p("C07", "Encoding runs every configured stage exactly once, in pipeline order",
  "Encoding a text passes it through added-token extraction and normalisation, pre-tokenisation, the model, truncation, post-processing and padding, in this order, each configured stage exactly once and on the previous stage's result. A stage that is not configured passes its input through unchanged, and the caller's choice of adding special tokens reaches post-processing.",
  [C, I], "every subset of configured stages and every input",
  "The only end-to-end tests use all stages absent or one BERT configuration without truncation or padding, and are not linked by the pinned build.",
  ["src/tokenizer.cpp", "src/added_vocabulary.cpp"],
  [("Tokenizer::encode", "src/tokenizer.cpp"), ("Tokenizer::do_tokenize", "src/tokenizer.cpp"), ("Tokenizer::do_post_process", "src/tokenizer.cpp"), ("AddedVocabulary::extract_and_normalize", "src/added_vocabulary.cpp")])

p("C08", "A component the configuration leaves out is never used",
  "Whatever subset of truncation, padding, added tokens, normalizer, pre-tokenizer, model, post-processor and decoder a configuration leaves null or unsupported, constructing the tokenizer, encoding, decoding and adding tokens never touch the missing component. Looking up something that is absent (an unknown id or token) never reads a value that is not there.",
  [C, I, H], "every subset of missing components, every call sequence and every id",
  "One test encodes with every component missing; decode and add_tokens are never called with one missing, and undefined behaviour need not show in a test.",
  ["src/tokenizer.cpp", "src/added_vocabulary.cpp", "src/model.cpp"],
  [("null checks in Tokenizer", "src/tokenizer.cpp"), ("optional checks", "src/tokenizer.cpp, src/added_vocabulary.cpp")])

p("C09", "Encoding and decoding leave the tokenizer as it was",
  "Encoding or decoding never changes the loaded vocabulary, merges, added tokens, settings or components, so any history of encode and decode calls leaves every later result unchanged. The only thing a call may keep is a memoised segmentation, stored under the exact text it was computed from and computed only from that text and the immutable model.",
  [H, I], "every history of encode and decode calls on one tokenizer",
  "Tests make one call per freshly built object; a result that depends on earlier calls needs a history to show.",
  ["src/tokenizer.cpp", "src/added_vocabulary.cpp", "src/model.cpp", "src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/post_processor.cpp", "src/decoder.cpp", "src/utils.cpp"],
  [("const methods", "include/tokenizers/*.h"), ("BPE::tokenize_with_cache", "src/model.cpp"), ("AddedVocabulary::find_matches", "src/added_vocabulary.cpp")],
  state=[("BPE::cache", "memoised words, the only mutable member", "include/tokenizers/model.h")])

p("C10", "Results depend only on the configuration and the input",
  "No result depends on process-wide mutable state, on other tokenizers in the process, on the process locale, environment, clock or an unseeded random source, or on the iteration order of a hash table. Two tokenizers loaded from the same configuration give the same results for the same calls.",
  [H, C, S], "every process environment, every other use of the library in the same process",
  "Tests run in one fixed environment and locale, one object at a time.",
  ["src/*.cpp", "include/tokenizers/*.h"],
  [("only constant statics", "src/*.cpp"), ("ICU character functions instead of locale-dependent C ones", "src/normalizer.cpp, src/pre_tokenizer.cpp")])

p("C11", "A malformed configuration is always reported as an error",
  "If the configuration is missing, or reading it as JSON fails (malformed text, an option with a value of the wrong type), constructing the tokenizer raises an exception; no JSON error is swallowed, replaced by a default, or left unchecked, and no partly configured tokenizer is returned.",
  [C, "fault_sequences"], "every configuration text and every place in it where reading can fail",
  "Tests try an empty config, a missing file and '{}'; each option has its own failure path.",
  ["src/tokenizer.cpp", "src/utils.cpp", "src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/model.cpp", "src/post_processor.cpp", "src/decoder.cpp", "src/added_vocabulary.cpp"],
  [("exception-raising simdjson accessors", "with_* factories"), ("catch and rethrow in Tokenizer::Tokenizer", "src/tokenizer.cpp")])

p("C12", "The byte-level alphabet is total and one-to-one, and both ends use it",
  "The byte-level alphabet gives each of the 256 byte values its own single printable character, the one the published byte-level vocabularies use (a printable Latin-1 byte stands for itself, the others for U+0100, U+0101, ... in order). Byte-level pre-tokenisation replaces every byte of a piece by that byte's character, for all 256 values, and byte-level decoding maps each such character back to exactly its byte.",
  [I], "all 256 byte values and every text (all of Unicode)",
  "The tests use ASCII texts only, so bytes 0x80-0xFF and the characters above U+00FF that stand for other bytes are not exercised.",
  ["src/common.cpp", "src/pre_tokenizer.cpp", "src/decoder.cpp", "src/post_processor.cpp"],
  [("bytes_char", "src/common.cpp"), ("ByteLevelPreTokenizer::pre_tokenize", "src/pre_tokenizer.cpp"), ("ByteLevelDecoder", "src/decoder.cpp")])

p("C13", "A token's id and text always agree with the vocabulary",
  "Every token a model produces pairs a text with the id the vocabulary gives that text, or an id with the text the vocabulary gives that id; the only exception is the unknown token, whose text is the configured unknown text and whose id is its vocabulary id (0 if it has none). The id-to-text table is the inverse of the text-to-id table it is built from.",
  [I, C], "every vocabulary, every input text",
  "Tests check a handful of words against vocabularies of a few entries.",
  ["src/model.cpp", "include/tokenizers/model.h"],
  [("Model::Model", "src/model.cpp"), ("WordPiece::tokenize", "src/model.cpp"), ("BPE::merge_word, BPE::word_to_tokens, BPE::tokenize_with_cache", "src/model.cpp")])

p("C14", "BPE merges the best-ranked pair first, leftmost among equals",
  "Among the merges currently possible in a word, byte-pair encoding applies the one that comes first in the configured merge list, and among equals the leftmost. Only two neighbouring live symbols are merged, the result is the symbol the merge list names, and with dropout zero no possible merge is left out at the end. (Merge lists in which two merges yield the same symbol, and duplicate vocabulary ids, are outside the statement.)",
  [I, C], "every merge list and every word",
  "One word is tested with a merge list whose order does not matter for it.",
  ["src/model.cpp", "include/tokenizers/model.h"],
  [("Merge::operator<", "include/tokenizers/model.h"), ("Word::merge_all", "src/model.cpp"), ("BPE::BPE", "src/model.cpp"), ("Symbol::merge_with", "src/model.cpp")])

p("C15", "Pre-tokenisation tiles the text: nothing lost, reordered or duplicated",
  "Splitting a piece on a pattern yields consecutive pieces that cover it from start to end without gap or overlap, matches and gaps alternating in order; only the pieces the configured behaviour removes (the matches, or with inversion the gaps) are left out. Each piece's text is exactly the text at its own range, and its offsets are that range shifted by the start of the piece it was cut from. Byte-level pre-tokenisation with its pattern option on cuts on the complete GPT-2 pattern.",
  [I, C], "every text, pattern, behaviour and chain of pre-tokenizers",
  "Tests compare a few sentences; coverage and offset relations must hold for every text and pattern, including matches at the very start or end.",
  ["src/pre_tokenizer.cpp"],
  [("find_matches", "src/pre_tokenizer.cpp"), ("split_normalized", "src/pre_tokenizer.cpp"), ("PreTokenizedString::split", "src/pre_tokenizer.cpp")])

p("C16", "A Unicode library failure raises an exception",
  "Whenever a Unicode library operation that can fail (normalisation, pattern compilation, matching) reports an error, the calling operation raises an exception and neither uses nor returns that operation's result. A pattern that does not compile never reaches matching.",
  ["fault_sequences", I, C], "every failing operation, pattern and input",
  "A failing status is hard to provoke from a test and none does; the tests named Error fail earlier, in UTF-8 conversion.",
  ["src/normalizer.cpp", "src/pre_tokenizer.cpp"],
  [("U_FAILURE checks in NFC/NFD/NFKC/NFKD::normalize", "src/normalizer.cpp"), ("status checks in find_matches", "src/pre_tokenizer.cpp")])

p("C17", "A recognised added token stays one token with its own id",
  "Once a piece of text has been recognised as an added token it carries exactly one token with that added token's id and text; normalisation, pre-tokenisation (alone or in a chain) and the model pass such a piece on without splitting, rewriting its token, dropping or re-tokenising it.",
  [I, C], "every text containing recognised added tokens and every pipeline configuration",
  "The one test with added tokens has no pre-tokenizer or model after extraction; no test sends a recognised token through byte-level pre-tokenisation or BPE.",
  ["src/added_vocabulary.cpp", "src/pre_tokenizer.cpp", "src/model.cpp"],
  [("AddedVocabulary::extract_and_normalize", "src/added_vocabulary.cpp"), ("PreTokenizedString::split", "src/pre_tokenizer.cpp"), ("WordPiece::tokenize, BPE::tokenize", "src/model.cpp")])

p("C18", "No container is changed while it is being walked, and nothing dangles",
  "No operation inserts into, erases from or replaces a container or text while a loop, iterator or reference into it is still in use, directly or through an alias handed to another function. No iterator, reference or view is used after the object it points into has been changed or destroyed.",
  [I, C, H], "every input, configuration and call history, on every path",
  "Such a defect is undefined behaviour that mostly goes unnoticed until a reallocation happens at the wrong moment.",
  ["src/added_vocabulary.cpp", "src/tokenizer.cpp", "src/normalizer.cpp", "src/model.cpp", "src/pre_tokenizer.cpp"],
  [("loops and iterators over containers", "src/*.cpp"), ("AddedVocabulary::add_tokens", "src/added_vocabulary.cpp"), ("Replace::normalize", "src/normalizer.cpp"), ("Word::merge_all", "src/model.cpp")])

p("C19", "NFC, NFD, NFKC and NFKD each apply exactly that form to the whole text",
  "Each of the four Unicode normalizers returns the complete text in the normalisation form of its own name: the form is applied to the entire input and the entire result is returned.",
  [I], "every text",
  "Each form has one short test; for most texts several forms coincide.",
  ["src/normalizer.cpp"],
  [("NFC::normalize, NFD::normalize, NFKC::normalize, NFKD::normalize", "src/normalizer.cpp")])

p("C20", "Added tokens get stable, unique ids in both directions",
  "Adding a token that is already known (added before, or in the model vocabulary) keeps its id; a new one gets the vocabulary size or one more than the largest added id, whichever is larger; tokens with empty text are ignored and not counted. After the call the text-to-id and id-to-text lookups of each added token agree, the token is recognised under that id, and it counts as special exactly if it was added as special.",
  [H, C, I], "every sequence of additions and every vocabulary",
  "One test adds tokens already in the vocabulary; fresh ids, re-adding and empty tokens are never exercised.",
  ["src/added_vocabulary.cpp", "src/tokenizer.cpp"],
  [("AddedVocabulary::add_tokens", "src/added_vocabulary.cpp"), ("AddedVocabulary::refresh_added_tokens", "src/added_vocabulary.cpp")])

p("C21", "Decoding resolves every id in order and drops only special tokens",
  "Decoding looks each id up among the added tokens first and in the model vocabulary otherwise, keeps the ids' order, leaves out special tokens exactly when asked to, hands the remaining texts to the configured decoder once and returns the concatenation of its result.",
  [I, C], "every id list, both settings of skipping, every configuration",
  "No test calls decode on a tokenizer.",
  ["src/tokenizer.cpp", "src/added_vocabulary.cpp"],
  [("Tokenizer::decode", "src/tokenizer.cpp"), ("AddedVocabulary::id_to_token", "src/added_vocabulary.cpp"), ("Model::id_to_token", "src/model.cpp")])

p("C22", "WordPiece takes the longest match at each step, or one unknown for the word",
  "WordPiece covers a word from left to right, at each step taking the longest vocabulary entry that fits (with the continuation prefix for every piece but the first), each piece starting where the previous one ended. If at some step nothing fits, or the word has more characters (code points) than the configured limit, the whole word becomes the single unknown token and no partial pieces remain.",
  [I, C], "every word, vocabulary, prefix and length limit",
  "Five tests use one or two words each.",
  ["src/model.cpp"], [("WordPiece::tokenize", "src/model.cpp")])

p("C23", "BERT normalisation applies exactly the enabled steps",
  "The BERT normalizer cleans text, spaces out Chinese characters, strips accents and lowercases, in this order, each step exactly if its own option is on (accent stripping with the option unset follows lowercasing). Cleaning removes exactly NUL, U+FFFD and control characters other than tab, newline and carriage return and turns white space into a space; spacing affects exactly the CJK ideograph ranges (U+2B820 to U+2B91F, on which implementations differ, left open); accent stripping removes exactly the non-spacing marks.",
  [I, C], "all sixteen option combinations and every character",
  "Each option has one test with one sentence of a few characters.",
  ["src/normalizer.cpp"],
  [("BertNormalizer::normalize", "src/normalizer.cpp"), ("is_whitespace, is_control, is_chinese_char", "src/normalizer.cpp"), ("do_clean_text, do_handle_chinese_chars, do_strip_accents, do_lowercase", "src/normalizer.cpp")])

p("C24", "Texts from the configuration are used unescaped",
  "Every text taken from the configuration - vocabulary entries, special-token names, option names and values - is the JSON text with its escape sequences decoded, whether it occurs as a key or as a value; raw, still-escaped JSON text never becomes a token, name or option.",
  [C], "every key and value, with every JSON escape",
  "No test configuration has an escaped key.",
  ["src/utils.cpp", "src/post_processor.cpp", "src/added_vocabulary.cpp", "src/model.cpp"],
  [("get_map_ints_from_json", "src/utils.cpp"), ("with_post_processor", "src/post_processor.cpp"), ("with_added_vocabulary", "src/added_vocabulary.cpp")])

p("C25", "Empty text and empty lists never cause an out-of-range access",
  "Encoding the empty text, decoding the empty list, and running any component on an empty text, an empty piece or an empty list is safe: a first, last or fixed-position element is read only where the container is known to have it, and an unsigned length is never decremented below zero.",
  [I, C], "every component and stage with empty input, in every configuration",
  "No test passes an empty text or list to anything.",
  ["src/normalizer.cpp", "src/pre_tokenizer.cpp", "src/model.cpp", "src/tokenizer.cpp", "src/utils.cpp", "src/added_vocabulary.cpp", "src/decoder.cpp"],
  [("emptiness checks before front/back/at(0)/[0]/size()-1", "src/*.cpp")])

p("C26", "The Android bridge neither leaks nor lets a C++ exception escape",
  "Every Java string or array buffer the bridge pins is released exactly once on every path, including when the tokenizer raises; no C++ exception of the library crosses into the Java runtime (exhausted memory aside), and array buffers are released without copying contents back.",
  [I, C, "fault_sequences"], "every call from Java, every exception the library can raise",
  "The bridge has no tests and needs a Java runtime.",
  ["android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp"],
  [("newTokenizer, encode, decode", "android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp")])

p("C27", "Every loop makes progress, so no input makes the library hang",
  "Every loop the library runs on a text, id list or configuration moves on in each iteration towards its end: an index or position strictly advances, a queue or list strictly shrinks, or an iterator moves on, on every path round the loop and for every setting.",
  [I, C], "every input and every configuration, including zero lengths, zero strides and empty patterns",
  "A hang needs the one setting or input that stops progress; tests use friendly ones.",
  ["src/utils.cpp", "src/model.cpp", "src/normalizer.cpp", "src/decoder.cpp", "src/pre_tokenizer.cpp", "src/added_vocabulary.cpp"],
  [("while loops and hand-stepped for loops", "src/*.cpp")])

p("C28", "A template is emitted piece by piece in order with its own type ids",
  "Template post-processing outputs the template's pieces in template order: for the text piece the complete encoding with the piece's type id, for a special token - only when the caller asked for special tokens - exactly the ids and texts listed under its name, with the piece's type id, no word index, offset (0,0), special mask 1 and attention 1. Overflow windows are processed in the same way and none is lost.",
  [I, C], "every template, every encoding, with and without special tokens",
  "Two tests use the [CLS] A [SEP] template with all type ids 0 and no overflow.",
  ["src/post_processor.cpp"], [("TemplateProcessing::process", "src/post_processor.cpp")])

p("C29", "Decoders keep the text of every token they are given",
  "A WordPiece decoder leaves the first token unprefixed, strips the continuation prefix from continuation pieces and puts one space before every other token; fuse concatenates all tokens, replace, strip and byte-fallback decoders rewrite only what their settings name. Every decoder's output covers all input tokens in order: none is dropped or moved.",
  [I, C], "every token list and every decoder setting",
  "WordPiece and byte-level decoding have one test each; the other decoders have none.",
  ["src/decoder.cpp"],
  [("WordPieceDecoder::decode_chain", "src/decoder.cpp"), ("ReplaceDecoder, StripDecoder, FuseDecoder, ByteFallbackDecoder, ByteLevelDecoder::decode_chain", "src/decoder.cpp")])

p("C30", "Trimming byte-level offsets stays inside the token",
  "Byte-level post-processing changes nothing but offsets, and those only when trimming is on, for the encoding and every overflow window alike. A trimmed range lies within the token's original range, its start not after its end, moved inwards by exactly the number of leading and trailing space characters of the token (a single leading space is kept for a token at the start of the text when a prefix space was added).",
  [I, C], "every token text and offset pair, both settings",
  "Two tests with the same five tokens and no overflow.",
  ["src/post_processor.cpp"], [("ByteLevelProcessing::process_offsets", "src/post_processor.cpp"), ("ByteLevelProcessing::process", "src/post_processor.cpp")])

# ---- not claimed -------------------------------------------------------------------
p("N01", "Token offsets point at the original text",
  "For every token the reported offsets delimit, in the original input, the characters the token came from, whatever normalisation inserted, removed or replaced in between.",
  [I, C], "every text and every normaliser chain",
  "Tests check offsets of texts that normalisation hardly changes.",
  ["src/normalizer.cpp", "src/tokenizer.cpp"], [("NormalizedString::transform, transform_range", "src/normalizer.cpp"), ("into_encoding", "src/tokenizer.cpp")])
p("N02", "Decoding an encoding gives the text back",
  "For lossless pipelines (byte-level) decode(encode(x)) equals x for every text x; for others it equals the normalised text up to white space.",
  [I, C], "every text and every vocabulary", "Needs all texts.", ["src/tokenizer.cpp"], [("Tokenizer::encode, Tokenizer::decode", "src/tokenizer.cpp")])
p("N03", "Results equal those of the reference implementation",
  "For every supported configuration and every text, ids, tokens and offsets equal those of the reference tokenizers library the configuration format comes from.",
  [I, C], "every configuration and text", "Needs the reference as oracle on all inputs.", ["src/tokenizer.cpp"], [("the whole pipeline", "src/*.cpp")])
p("N04", "Added tokens are recognised wherever they occur in the text",
  "Every occurrence of an added token in the text is recognised, the longest one winning where several start at the same place, subject to its single-word, strip and normalisation flags.",
  [I, H], "every text and set of added tokens", "One text with two special tokens at word boundaries is tested.", ["src/added_vocabulary.cpp"], [("AddedVocabulary::find_matches", "src/added_vocabulary.cpp")])
p("N05", "Encoding takes time roughly linear in the text",
  "The time and memory to encode a text grow no faster than (almost) linearly with its length.",
  [I], "every text length", "Tests use short texts.", ["src/model.cpp", "src/pre_tokenizer.cpp"], [("tokenisation loops", "src/model.cpp")])
p("N06", "One tokenizer can be used from several threads at once",
  "Concurrent encode and decode calls on one tokenizer are free of data races and return what they would return alone.",
  [S], "every interleaving of concurrent calls", "Tests are single-threaded.", ["src/model.cpp"], [("BPE::tokenize_with_cache", "src/model.cpp")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
