From 4fd7a2451018ba761029f0b2eece8f99b0e30224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 01/39] fix: decode escape sequences in JSON keys

Vocabulary entries, template names and option names were taken as raw JSON
text, so a vocabulary entry such as "\"" was loaded as backslash-quote and
never matched.
---
 src/added_vocabulary.cpp | 2 +-
 src/post_processor.cpp   | 4 ++--
 src/utils.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..34381f7 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -327,7 +327,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     simdjson::ondemand::object added_token_param = val.get_object();
     AddedToken added_token;
     for (auto element : added_token_param) {
-      auto key = element.escaped_key();
+      auto key = element.unescaped_key();
       if (key.value() == "id") {
         added_token.id = static_cast<int>(element.value().get_int64());
       } else if (key.value() == "content") {
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..a0b78d8 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -53,7 +53,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
@@ -70,7 +70,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..efd6d54 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -255,7 +255,7 @@ std::unique_ptr<Padding> with_padding(
       simdjson::ondemand::object strategy_obj = val.get_object().value();
       for (auto field : strategy_obj) {
         strategy =
-            std::string(static_cast<std::string_view>(field.escaped_key()));
+            std::string(static_cast<std::string_view>(field.unescaped_key()));
         fixed_size = static_cast<int>(field.value().get_int64());
       }
     } else {
@@ -289,7 +289,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   std::unordered_map<std::string, int> result;
   for (auto element : json_object) {
     result.insert(
-        {std::string(static_cast<std::string_view>(element.escaped_key())),
+        {std::string(static_cast<std::string_view>(element.unescaped_key())),
          static_cast<int>(element.value().get_int64())});
   }
   return result;
-- 
2.43.0


From 71c35adff13f7bf07cc048c8261fdc83e3f9e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 02/39] fix: byte-level pre-tokenizer threw on every non-ASCII
 byte

The sign-extended char was looked up in a table keyed by 0..255.
---
 src/pre_tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..bab261e 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -265,7 +265,7 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   for (Split& split : pre_tokenized.splits) {
     std::string new_split_normalized;
     for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+      new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
     }
     split.normalized = new_split_normalized;
   }
-- 
2.43.0


From 6c90191c8184be8397fb293b3235ee9718e22125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 03/39] fix: BPE applied the worst-ranked merge first

---
 include/tokenizers/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..31073c3 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -67,7 +67,10 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  // std::priority_queue pops the greatest element: lowest rank, leftmost first
+  bool operator<(const Merge &other) const {
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
-- 
2.43.0


From 3c3553b6460c4d9976c574edd8064c0d034e0b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 04/39] fix: merging an empty word read out of range

---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..0f5046a 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -229,7 +229,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
-- 
2.43.0


From 46a27c9addddf1fcb6d331d1e288ed823a5c97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 05/39] fix: models re-tokenized pieces already recognised as
 added tokens

---
 src/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model.cpp b/src/model.cpp
index 0f5046a..d160849 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -142,6 +142,9 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     icu::UnicodeString unicode_sequence =
         icu::UnicodeString::fromUTF8(split.normalized);
     int char_len = unicode_sequence.length();
@@ -437,6 +440,9 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From 2a3a8d0b09c2941d68cff2fb3444bcb2418206a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 06/39] fix: truncating to length zero kept the whole encoding

---
 src/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index efd6d54..7884b41 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -51,8 +51,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
-    encoding.overflowing = {};
-    return encoding;
+    Encoding empty_encoding;
+    empty_encoding.overflowing.push_back(encoding);
+    return empty_encoding;
   }
   int offset = max_length - stride;
   bool end = false;
-- 
2.43.0


From f4fb301e7c678278bd87565d798a87738c7c965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 07/39] fix: truncation hung when the stride was not below the
 maximum length

---
 src/utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 7884b41..32fb655 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -55,6 +56,10 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     empty_encoding.overflowing.push_back(encoding);
     return empty_encoding;
   }
+  if (stride < 0 || stride >= max_length) {
+    throw std::invalid_argument(
+        "Truncation stride must be smaller than the maximum length!");
+  }
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-- 
2.43.0


From 61dcb90517a0b5fa505571887354f6d6d65896a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 08/39] fix: left truncation windows drifted by one entry per
 window

The loop variable was changed in the body, so consecutive windows did not
share the stride, and a step of one never ended.
---
 src/utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 32fb655..348c3da 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -72,8 +72,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+    for (int stop = encoding_length; stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
-- 
2.43.0


From 129362fab480a8a79c0253449107c2a22b1ea3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 09/39] fix: truncation without a direction read an empty
 window list

An unset direction is the default one, right.
---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 348c3da..a0c4816 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -63,7 +63,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-  if (direction == RIGHT_TRUNCATION_DIRECTION) {
+  if (direction != LEFT_TRUNCATION_DIRECTION) {
     for (int start = 0; start < encoding.ids.size(); start += offset) {
       if (!end) {
         int stop = std::min(start + max_length, encoding_length);
@@ -71,7 +71,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
         parts_ranges.push_back({start, stop});
       }
     }
-  } else if (direction == LEFT_TRUNCATION_DIRECTION) {
+  } else {
     for (int stop = encoding_length; stop > 0; stop -= offset) {
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
-- 
2.43.0


From 287259faee8d87773eee420e2bb58ac2e2b97cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 10/39] fix: adding tokens grew the list being walked

The constructor passes the vocabulary's own list, which is appended to for
every non-special token while it is iterated.
---
 src/added_vocabulary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 34381f7..123d6ee 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -52,8 +52,10 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
   return std::nullopt;
 }
 
-int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
+int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
+  // the caller may pass added_tokens itself, which grows below
+  const std::vector<AddedToken> tokens = new_tokens;
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
-- 
2.43.0


From b51c74e54e7fc729f0bec46bc57770385edc903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 11/39] fix: adding the first token to an empty vocabulary read
 past the end

---
 src/added_vocabulary.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 123d6ee..9b882c3 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -84,9 +84,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
-           max_val_token->second >= model->get_vocab_size())) {
+      if (max_val_token != added_tokens_map.end() &&
+          max_val_token->second >= model->get_vocab_size()) {
         new_id = max_val_token->second + 1;
       } else {
         new_id = model->get_vocab_size();
-- 
2.43.0


From 9c57e9afa433252cae266640300a198b7b46f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 12/39] fix: added tokens outside the model vocabulary were
 never recognised

---
 src/added_vocabulary.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 9b882c3..d6f9b1d 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -108,22 +108,22 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
                                            Normalizer* normalizer) {
   std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
   for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto it = added_tokens_map.find(token.content);
+    if (it != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, it->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, it->second});
       }
     }
   }
   for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto it = added_tokens_map.find(token.content);
+    if (it != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, it->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, it->second});
       }
     }
   }
-- 
2.43.0


From 25e134911c2ee02d9ebba373ad8c723dddf62704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 13/39] fix: adding tokens without a model dereferenced a null
 pointer

---
 src/added_vocabulary.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d6f9b1d..e573365 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -72,11 +72,14 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
     }
 
     int new_id;
+    int vocab_size = model != nullptr ? model->get_vocab_size() : 0;
+    std::optional<int> model_id =
+        model != nullptr ? model->token_to_id(token.content) : std::nullopt;
     auto it = added_tokens_map.find(token.content);
     if (it != added_tokens_map.end()) {
       new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
-      new_id = model->token_to_id(token.content).value();
+    } else if (model_id.has_value()) {
+      new_id = model_id.value();
     } else {
       auto max_val_token =
           std::max_element(added_tokens_map.begin(), added_tokens_map.end(),
@@ -85,10 +88,10 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                              return a.second < b.second;
                            });
       if (max_val_token != added_tokens_map.end() &&
-          max_val_token->second >= model->get_vocab_size()) {
+          max_val_token->second >= vocab_size) {
         new_id = max_val_token->second + 1;
       } else {
-        new_id = model->get_vocab_size();
+        new_id = vocab_size;
       }
     }
     added_tokens_map[token.content] = new_id;
-- 
2.43.0


From c86bdf7e3f4baa2117d3b5f4bef8b69776c66254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 14/39] fix: without added tokens the normalizer was skipped
 and decode crashed

Encoding normalises through the added vocabulary, and decode and add_tokens
use it unconditionally, so a tokenizer always needs one.
---
 src/tokenizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..f981687 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -84,9 +84,11 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     throw std::runtime_error("Error parsing tokenizer config");
   }
 
-  if (added_vocabulary != nullptr) {
-    add_tokens(added_vocabulary->added_tokens);
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
   }
+  add_tokens(added_vocabulary->added_tokens);
 }
 
 Encoding Tokenizer::encode(const std::wstring& sequence,
-- 
2.43.0


From 00e20ad8f4a27fb52bd585529e2567b712af0f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 15/39] fix: decode crashed on unknown ids and without a model
 or decoder

---
 src/tokenizer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index f981687..00d0336 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -112,16 +112,20 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
   for (int id : ids) {
     std::string token = "";
     std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
+    if (!av_token.has_value() && model != nullptr) {
+      av_token = model->id_to_token(id);
+    }
     if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+      continue;
     }
+    token = av_token.value();
     if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
       tokens.push_back(token);
     }
   }
-  tokens = decoder->decode_chain(tokens);
+  if (decoder != nullptr) {
+    tokens = decoder->decode_chain(tokens);
+  }
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
 
-- 
2.43.0


From 3bcaa36e38e2b0b58eb3ab0f4c2454ca1d113b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 16/39] fix: an invalid split pattern dereferenced a null
 matcher

ICU's error status was never looked at.
---
 src/pre_tokenizer.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index bab261e..62a6cec 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -11,6 +11,7 @@
 #include <numeric>
 #include <optional>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -104,14 +105,26 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
     std::string regex, icu::UnicodeString input) {
   std::vector<std::pair<int, int>> matches;
   UErrorCode status = U_ZERO_ERROR;
-  icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
-      icu::UnicodeString::fromUTF8(regex), 0, status);
-  icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
+  std::unique_ptr<icu::RegexPattern> unicode_pattern(
+      icu::RegexPattern::compile(icu::UnicodeString::fromUTF8(regex), 0,
+                                 status));
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU pattern compilation failed with error code: " +
+                             std::to_string(status));
+  }
+  std::unique_ptr<icu::RegexMatcher> matcher(
+      unicode_pattern->matcher(input, status));
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU pattern matching failed with error code: " +
+                             std::to_string(status));
+  }
   while (matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
   }
-  delete matcher;
-  delete unicode_pattern;
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU pattern matching failed with error code: " +
+                             std::to_string(status));
+  }
 
   std::vector<std::pair<std::pair<int, int>, bool>> result;
   int cur = 0;
-- 
2.43.0


From c0a75ecaab393af505d339b96dd6bd6bebd26ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 17/39] fix: a failing conversion after normalisation was
 ignored

---
 src/normalizer.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..c171fee 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -266,6 +266,10 @@ NormalizedString NFC::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU conversion failed with error code: " +
+                             std::to_string(status));
+  }
   int oi = 0, ni = 0;
   std::vector<int> grow_ids;
   while (oi < normalized.normalized.length() && ni < result.length()) {
@@ -304,6 +308,10 @@ NormalizedString NFD::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU conversion failed with error code: " +
+                             std::to_string(status));
+  }
   int oi = 0, ni = 0;
   std::vector<int> grow_ids;
   while (oi < normalized.normalized.length() && ni < result.length()) {
@@ -342,6 +350,10 @@ NormalizedString NFKC::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU conversion failed with error code: " +
+                             std::to_string(status));
+  }
   int oi = 0, ni = 0;
   std::vector<int> grow_ids;
   while (oi < normalized.normalized.length() && ni < result.length()) {
@@ -380,6 +392,10 @@ NormalizedString NFKD::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("ICU conversion failed with error code: " +
+                             std::to_string(status));
+  }
   int oi = 0, ni = 0;
   std::vector<int> grow_ids;
   while (oi < normalized.normalized.length() && ni < result.length()) {
-- 
2.43.0


From fae6bd5afcaacd9e1ba944e18b798857317a99b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 18/39] fix: characters above U+FFFF were entered twice in the
 offset tables

The loop stepped through UTF-16 units but took a whole code point at each.
---
 src/normalizer.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index c171fee..551ee39 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -44,15 +44,11 @@ NORMALIZER get_normalizer(std::string type) {
 
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
   int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
-    icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
+  for (int i = 0; i < normalized.length(); i++) {
+    UChar32 code_point = normalized[i];
     std::string normalized_str;
-    unicode_normalized_str.toUTF8String(normalized_str);
+    icu::UnicodeString::fromUTF32(&code_point, 1).toUTF8String(normalized_str);
     offset_ranges.push_back({idx, normalized_str.length()});
     idx += normalized_str.length();
     for (int j = 0; j < normalized_str.length(); j++) {
-- 
2.43.0


From 8e5985f6afe5ad65e8473eb97becca395abfdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 19/39] fix: cleaning text erased the wrong offsets after the
 first removal

Erased characters still advanced the position, which ran past the end of the
offset tables, and the ranges after an erased one kept their old start.
---
 src/normalizer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 551ee39..51b3da5 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -204,6 +204,9 @@ void NormalizedString::transform(int i, std::string op, int n) {
     offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
     offset_ranges.erase(offset_ranges.begin() + i,
                         offset_ranges.begin() + i + 1);
+    for (int j = i; j < offset_ranges.size(); j++) {
+      offset_ranges[j].first -= limit;
+    }
   } else if (op == "pad") {
     std::pair<int, int> offset = offsets[start];
     std::vector<std::pair<int, int>> new_offsets(2, offset);
@@ -477,6 +480,7 @@ NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
       }
     } else {
       normalized.transform(i, "erase", 0);
+      continue;
     }
     i++;
   }
-- 
2.43.0


From 4d5791ab2395fb570c6e498321d649f68f80e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 20/39] fix: the replace normalizer edited the text under its
 own iterator

It also erased one character per match whatever the pattern's length, and
took the literal pattern for a regular expression.
---
 src/normalizer.cpp | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 51b3da5..6b8a7f5 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -11,7 +11,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -582,26 +581,24 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
+  std::wstring replace_pattern = convert_from_string(pattern);
   std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
-  }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
+  if (replace_pattern.empty()) {
+    return normalized;
+  }
+  size_t start = normalized.normalized.find(replace_pattern);
+  while (start != std::wstring::npos) {
+    for (size_t i = replace_content.empty() ? 0 : 1;
+         i < replace_pattern.length(); i++) {
+      normalized.transform(start, "erase", 0);
+    }
+    if (!replace_content.empty()) {
+      normalized.transform(start, "replace", content.length());
+    }
+    normalized.normalized.replace(start, replace_pattern.length(),
+                                  replace_content);
+    start = normalized.normalized.find(replace_pattern,
+                                       start + replace_content.length());
   }
   return normalized;
 }
-- 
2.43.0


From e8eec3cc95738e4e902cb14c894d7835aeee2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 21/39] fix: normalising an empty text or piece indexed empty
 offset tables

---
 src/normalizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 6b8a7f5..610c863 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -148,6 +148,9 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                                        NormalizedString sub_normalized) {
   int original_start = original_offsets.first;
   int original_end = original_offsets.second;
+  if (original_start >= offset_ranges.size()) {
+    return;
+  }
   int offsets_start = offset_ranges[original_start].first;
   int offsets_end = original_end == offset_ranges.size()
                         ? offset_ranges[original_end - 1].first
@@ -167,7 +170,9 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
   int j = new_offset_ranges.size();
   for (int i = original_end; i < offset_ranges.size(); i++) {
     new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
+        {j == 0 ? offset_ranges[original_start].first
+                : new_offset_ranges[j - 1].first +
+                      new_offset_ranges[j - 1].second,
          offset_ranges[i].second});
     j++;
   }
@@ -571,6 +576,9 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
+  if (normalized.normalized.empty()) {
+    return normalized;
+  }
   std::wstring result = convert_from_string(prepend) + normalized.normalized;
   normalized.transform(0, "add", prepend.length());
   normalized.normalized = result;
-- 
2.43.0


From 14fac01503d47506e15d00422541791cd445c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 22/39] fix: encoding an empty text indexed empty offset tables

---
 src/tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 00d0336..3c9567d 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -143,6 +143,9 @@ Encoding into_encoding(PreTokenizedString pre_tokenized,
   Encoding encoding;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
+    if (split.tokens.empty()) {
+      continue;
+    }
     std::pair<int, int> transformed_split_offset = {
         pre_tokenized.normalized
             .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-- 
2.43.0


From 8ab6b3d82154b89c8003e03dd7dfd53b34ce0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 23/39] fix: BERT normalisation depended on the process locale

In the default C locale only ASCII was lowercased and only ASCII white space
and control characters were cleaned.
---
 src/normalizer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 610c863..03cf5d1 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -450,7 +450,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(static_cast<UChar32>(c));
   }
 }
 
@@ -461,7 +461,7 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return u_charType(static_cast<UChar32>(c)) == U_CONTROL_CHAR;
   }
 }
 
@@ -553,7 +553,9 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  std::transform(result.begin(), result.end(), result.begin(), [](wchar_t c) {
+    return static_cast<wchar_t>(u_tolower(static_cast<UChar32>(c)));
+  });
   normalized.normalized = result;
   return normalized;
 }
-- 
2.43.0


From edcf87e5c7441ba0087005ce7573d4108fcb9ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 24/39] fix: stripping removed letters whose low byte is a
 space

The character was cut to eight bits, so U+0120 was taken for a space.
---
 src/normalizer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 03cf5d1..1881466 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -620,13 +620,13 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           u_isUWhiteSpace(
+               static_cast<UChar32>(normalized.normalized[start]))) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
+    while (end > start && u_isUWhiteSpace(static_cast<UChar32>(
                               normalized.normalized[end - 1]))) {
       --end;
     }
-- 
2.43.0


From 091f9b91040361eca4120324fabe4877829953f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 25/39] fix: accents were stripped although the configuration
 says not to

strip_accents only follows lowercase when it is unset.
---
 include/tokenizers/normalizer.h |  2 +-
 src/normalizer.cpp              | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..90e3db4 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -60,7 +60,7 @@ class BertNormalizer : public Normalizer {
  public:
   explicit BertNormalizer(bool clean_text = true,
                           bool handle_chinese_chars = true,
-                          bool strip_accents = false, bool lowercase = true);
+                          bool strip_accents = true, bool lowercase = true);
   NormalizedString normalize(NormalizedString normalized) const override;
 
  private:
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 1881466..d86f4a6 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -118,14 +118,14 @@ std::unique_ptr<Normalizer> with_normalizer(
         val.type() == simdjson::ondemand::json_type::null
             ? false
             : static_cast<bool>(val.get_bool());
-    val = normalizer_params["strip_accents"].value();
-    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
-                             ? false
-                             : static_cast<bool>(val.get_bool());
     val = normalizer_params["lowercase"].value();
     bool lowercase = val.type() == simdjson::ondemand::json_type::null
                          ? false
                          : static_cast<bool>(val.get_bool());
+    val = normalizer_params["strip_accents"].value();
+    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
+                             ? lowercase
+                             : static_cast<bool>(val.get_bool());
     return std::make_unique<BertNormalizer>(BertNormalizer(
         clean_text, handle_chinese_chars, strip_accents, lowercase));
   } else if (get_normalizer(type) == STRIP_NORMALIZER) {
@@ -434,7 +434,7 @@ NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
   if (handle_chinese_chars) {
     normalized = do_handle_chinese_chars(normalized);
   }
-  if (strip_accents || lowercase) {
+  if (strip_accents) {
     normalized = do_strip_accents(normalized);
   }
   if (lowercase) {
-- 
2.43.0


From 036bb028bbdf5094c9beb54f5218b70c93fe1790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 26/39] fix: adding a prefix space discarded recognised tokens
 and earlier splits

The whole text was taken as one new piece, and an empty text threw.
---
 src/pre_tokenizer.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 62a6cec..08fb573 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -260,12 +260,19 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
+  if (add_prefix_space && !pre_tokenized.normalized.normalized.empty() &&
+      !u_isUWhiteSpace(pre_tokenized.normalized.normalized[0]) &&
+      !pre_tokenized.splits.empty() && pre_tokenized.splits[0].tokens.empty()) {
     pre_tokenized.normalized.normalized =
         std::wstring(L" ") + pre_tokenized.normalized.normalized;
     pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+    for (Split& split : pre_tokenized.splits) {
+      split.offsets.first += 1;
+      split.offsets.second += 1;
+    }
+    pre_tokenized.splits[0].normalized =
+        " " + pre_tokenized.splits[0].normalized;
+    pre_tokenized.splits[0].offsets.first -= 1;
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-- 
2.43.0


From 8781bcf96fbd1af234cc8037d77d94b4817a404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 27/39] fix: byte-level pre-tokenisation rewrote the text of
 recognised tokens

---
 src/pre_tokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 08fb573..8c54b46 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -283,6 +283,9 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
   for (Split& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string new_split_normalized;
     for (const char c : split.normalized) {
       new_split_normalized += BYTES_CHAR.at(static_cast<unsigned char>(c));
-- 
2.43.0


From 9ec340f65251e472f4aae5fc937c525b2d1e676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 28/39] fix: the split pre-tokenizer ignored its invert option

---
 src/pre_tokenizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 8c54b46..156f6f7 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -242,7 +242,13 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(pattern, input);
+    if (invert) {
+      for (auto& match : matches) {
+        match.second = !match.second;
+      }
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
-- 
2.43.0


From a3948fa3e5f3fc8d5a99e2c038e51007fa9f6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 29/39] fix: byte-level decoding cut characters to eight bits

Bytes whose character is above U+00FF were looked up by the wrong key and
came out as other bytes.
---
 src/decoder.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..ef470a2 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -203,13 +203,15 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
-    for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
+    for (int i = 0; i < unicode_token.length();
+         i = unicode_token.moveIndex32(i, 1)) {
+      std::string ch;
+      icu::UnicodeString(unicode_token.char32At(i)).toUTF8String(ch);
+      auto it = CHAR_BYTES.find(ch);
       if (it != CHAR_BYTES.end()) {
         result.push_back(static_cast<char>(it->second));
       } else {
-        result.push_back(ch);
+        result += ch;
       }
     }
   }
-- 
2.43.0


From 4efc3718916c30dd1089bb937f0a30e18b163ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 30/39] fix: the replace, byte-fallback, fuse and strip
 decoders returned nothing

The documentation lists them as done, but decoding with them gave an empty
text.
---
 src/decoder.cpp | 58 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index ef470a2..604f6f4 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -155,21 +155,57 @@ ReplaceDecoder::ReplaceDecoder(const std::string& pattern,
 
 std::vector<std::string> ReplaceDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (pattern.empty()) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    token = replace(token, pattern, content);
+  }
+  return tokens;
 }
 
 ByteFallbackDecoder::ByteFallbackDecoder() {}
 
 std::vector<std::string> ByteFallbackDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::vector<std::string> result;
+  std::string bytes;
+  auto flush = [&result, &bytes]() {
+    if (simdjson::validate_utf8(bytes)) {
+      result.push_back(bytes);
+    } else {
+      result.insert(result.end(), bytes.length(), "\xEF\xBF\xBD");
+    }
+    bytes.clear();
+  };
+  for (const std::string& token : tokens) {
+    if (token.length() == 6 && token.compare(0, 3, "<0x") == 0 &&
+        token.find_first_not_of("0123456789abcdefABCDEF", 3) == 5 &&
+        token[5] == '>') {
+      bytes.push_back(
+          static_cast<char>(std::stoi(token.substr(3, 2), nullptr, 16)));
+      continue;
+    }
+    if (!bytes.empty()) {
+      flush();
+    }
+    result.push_back(token);
+  }
+  if (!bytes.empty()) {
+    flush();
+  }
+  return result;
 }
 
 FuseDecoder::FuseDecoder() {}
 
 std::vector<std::string> FuseDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::string result;
+  for (const std::string& token : tokens) {
+    result += token;
+  }
+  return {result};
 }
 
 StripDecoder::StripDecoder(const std::string& content, int start, int stop)
@@ -177,7 +213,21 @@ StripDecoder::StripDecoder(const std::string& content, int start, int stop)
 
 std::vector<std::string> StripDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (content.empty()) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    for (int i = 0; i < start && token.rfind(content, 0) == 0; i++) {
+      token.erase(0, content.length());
+    }
+    for (int i = 0; i < stop && token.length() >= content.length() &&
+                    token.compare(token.length() - content.length(),
+                                  content.length(), content) == 0;
+         i++) {
+      token.erase(token.length() - content.length());
+    }
+  }
+  return tokens;
 }
 
 SequenceDecoder::SequenceDecoder(std::vector<std::unique_ptr<Decoder>> decoders)
-- 
2.43.0


From 94fe4a69ebf047651bef20abb618450f0485370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 31/39] fix: template post-processing lost the overflow windows

---
 src/post_processor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index a0b78d8..9e37cc3 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -143,6 +143,10 @@ TemplateProcessing::TemplateProcessing(
 
 Encoding TemplateProcessing::process(Encoding encoding,
                                      bool add_special_tokens) const {
+  std::vector<Encoding> overflowing = encoding.overflowing;
+  for (Encoding& overflowing_encoding : overflowing) {
+    overflowing_encoding = process(overflowing_encoding, add_special_tokens);
+  }
   std::vector<Encoding> final_encodings;
   for (auto piece : single) {
     if (piece.first == "Sequence") {
@@ -202,6 +206,7 @@ Encoding TemplateProcessing::process(Encoding encoding,
                                  final_encoding.attention_mask.begin(),
                                  final_encoding.attention_mask.end());
   }
+  result.overflowing = overflowing;
   return result;
 }
 
-- 
2.43.0


From 682353daafd1d99fead9b00e62f8b18a33f3b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 32/39] fix: look up a recognised token without inserting into
 the vocabulary

---
 src/added_vocabulary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index e573365..83ddde1 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -210,7 +210,7 @@ AddedVocabulary::find_matches(
   for (auto match : matches) {
     int start = std::get<0>(match), stop = std::get<1>(match),
         id = std::get<2>(match);
-    AddedToken added_token = added_tokens_map_r[id];
+    AddedToken added_token = added_tokens_map_r.at(id);
     if (encode_special_tokens &&
         special_tokens_set.count(added_token.content) > 0) {
       continue;
-- 
2.43.0


From dc25ee9682a680e3d7a190442b5ae78e2aa537e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 33/39] fix: the Android bridge passed UTF-16 units as code
 points

Characters above U+FFFF arrived as two surrogates, which are no text.
---
 .../src/main/cpp/tokenizers_android_jni.cpp               | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 080695d..d7a07b4 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,4 +1,5 @@
 #include <jni.h>
+#include <unicode/utf16.h>
 
 #include <string>
 #include <vector>
@@ -20,7 +21,12 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
   const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
   jsize sequence_length = env->GetStringLength(sequence);
-  std::wstring wsequence(sequence_str, sequence_str + sequence_length);
+  std::wstring wsequence;
+  for (jsize i = 0; i < sequence_length;) {
+    UChar32 code_point;
+    U16_NEXT(sequence_str, i, sequence_length, code_point);
+    wsequence.push_back(static_cast<wchar_t>(code_point));
+  }
   env->ReleaseStringChars(sequence, sequence_str);
   Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
   jintArray ids_array = env->NewIntArray(encoding.ids.size());
-- 
2.43.0


From c3bf4d457403b00d37dbe57cfed253f85ed33de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 34/39] fix: C++ exceptions escaped from the Android bridge
 into the Java runtime

The pinned config string was also leaked when the tokenizer raised.
---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index d7a07b4..6c78e08 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,16 +1,29 @@
 #include <jni.h>
 #include <unicode/utf16.h>
 
+#include <exception>
 #include <string>
 #include <vector>
 
 #include "tokenizers/tokenizer.h"
 
+static void throw_java_exception(JNIEnv *env, const std::exception &e) {
+  env->ThrowNew(env->FindClass("java/lang/RuntimeException"), e.what());
+}
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
   const char *config_str = env->GetStringUTFChars(config, nullptr);
-  Tokenizer *tokenizer = new Tokenizer("", std::string(config_str));
+  if (config_str == nullptr) {
+    return 0;
+  }
+  Tokenizer *tokenizer = nullptr;
+  try {
+    tokenizer = new Tokenizer("", std::string(config_str));
+  } catch (const std::exception &e) {
+    throw_java_exception(env, e);
+  }
   env->ReleaseStringUTFChars(config, config_str);
   return (jlong)tokenizer;
 }
@@ -28,7 +41,13 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
     wsequence.push_back(static_cast<wchar_t>(code_point));
   }
   env->ReleaseStringChars(sequence, sequence_str);
-  Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
+  Encoding encoding;
+  try {
+    encoding = tokenizer->encode(wsequence, add_special_tokens);
+  } catch (const std::exception &e) {
+    throw_java_exception(env, e);
+    return nullptr;
+  }
   jintArray ids_array = env->NewIntArray(encoding.ids.size());
   env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
                          encoding.ids.data());
@@ -42,6 +61,12 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   jint *ids_array = env->GetIntArrayElements(ids, nullptr);
   std::vector<int> ids_vector(ids_array, ids_array + length);
   env->ReleaseIntArrayElements(ids, ids_array, 0);
-  std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
+  std::string decoded;
+  try {
+    decoded = tokenizer->decode(ids_vector, skip_special_tokens);
+  } catch (const std::exception &e) {
+    throw_java_exception(env, e);
+    return nullptr;
+  }
   return env->NewStringUTF(decoded.c_str());
 }
\ No newline at end of file
-- 
2.43.0


From 6d01aff106365577d6c4e59e80f54b0431b99b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 35/39] fix: releasing the id array wrote it back to Java

---
 .../tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 6c78e08..04e643d 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -60,7 +60,7 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   jsize length = env->GetArrayLength(ids);
   jint *ids_array = env->GetIntArrayElements(ids, nullptr);
   std::vector<int> ids_vector(ids_array, ids_array + length);
-  env->ReleaseIntArrayElements(ids, ids_array, 0);
+  env->ReleaseIntArrayElements(ids, ids_array, JNI_ABORT);
   std::string decoded;
   try {
     decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-- 
2.43.0


From 319d4daf398c2d64a76af3f2aa25dd4a4b0c4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 36/39] fix: byte-level pre-tokenisation used four characters
 of its pattern

std::regex_constants::optimize (4) was taken as the length of the string, so
the pattern was "'s|'" instead of the GPT-2 one.
---
 src/pre_tokenizer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 156f6f7..af4b62d 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -10,7 +10,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <stdexcept>
 #include <string>
 #include <unordered_map>
@@ -260,8 +259,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From 54c62df94b0fa77635a5b693a876bedeca8fc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 37/39] fix: read BPE merges independently of the global locale

---
 src/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model.cpp b/src/model.cpp
index d160849..a0df00b 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -5,6 +5,7 @@
 #include <unicode/unistr.h>
 
 #include <iostream>
+#include <locale>
 #include <memory>
 #include <optional>
 #include <queue>
@@ -319,6 +320,7 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
     std::istringstream iss(merges_list[i]);
+    iss.imbue(std::locale::classic());
     std::string part1, part2;
     if (iss >> part1 >> part2) {
       auto it1 = vocab.find(part1);
-- 
2.43.0


From fadaa5879ed3ae508d5e5b912ceac00a31601a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 38/39] fix: match added-token boundaries independently of the
 global locale

---
 src/added_vocabulary.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 83ddde1..23dc006 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -5,6 +5,7 @@
 #include <unicode/unistr.h>
 
 #include <algorithm>
+#include <locale>
 #include <memory>
 #include <optional>
 #include <regex>
@@ -148,17 +149,25 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
 }
 
+// the character classes of the C locale, whatever the global one is
+static std::regex classic_regex(const std::string& pattern) {
+  std::regex re;
+  re.imbue(std::locale::classic());
+  re.assign(pattern);
+  return re;
+}
+
 bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
+  return std::regex_search(sentence, classic_regex("\\w$"));
 }
 
 bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
+  return std::regex_search(sentence, classic_regex("^\\w"));
 }
 
 size_t space_leftmost_at_end(std::string sentence) {
   std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
+  if (std::regex_search(sentence, match, classic_regex("\\s*$"))) {
     return match.position();
   } else {
     return sentence.length();
@@ -167,7 +176,7 @@ size_t space_leftmost_at_end(std::string sentence) {
 
 size_t space_rightmost_at_start(std::string sentence) {
   std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
+  if (std::regex_search(sentence, match, classic_regex("^\\s*"))) {
     return match.length();
   } else {
     return 0;
-- 
2.43.0


From c53d84ba536327c63901e92b55fe62510963d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:50 +0000
Subject: [PATCH 39/39] fix: WordPiece counts and cuts words in characters, not
 UTF-16 units

---
 src/model.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index a0df00b..21ab221 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -146,9 +146,8 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     if (!split.tokens.empty()) {
       continue;
     }
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
-    int char_len = unicode_sequence.length();
+    std::wstring sequence = convert_from_string(split.normalized);
+    int char_len = sequence.length();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
       if (it == vocab.end()) {
@@ -161,14 +160,12 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     bool is_bad = false;
     int start = 0;
     std::vector<Token> sub_tokens;
-    while (start < unicode_sequence.length()) {
-      int end = unicode_sequence.length();
+    while (start < char_len) {
+      int end = char_len;
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
-        icu::UnicodeString unicode_sub_sequence =
-            unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence =
+            convert_to_string(sequence.substr(start, end - start));
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
-- 
2.43.0

