From 8723c2b35645ebdf51fa2a3b75151f8a8124ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 01/83] fix: reject non-ASCII hex colors in markup instead of
 panicking

---
 crates/rich/src/color.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/rich/src/color.rs b/crates/rich/src/color.rs
index a333573..5294a82 100644
--- a/crates/rich/src/color.rs
+++ b/crates/rich/src/color.rs
@@ -53,6 +53,12 @@ impl Color {
 
     /// Parse a hex color (without the # prefix).
     fn parse_hex(hex: &str) -> Result<Self, ColorParseError> {
+        // The digits are indexed below by character; non-ASCII input has fewer
+        // characters than bytes and can never be a valid color.
+        if !hex.is_ascii() {
+            return Err(ColorParseError::InvalidHex(format!("#{}", hex)));
+        }
+
         match hex.len() {
             // #RGB
             3 => {
-- 
2.43.0


From aa1f4e50edc4f29d2908f439985a4aadec9f70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 02/83] fix: fuzzy search misses matches near the end of the
 candidate

---
 crates/textual/src/fuzzy.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index d1858b0..1d3181b 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -54,11 +54,13 @@ impl FuzzySearch {
             while index < candidate_len {
                 if candidate_chars[index] == *letter {
                     positions.push(index);
+                    // Only stop early once the letter has been found, otherwise
+                    // a match near the end of the candidate would be missed.
+                    if index + 1 >= last_index {
+                        break;
+                    }
                 }
                 index += 1;
-                if index >= last_index {
-                    break;
-                }
             }
             if positions.is_empty() {
                 return (0.0, Vec::new());
-- 
2.43.0


From df0de7611d4f6e3c39c53cc5fa94246866eee53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 03/83] fix: fuzzy match offsets are wrong after characters
 whose lowercase is longer

---
 crates/textual/src/fuzzy.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/fuzzy.rs b/crates/textual/src/fuzzy.rs
index 1d3181b..24e346c 100644
--- a/crates/textual/src/fuzzy.rs
+++ b/crates/textual/src/fuzzy.rs
@@ -27,7 +27,7 @@ impl FuzzySearch {
         let (query, candidate) = if self.case_sensitive {
             (query.to_string(), candidate.to_string())
         } else {
-            (query.to_lowercase(), candidate.to_lowercase())
+            (fold_case(query), fold_case(candidate))
         };
 
         // Fast path: substring match.
@@ -197,6 +197,22 @@ impl Matcher {
     }
 }
 
+/// Lowercase a string one character at a time.
+///
+/// Unlike `str::to_lowercase` this never changes the number of characters, so
+/// match positions are valid in the original string.
+fn fold_case(s: &str) -> String {
+    s.chars()
+        .map(|ch| {
+            let mut lower = ch.to_lowercase();
+            match (lower.next(), lower.next()) {
+                (Some(l), None) => l,
+                _ => ch,
+            }
+        })
+        .collect()
+}
+
 fn is_word_char(ch: char) -> bool {
     ch.is_alphanumeric() || ch == '_'
 }
-- 
2.43.0


From ce91e657b73ed556b48f827b39589efdce7485b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:35 +0000
Subject: [PATCH 04/83] fix: inner markup tags are overridden by the tags
 around them

---
 crates/rich/src/parser/markup.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/rich/src/parser/markup.rs b/crates/rich/src/parser/markup.rs
index ecd47d3..752e25e 100644
--- a/crates/rich/src/parser/markup.rs
+++ b/crates/rich/src/parser/markup.rs
@@ -39,7 +39,8 @@ pub fn parse(input: &str) -> Result<ParsedMarkup, RichParseError> {
     // Close any remaining open tags
     parser.close_all_remaining();
 
-    Ok(ParsedMarkup::new(parser.output, parser.spans))
+    let spans = parser.take_spans();
+    Ok(ParsedMarkup::new(parser.output, spans))
 }
 
 /// The main parser state.
@@ -48,8 +49,10 @@ struct Parser {
     style_stack: Vec<StackEntry>,
     /// Output plain text (markup stripped).
     output: String,
-    /// Generated spans.
-    spans: Vec<Span>,
+    /// Generated spans, each with the position of its opening tag in the source.
+    spans: Vec<(usize, Span)>,
+    /// Number of tags opened so far.
+    opened: usize,
 }
 
 /// An entry on the style stack.
@@ -63,6 +66,8 @@ struct StackEntry {
     start_pos: usize,
     /// Original tag content (for matching close tags).
     tag_content: String,
+    /// Position of this tag among all opening tags.
+    order: usize,
 }
 
 impl Parser {
@@ -72,6 +77,7 @@ impl Parser {
             style_stack: Vec::new(),
             output: String::new(),
             spans: Vec::new(),
+            opened: 0,
         }
     }
 
@@ -140,7 +146,9 @@ impl Parser {
             meta,
             start_pos: self.output.len(),
             tag_content,
+            order: self.opened,
         };
+        self.opened += 1;
         self.style_stack.push(entry);
     }
 
@@ -189,10 +197,21 @@ impl Parser {
         // Only create span if there's actual content and styling
         if end_pos > entry.start_pos && (!entry.style.is_empty() || !entry.meta.is_empty()) {
             let span = Span::with_meta(entry.start_pos, end_pos, entry.style, entry.meta);
-            self.spans.push(span);
+            self.spans.push((entry.order, span));
         }
     }
 
+    /// Take the generated spans, outer tags before the tags nested inside them.
+    ///
+    /// Spans are generated when their tag is closed (innermost first) but later
+    /// spans take precedence when styles are combined, so they are put back in
+    /// opening order to let an inner tag override an outer one.
+    fn take_spans(&mut self) -> Vec<Span> {
+        let mut spans = std::mem::take(&mut self.spans);
+        spans.sort_by_key(|(order, _)| *order);
+        spans.into_iter().map(|(_, span)| span).collect()
+    }
+
     /// Close all remaining open tags.
     fn close_all_remaining(&mut self) {
         while !self.style_stack.is_empty() {
-- 
2.43.0


From 999a1c096998f965e1778f7b9c1e10769e89e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:28 +0000
Subject: [PATCH 05/83] fix: folding text splits wide characters and overflows
 the width

---
 crates/textual/src/content.rs | 36 ++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 8df4ef1..5800845 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -840,16 +840,42 @@ fn split_strip_by_width(strip: &Strip, width: usize) -> Vec<Strip> {
     if total == 0 {
         return vec![Strip::new()];
     }
+    // Break between graphemes, so that a wide grapheme that does not fit at the
+    // end of a part moves to the next one as a whole.
     let mut parts = Vec::new();
-    let mut start = 0;
-    while start < total {
-        let end = (start + width).min(total);
-        parts.push(strip.crop(start, end));
-        start = end;
+    let mut current: Vec<Segment> = Vec::new();
+    let mut current_width = 0;
+    for segment in strip.segments() {
+        let mut text = String::new();
+        for grapheme in graphemes(segment.text()) {
+            let grapheme_width = display_width(grapheme);
+            if current_width > 0 && current_width + grapheme_width > width {
+                if !text.is_empty() {
+                    current.push(segment_with_text(segment, std::mem::take(&mut text)));
+                }
+                parts.push(Strip::from_segments(std::mem::take(&mut current)));
+                current_width = 0;
+            }
+            text.push_str(grapheme);
+            current_width += grapheme_width;
+        }
+        if !text.is_empty() {
+            current.push(segment_with_text(segment, text));
+        }
+    }
+    if !current.is_empty() {
+        parts.push(Strip::from_segments(current));
     }
     parts
 }
 
+/// A segment with new text but the style and metadata of another one.
+fn segment_with_text(segment: &Segment, text: String) -> Segment {
+    Segment::new(text)
+        .set_style(segment.style().cloned())
+        .with_meta(segment.meta().clone())
+}
+
 fn truncate_with_ellipsis(strip: &Strip, width: usize) -> Strip {
     if width == 0 {
         return Strip::new();
-- 
2.43.0


From 6cf0f42f52c903403a639ed2edc4f44b530b319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:28 +0000
Subject: [PATCH 06/83] fix: cropping a strip inside a wide character gives the
 wrong width and cells

---
 crates/textual/src/strip.rs | 46 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 7057158..f015581 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -11,6 +11,7 @@
 //!         You are here
 //! ```
 
+use crate::grapheme::{display_width, graphemes};
 use crate::segment::{Segment, Style};
 use smallvec::{SmallVec, smallvec};
 use std::collections::HashMap;
@@ -200,24 +201,10 @@ impl Strip {
             if local_start == 0 && local_end == seg_len {
                 // Include entire segment
                 result_segments.push(segment.clone());
-            } else if local_start == 0 {
-                // Take from start
-                let (left, _) = segment.split_at(local_end);
-                if !left.is_empty() {
-                    result_segments.push(left);
-                }
-            } else if local_end == seg_len {
-                // Take to end
-                let (_, right) = segment.split_at(local_start);
-                if !right.is_empty() {
-                    result_segments.push(right);
-                }
             } else {
-                // Take middle portion
-                let (_, temp) = segment.split_at(local_start);
-                let (middle, _) = temp.split_at(local_end - local_start);
-                if !middle.is_empty() {
-                    result_segments.push(middle);
+                let part = crop_segment(segment, local_start, local_end);
+                if !part.is_empty() {
+                    result_segments.push(part);
                 }
             }
 
@@ -475,6 +462,31 @@ impl Strip {
     }
 }
 
+/// Extracts the cells [start, end) of a segment.
+///
+/// A wide grapheme that is only partly inside the range is replaced by spaces,
+/// so the result is always exactly `end - start` cells wide.
+fn crop_segment(segment: &Segment, start: usize, end: usize) -> Segment {
+    let mut text = String::new();
+    let mut pos = 0;
+
+    for grapheme in graphemes(segment.text()) {
+        let grapheme_end = pos + display_width(grapheme);
+        if pos >= start && grapheme_end <= end {
+            // Zero-width graphemes at the start belong to the cell before it
+            if grapheme_end > start || start == 0 {
+                text.push_str(grapheme);
+            }
+        } else {
+            let visible = grapheme_end.min(end).saturating_sub(pos.max(start));
+            text.push_str(&" ".repeat(visible));
+        }
+        pos = grapheme_end;
+    }
+
+    build_segment(&text, segment.style().cloned(), segment.meta())
+}
+
 fn build_segment(text: &str, style: Option<Style>, meta: &HashMap<String, String>) -> Segment {
     let mut segment = match style {
         Some(style) => Segment::styled(text, style),
-- 
2.43.0


From e4a6743da582cf66165f1198b62d496a8932d425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:50 +0000
Subject: [PATCH 07/83] fix: simplifying a strip drops segment metadata such as
 links

---
 crates/textual/src/strip.rs | 52 +++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index f015581..1b38a0f 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -248,7 +248,7 @@ impl Strip {
         Strip::from_segments(segments)
     }
 
-    /// Merges adjacent segments with identical styles.
+    /// Merges adjacent segments with identical styles and metadata.
     ///
     /// This reduces memory usage and simplifies rendering.
     pub fn simplify(&self) -> Strip {
@@ -258,36 +258,42 @@ impl Strip {
 
         let mut result = SegmentVec::new();
         let mut current_text = String::new();
-        let mut current_style: Option<Style> = None;
-        let mut has_current = false;
+        let mut current: Option<&Segment> = None;
 
         for segment in &self.segments {
-            if !has_current {
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
-                has_current = true;
-            } else if segment.style() == current_style.as_ref() {
-                // Same style, merge text
-                current_text.push_str(segment.text());
-            } else {
-                // Different style, emit current and start new
-                if !current_text.is_empty() {
-                    match current_style {
-                        Some(s) => result.push(Segment::styled(current_text, s)),
-                        None => result.push(Segment::new(current_text)),
+            match current {
+                // Same style and metadata, merge text
+                Some(first)
+                    if segment.style() == first.style() && segment.meta() == first.meta() =>
+                {
+                    current_text.push_str(segment.text());
+                }
+                _ => {
+                    // Different, emit current and start new
+                    if let Some(first) = current
+                        && !current_text.is_empty()
+                    {
+                        result.push(build_segment(
+                            &current_text,
+                            first.style().cloned(),
+                            first.meta(),
+                        ));
                     }
+                    current_text = segment.text().to_string();
+                    current = Some(segment);
                 }
-                current_text = segment.text().to_string();
-                current_style = segment.style().cloned();
             }
         }
 
         // Emit final segment
-        if !current_text.is_empty() {
-            match current_style {
-                Some(s) => result.push(Segment::styled(current_text, s)),
-                None => result.push(Segment::new(current_text)),
-            }
+        if let Some(first) = current
+            && !current_text.is_empty()
+        {
+            result.push(build_segment(
+                &current_text,
+                first.style().cloned(),
+                first.meta(),
+            ));
         }
 
         Strip::from_smallvec(result)
-- 
2.43.0


From 59c0e3819a3230870f2e9cbee354108d29385aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:06 +0000
Subject: [PATCH 08/83] fix: wrapping styled text overflows the width on long
 words and repeated spaces

---
 crates/textual/src/content.rs | 103 ++++++++++++++--------------------
 1 file changed, 42 insertions(+), 61 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 5800845..9be319b 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -658,15 +658,11 @@ impl Content {
         spans: &[InternalSpan],
     ) -> Vec<Strip> {
         let mut result = Vec::new();
-        let mut current_width = 0;
-
-        // Process word by word
-        let words: Vec<&str> = line.split_whitespace().collect();
         let mut word_positions: Vec<(usize, usize)> = Vec::new(); // (start, end) byte positions
 
         // Find byte positions of each word in the line
         let mut search_start = 0;
-        for word in &words {
+        for word in line.split_whitespace() {
             if let Some(pos) = line[search_start..].find(word) {
                 let abs_pos = search_start + pos;
                 word_positions.push((abs_pos, abs_pos + word.len()));
@@ -674,68 +670,53 @@ impl Content {
             }
         }
 
-        let mut current_segment_start = 0;
-        let mut i = 0;
+        let render = |start: usize, end: usize| {
+            self.render_line_with_spans(
+                &line[start..end],
+                line_start + start,
+                line_start + end,
+                spans,
+            )
+        };
 
-        while i < words.len() {
-            let word = words[i];
-            let word_width = display_width(word);
+        // A line of whitespace only still takes up a line
+        if word_positions.is_empty() {
+            result.push(render(0, line.len()).crop(0, width));
+            return result;
+        }
 
-            if current_width == 0 {
-                // Start of line
-                if word_width <= width {
-                    current_width = word_width;
-                    i += 1;
-                } else {
-                    // Word too long, need to break it - use the simple approach for now
-                    let (word_byte_start, word_byte_end) = word_positions[i];
-                    let segment_text = &line[word_byte_start..word_byte_end];
-                    let abs_start = line_start + word_byte_start;
-                    let abs_end = line_start + word_byte_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-                    current_segment_start = if i + 1 < word_positions.len() {
-                        word_positions[i + 1].0
-                    } else {
-                        line.len()
-                    };
-                    current_width = 0;
-                    i += 1;
-                }
+        // Byte range of the output line being filled
+        let mut current: Option<(usize, usize)> = None;
+
+        for (word_start, word_end) in word_positions {
+            // The first output line keeps the leading whitespace
+            let start = match current {
+                Some((start, _)) => start,
+                None if result.is_empty() => 0,
+                None => word_start,
+            };
+
+            // Measure the text as rendered, including the whitespace in it
+            if display_width(&line[start..word_end]) <= width {
+                current = Some((start, word_end));
+                continue;
+            }
+
+            // Word doesn't fit, emit the current output line
+            if let Some((start, end)) = current.take() {
+                result.push(render(start, end));
+            }
+            if display_width(&line[word_start..word_end]) <= width {
+                current = Some((word_start, word_end));
             } else {
-                let space_and_word = 1 + word_width;
-                if current_width + space_and_word <= width {
-                    // Word fits
-                    current_width += space_and_word;
-                    i += 1;
-                } else {
-                    // Word doesn't fit, emit current segment
-                    let segment_end = if i > 0 { word_positions[i - 1].1 } else { 0 };
-                    let segment_text = &line[current_segment_start..segment_end];
-                    let abs_start = line_start + current_segment_start;
-                    let abs_end = line_start + segment_end;
-                    let strip =
-                        self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                    result.push(strip);
-
-                    // Start new segment at this word
-                    current_segment_start = word_positions[i].0;
-                    current_width = 0;
-                }
+                // Word too long, need to break it
+                result.extend(split_strip_by_width(&render(word_start, word_end), width));
             }
         }
 
-        // Emit final segment
-        if current_width > 0 && !words.is_empty() {
-            let segment_end = word_positions.last().map(|(_, e)| *e).unwrap_or(line.len());
-            let segment_text = &line[current_segment_start..segment_end];
-            if !segment_text.is_empty() {
-                let abs_start = line_start + current_segment_start;
-                let abs_end = line_start + segment_end;
-                let strip = self.render_line_with_spans(segment_text, abs_start, abs_end, spans);
-                result.push(strip);
-            }
+        // Emit final output line
+        if let Some((start, end)) = current {
+            result.push(render(start, end));
         }
 
         result
-- 
2.43.0


From 9ab221d56873e0c04084d73febb0fc4eeda52732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 09/83] fix: wrapping drops lines that contain only whitespace

---
 crates/textual/src/content.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 9be319b..5ad8617 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -764,8 +764,8 @@ impl Content {
             }
         }
 
-        // Emit final line
-        if !current_line.is_empty() {
+        // Emit final line (a line of whitespace only still takes up a line)
+        if !current_line.is_empty() || result.is_empty() {
             let segment = match &self.style {
                 Some(s) => Segment::styled(&current_line, s.clone()),
                 None => Segment::new(&current_line),
-- 
2.43.0


From a588a622b323fb0d51fa6aad722069829962696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 10/83] fix: canvas panics on terminals with more than 65535
 cells

---
 crates/textual/src/canvas.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 0292538..4bc9cdb 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -140,7 +140,7 @@ impl Canvas {
             bg: None,
             attrs: TextAttributes::default(),
         };
-        let cell_count = (width * height) as usize;
+        let cell_count = width as usize * height as usize;
         Self {
             size: Size { width, height },
             cells: vec![blank_cell.clone(); cell_count],
-- 
2.43.0


From 08b641df23d2c9e563702c2521b5bb00d5a38cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:59 +0000
Subject: [PATCH 11/83] fix: overwriting half of a wide character leaves stale
 cells on the terminal

---
 crates/textual/src/canvas.rs | 38 ++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 4bc9cdb..486a165 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -292,6 +292,10 @@ impl Canvas {
             && fg.is_none()
             && attrs == TextAttributes::default();
 
+        if !preserve_text {
+            self.blank_partly_covered(x, y, width);
+        }
+
         let index = (y as usize) * (self.size.width as usize) + (x as usize);
         let new_bg = resolve_background(bg, self.cells[index].bg);
         if preserve_text {
@@ -336,6 +340,40 @@ impl Canvas {
         }
     }
 
+    /// Blanks the halves of wide graphemes that are left over when the cells
+    /// [x, x + width) of a row are about to be overwritten.
+    ///
+    /// A terminal can't show half of a wide grapheme, so a lead cell always has
+    /// to be followed by all of its continuation cells.
+    fn blank_partly_covered(&mut self, x: i32, y: i32, width: usize) {
+        let row = (y as usize) * (self.size.width as usize);
+        let row_end = row + self.size.width as usize;
+        let start = row + x as usize;
+        let end = start + width;
+
+        let blank = |cell: &mut Cell| {
+            cell.symbol = " ".to_string();
+            cell.width = 1;
+            cell.continuation = false;
+        };
+
+        // A grapheme that begins before the overwritten cells and reaches into them
+        if self.cells[start].continuation {
+            let mut lead = start;
+            while lead > row && self.cells[lead].continuation {
+                lead -= 1;
+            }
+            self.cells[lead..start].iter_mut().for_each(blank);
+        }
+
+        // A grapheme that begins in the overwritten cells and reaches beyond them
+        let mut index = end;
+        while index < row_end && self.cells[index].continuation {
+            blank(&mut self.cells[index]);
+            index += 1;
+        }
+    }
+
     /// Renders a Strip at the given position.
     ///
     /// Iterates through each segment in the strip and renders its text
-- 
2.43.0


From cf675460d931dba769c4162add5488e6e68fd723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:16 +0000
Subject: [PATCH 12/83] fix: control and zero-width characters in text corrupt
 the terminal

---
 crates/textual/src/canvas.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/canvas.rs b/crates/textual/src/canvas.rs
index 486a165..c4c8c17 100644
--- a/crates/textual/src/canvas.rs
+++ b/crates/textual/src/canvas.rs
@@ -303,8 +303,15 @@ impl Canvas {
                 self.cells[index].bg = Some(bg);
             }
         } else {
+            // Never send control sequences or invisible characters to the
+            // terminal: they would move the cursor away from where we expect it.
+            let symbol = if is_printable(grapheme) {
+                grapheme.to_string()
+            } else {
+                " ".repeat(width)
+            };
             self.cells[index] = Cell {
-                symbol: grapheme.to_string(),
+                symbol,
                 width: width as u8,
                 continuation: false,
                 fg,
@@ -769,6 +776,31 @@ impl Canvas {
     }
 }
 
+/// Whether a grapheme shows up on the terminal when it is written on its own.
+///
+/// Control characters don't, nor do combining marks and invisible formatting
+/// characters that have no base character to attach to.
+fn is_printable(grapheme: &str) -> bool {
+    match grapheme.chars().next() {
+        Some(c) => {
+            !c.is_control()
+                && !matches!(c,
+                    '\u{ad}'
+                    | '\u{300}'..='\u{36f}'
+                    | '\u{1ab0}'..='\u{1aff}'
+                    | '\u{1dc0}'..='\u{1dff}'
+                    | '\u{200b}'..='\u{200f}'
+                    | '\u{2028}'..='\u{202e}'
+                    | '\u{2060}'..='\u{206f}'
+                    | '\u{20d0}'..='\u{20ff}'
+                    | '\u{fe00}'..='\u{fe0f}'
+                    | '\u{fe20}'..='\u{fe2f}'
+                    | '\u{feff}')
+        }
+        None => false,
+    }
+}
+
 fn to_crossterm_color(c: RgbaColor) -> Color {
     // Terminals don't support true alpha transparency, so we pre-composite
     // semi-transparent foreground colors against black (terminal default background).
-- 
2.43.0


From a687dcf3c435e4ce898c7049fb31b9f5e4d222d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:38 +0000
Subject: [PATCH 13/83] fix: an unknown property without a semicolon swallows
 the following rules

---
 crates/tcss/src/parser/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/tcss/src/parser/mod.rs b/crates/tcss/src/parser/mod.rs
index 284b6ed..1e1a7f3 100644
--- a/crates/tcss/src/parser/mod.rs
+++ b/crates/tcss/src/parser/mod.rs
@@ -407,7 +407,5 @@ fn take_until_balanced_braces(input: &str) -> IResult<&str, &str> {
 }
 
 fn take_until_semicolon_or_brace(input: &str) -> IResult<&str, &str> {
-    nom::bytes::complete::take_until(";")(input).or_else(|_: nom::Err<nom::error::Error<&str>>| {
-        nom::bytes::complete::take_until("}")(input)
-    })
+    nom::bytes::complete::take_while(|c: char| c != ';' && c != '}')(input)
 }
-- 
2.43.0


From bb8f35320c24502e63e93765e4b2b7bb383b9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:05 +0000
Subject: [PATCH 14/83] fix: descendant selectors give up after the nearest
 matching ancestor

---
 crates/tcss/src/parser/cascade.rs | 91 +++++++++++--------------------
 1 file changed, 33 insertions(+), 58 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index a4fb433..428810a 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -27,7 +27,8 @@ use bitflags::bitflags;
 
 use crate::{
     parser::{
-        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, Specificity, StyleSheet,
+        Combinator, ComplexSelector, Declaration, Rule, RuleItem, Selector, SelectorPart,
+        Specificity, StyleSheet,
     },
     types::{Border, ComputedStyle, RgbaColor, Theme},
 };
@@ -158,72 +159,46 @@ impl WidgetMeta {
 
         // The rightmost part must match the widget itself.
         let parts = &complex.parts;
-        let mut current_part_idx = parts.len() - 1;
+        let last = parts.len() - 1;
+        if !self.matches_compound(&parts[last], ctx) {
+            return false;
+        }
+
+        Self::matches_ancestors(&parts[..last], ancestors, ctx)
+    }
 
-        if !parts[current_part_idx]
-            .compound
+    /// Checks if this widget matches every simple selector of a part.
+    fn matches_compound(&self, part: &SelectorPart, ctx: &SelectorContext) -> bool {
+        part.compound
             .selectors
             .iter()
             .all(|s| self.matches_selector(s, ctx))
-        {
-            return false;
-        }
+    }
 
-        // If that was the only part, we matched.
-        if parts.len() == 1 {
+    /// Matches the remaining parts (left of the one already matched) against the
+    /// ancestors, trying every ancestor a descendant combinator may refer to.
+    fn matches_ancestors(
+        parts: &[SelectorPart],
+        ancestors: &[WidgetMeta],
+        ctx: &SelectorContext,
+    ) -> bool {
+        let Some((part, rest)) = parts.split_last() else {
             return true;
-        }
-
-        // Match remaining parts against ancestors.
-        let mut ancestor_idx = 0;
-        current_part_idx -= 1;
-
-        while current_part_idx < parts.len() && ancestor_idx < ancestors.len() {
-            let part = &parts[current_part_idx];
-            let ancestor = &ancestors[ancestor_idx];
-
-            let matches = part
-                .compound
-                .selectors
-                .iter()
-                .all(|s| ancestor.matches_selector(s, ctx));
+        };
 
-            match part.combinator {
-                Combinator::Child => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    } else {
-                        return false;
-                    }
-                    ancestor_idx += 1;
-                }
-                Combinator::Descendant | Combinator::None => {
-                    if matches {
-                        if current_part_idx == 0 {
-                            return true;
-                        }
-                        current_part_idx -= 1;
-                    }
-                    ancestor_idx += 1;
-                }
-                // FIX: Add explicit return to satisfy type checker
-                Combinator::AdjacentSibling | Combinator::GeneralSibling => {
-                    return false;
-                }
+        match part.combinator {
+            Combinator::Child => ancestors.first().is_some_and(|parent| {
+                parent.matches_compound(part, ctx)
+                    && Self::matches_ancestors(rest, &ancestors[1..], ctx)
+            }),
+            Combinator::Descendant | Combinator::None => {
+                ancestors.iter().enumerate().any(|(i, ancestor)| {
+                    ancestor.matches_compound(part, ctx)
+                        && Self::matches_ancestors(rest, &ancestors[i + 1..], ctx)
+                })
             }
+            Combinator::AdjacentSibling | Combinator::GeneralSibling => false,
         }
-
-        current_part_idx == usize::MAX
-            || current_part_idx == 0
-                && ancestor_idx < ancestors.len()
-                && parts[0]
-                    .compound
-                    .selectors
-                    .iter()
-                    .all(|s| ancestors[ancestor_idx].matches_selector(s, ctx))
     }
 }
 
-- 
2.43.0


From b5fccaa19058382dccb224ed1911826810835385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:27 +0000
Subject: [PATCH 15/83] fix: a selector list uses the specificity of its first
 matching selector only

---
 crates/tcss/src/parser/cascade.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/tcss/src/parser/cascade.rs b/crates/tcss/src/parser/cascade.rs
index 428810a..8b64ec1 100644
--- a/crates/tcss/src/parser/cascade.rs
+++ b/crates/tcss/src/parser/cascade.rs
@@ -214,16 +214,20 @@ pub fn compute_style(
 
     // 1. Find all matching rules
     for (idx, rule) in stylesheet.rules.iter().enumerate() {
-        for complex in &rule.selectors.selectors {
-            if widget.matches_complex(complex, ancestors, &ctx) {
-                matched_rules.push(MatchedRule {
-                    specificity: complex.specificity(),
-                    source_order: idx,
-                    rule,
-                });
-                // Once one selector in a rule matches, the whole rule applies.
-                break;
-            }
+        // A rule applies with the specificity of its most specific matching selector.
+        let specificity = rule
+            .selectors
+            .selectors
+            .iter()
+            .filter(|complex| widget.matches_complex(complex, ancestors, &ctx))
+            .map(|complex| complex.specificity())
+            .max();
+        if let Some(specificity) = specificity {
+            matched_rules.push(MatchedRule {
+                specificity,
+                source_order: idx,
+                rule,
+            });
         }
     }
 
-- 
2.43.0


From 1fa87e1241caf415d4aa040ed4ccdaddb1c016e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 16/83] fix: color functions with misplaced parentheses panic

---
 crates/tcss/src/types/color.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/tcss/src/types/color.rs b/crates/tcss/src/types/color.rs
index f407041..c0b95e2 100644
--- a/crates/tcss/src/types/color.rs
+++ b/crates/tcss/src/types/color.rs
@@ -531,11 +531,12 @@ impl RgbaColor {
         let start = input.find('(').ok_or_else(|| ColorParseError {
             message: "missing '(' in rgb function".to_string(),
         })?;
-        let end = input.find(')').ok_or_else(|| ColorParseError {
+        let content = &input[start + 1..];
+        let end = content.find(')').ok_or_else(|| ColorParseError {
             message: "missing ')' in rgb function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = &content[..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
@@ -562,11 +563,12 @@ impl RgbaColor {
         let start = input.find('(').ok_or_else(|| ColorParseError {
             message: "missing '(' in hsl function".to_string(),
         })?;
-        let end = input.find(')').ok_or_else(|| ColorParseError {
+        let content = &input[start + 1..];
+        let end = content.find(')').ok_or_else(|| ColorParseError {
             message: "missing ')' in hsl function".to_string(),
         })?;
 
-        let content = &input[start + 1..end];
+        let content = &content[..end];
         let parts: Vec<&str> = content.split(',').map(|s| s.trim()).collect();
 
         if parts.len() < 3 {
-- 
2.43.0


From 7c35421f05e8e616c6e7fee36f02c20647675032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:07 +0000
Subject: [PATCH 17/83] fix: variables defined from other variables or next to
 a rule on the same line are lost

---
 crates/tcss/src/parser/variables.rs | 87 +++++++++++++++++------------
 1 file changed, 52 insertions(+), 35 deletions(-)

diff --git a/crates/tcss/src/parser/variables.rs b/crates/tcss/src/parser/variables.rs
index c7bed1c..3d5c86f 100644
--- a/crates/tcss/src/parser/variables.rs
+++ b/crates/tcss/src/parser/variables.rs
@@ -76,40 +76,60 @@ pub fn resolve_variables(source: &str, vars: &StylesheetVariables) -> Result<Str
     }
 
     // Pass 2: Resolve variables line by line
-    for line in clean_source.lines() {
-        let trimmed = line.trim();
-        // Skip definition lines - they shouldn't be resolved or included in final CSS
-        if trimmed.starts_with('$') {
-            continue;
+    for mut line in clean_source.lines() {
+        // Skip definitions - they shouldn't be resolved or included in final CSS
+        while let Some((_, _, rest)) = split_definition(line) {
+            line = rest;
         }
 
-        let mut resolved_line = String::new();
-        let mut line_chars = line.chars().peekable();
-        while let Some(c) = line_chars.next() {
-            if c == '$' {
-                let mut name = String::new();
-                while let Some(&next) = line_chars.peek() {
-                    if next.is_alphanumeric() || next == '-' || next == '_' {
-                        name.push(line_chars.next().unwrap());
-                    } else {
-                        break;
-                    }
-                }
-                if let Some(val) = vars.resolve(&name) {
-                    resolved_line.push_str(&val);
+        output.push_str(&substitute(line, vars));
+        output.push('\n');
+    }
+
+    Ok(output)
+}
+
+/// Splits a line that starts with a variable definition (`$name: value;`) into
+/// the name, the value and what follows the definition on the same line.
+fn split_definition(line: &str) -> Option<(&str, &str, &str)> {
+    let definition = line.trim_start().strip_prefix('$')?;
+    let (name, rest) = definition.split_once(':')?;
+    let name = name.trim_end();
+    if !name
+        .chars()
+        .all(|c| c.is_alphanumeric() || c == '-' || c == '_')
+    {
+        return None;
+    }
+    let (value, rest) = rest.split_once(';').unwrap_or((rest, ""));
+    Some((name, value.trim(), rest))
+}
+
+/// Replaces every reference (`$name`) to a known variable by its value.
+fn substitute(line: &str, vars: &StylesheetVariables) -> String {
+    let mut resolved_line = String::new();
+    let mut line_chars = line.chars().peekable();
+    while let Some(c) = line_chars.next() {
+        if c == '$' {
+            let mut name = String::new();
+            while let Some(&next) = line_chars.peek() {
+                if next.is_alphanumeric() || next == '-' || next == '_' {
+                    name.push(line_chars.next().unwrap());
                 } else {
-                    resolved_line.push('$');
-                    resolved_line.push_str(&name);
+                    break;
                 }
+            }
+            if let Some(val) = vars.resolve(&name) {
+                resolved_line.push_str(&val);
             } else {
-                resolved_line.push(c);
+                resolved_line.push('$');
+                resolved_line.push_str(&name);
             }
+        } else {
+            resolved_line.push(c);
         }
-        output.push_str(&resolved_line);
-        output.push('\n');
     }
-
-    Ok(output)
+    resolved_line
 }
 
 pub fn extract_variables(source: &str) -> StylesheetVariables {
@@ -128,15 +148,12 @@ pub fn extract_variables(source: &str) -> StylesheetVariables {
             continue;
         }
 
-        if trimmed.starts_with('$') {
-            if let Some(colon_idx) = trimmed.find(':') {
-                let name = trimmed[1..colon_idx].trim().to_string();
-                let mut value = trimmed[colon_idx + 1..].trim();
-                if value.ends_with(';') {
-                    value = &value[..value.len() - 1];
-                }
-                vars.define(name, value.to_string());
-            }
+        let mut rest = trimmed;
+        while let Some((name, value, after)) = split_definition(rest) {
+            // A definition may refer to the variables defined before it.
+            let value = substitute(value, &vars);
+            vars.define(name.to_string(), value);
+            rest = after;
         }
     }
     vars
-- 
2.43.0


From 7346840a7bef8017f5fa7c86015d340d09d89052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:33 +0000
Subject: [PATCH 18/83] fix: fr heights in a vertical container divide the
 terminal instead of the container

---
 crates/textual/src/layouts/vertical.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 4571ff6..d322ac2 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -130,9 +130,7 @@ impl Layout for VerticalLayout {
                         fixed_height_total += css_height as f64;
                     }
                     Unit::Percent | Unit::Height => {
-                        // Python uses parent.app.size (terminal size) for these units
-                        // So we use viewport, not available region
-                        let raw = (height.value / 100.0) * viewport.height as f64;
+                        let raw = (height.value / 100.0) * available.height as f64;
                         fixed_height_total += raw;
                     }
                     Unit::Width => {
@@ -162,9 +160,8 @@ impl Layout for VerticalLayout {
         }
 
         // Calculate remaining space for fr units
-        // Use viewport.height to match Python's behavior (uses parent.app.size for all calculations)
         let remaining_for_fr =
-            (viewport.height as f64 - fixed_height_total - total_margin).max(0.0);
+            (available.height as f64 - fixed_height_total - total_margin).max(0.0);
 
         // Calculate fraction_unit (size of 1fr)
         // When remaining_for_fr <= 0, use fraction_unit = 1.0 (matching Python Textual)
-- 
2.43.0


From 52d64989fb282b16745de80b1d8c497a0789ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 19/83] fix: fr heights in a vertical container lose their
 margins twice

---
 crates/textual/src/layouts/vertical.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index d322ac2..9c0df52 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -259,8 +259,9 @@ impl Layout for VerticalLayout {
             // For percentage/fill heights, reduce by margins to fit within container
             // For explicit heights (cells), margins are outside the content box
             let should_reduce_by_margins = match &child_style.height {
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height | Unit::Fraction),
-                None => desired_size.height == u16::MAX, // fill case
+                // The space shared by fr units already excludes all margins
+                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height),
+                None => false,
             };
             let box_height = if should_reduce_by_margins {
                 (box_height - margin_top - margin_bottom).max(0.0)
-- 
2.43.0


From 1282b22adfd4389a51eed80b9bababf4c2346ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:51 +0000
Subject: [PATCH 20/83] fix: fr heights ignore the min/max heights and margins
 of their siblings

---
 crates/textual/src/layouts/vertical.rs | 126 ++++++++++++++-----------
 1 file changed, 70 insertions(+), 56 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index 9c0df52..e03f84e 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -84,6 +84,55 @@ fn resolve_child_width(
     }
 }
 
+/// Whether a child's margins lie inside its height. Margins lie outside the height of
+/// children with other units, and the space shared by fr units already excludes them.
+fn reduced_by_margins(style: &ComputedStyle) -> bool {
+    style
+        .height
+        .as_ref()
+        .is_some_and(|h| matches!(h.unit, Unit::Percent | Unit::Height))
+}
+
+/// Applies max-height, then min-height.
+fn constrain_height(
+    box_height: f64,
+    style: &ComputedStyle,
+    available: Region,
+    viewport: Viewport,
+) -> f64 {
+    // Apply max-height constraint
+    let box_height = if let Some(max_h) = &style.max_height {
+        let max_height_value = match max_h.unit {
+            Unit::Cells => max_h.value,
+            Unit::Percent => (max_h.value / 100.0) * available.height as f64,
+            Unit::Width => (max_h.value / 100.0) * available.width as f64,
+            Unit::Height => (max_h.value / 100.0) * available.height as f64,
+            Unit::ViewWidth => (max_h.value / 100.0) * viewport.width as f64,
+            Unit::ViewHeight => (max_h.value / 100.0) * viewport.height as f64,
+            _ => max_h.value,
+        };
+        box_height.min(max_height_value)
+    } else {
+        box_height
+    };
+
+    // Apply min-height constraint (floor)
+    if let Some(min_h) = &style.min_height {
+        let min_height_value = match min_h.unit {
+            Unit::Cells => min_h.value,
+            Unit::Percent => (min_h.value / 100.0) * available.height as f64,
+            Unit::Width => (min_h.value / 100.0) * available.width as f64,
+            Unit::Height => (min_h.value / 100.0) * available.height as f64,
+            Unit::ViewWidth => (min_h.value / 100.0) * viewport.width as f64,
+            Unit::ViewHeight => (min_h.value / 100.0) * viewport.height as f64,
+            _ => min_h.value,
+        };
+        box_height.max(min_height_value)
+    } else {
+        box_height
+    }
+}
+
 impl Layout for VerticalLayout {
     fn arrange(
         &mut self,
@@ -119,43 +168,43 @@ impl Layout for VerticalLayout {
             total_margin += effective_top_margin + margin_bottom;
             prev_margin_bottom = margin_bottom;
 
-            if let Some(height) = &child_style.height {
+            // Height of a child that does not share the remaining space
+            let fixed_height = if let Some(height) = &child_style.height {
                 match height.unit {
                     Unit::Fraction => {
                         total_fr += height.value;
+                        None
                     }
                     Unit::Cells => {
                         // Cells are exact integers, apply box-sizing
-                        let css_height = apply_box_sizing_height(height.value as i32, child_style);
-                        fixed_height_total += css_height as f64;
+                        Some(apply_box_sizing_height(height.value as i32, child_style) as f64)
                     }
                     Unit::Percent | Unit::Height => {
-                        let raw = (height.value / 100.0) * available.height as f64;
-                        fixed_height_total += raw;
+                        Some((height.value / 100.0) * available.height as f64)
                     }
                     Unit::Width => {
                         // Python uses parent.app.size (terminal size) for w units
-                        let raw = (height.value / 100.0) * viewport.width as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::ViewWidth => {
-                        let raw = (height.value / 100.0) * viewport.width as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::ViewHeight => {
-                        let raw = (height.value / 100.0) * viewport.height as f64;
-                        fixed_height_total += raw;
-                    }
-                    Unit::Auto => {
-                        fixed_height_total += intrinsic_height;
+                        Some((height.value / 100.0) * viewport.width as f64)
                     }
+                    Unit::ViewWidth => Some((height.value / 100.0) * viewport.width as f64),
+                    Unit::ViewHeight => Some((height.value / 100.0) * viewport.height as f64),
+                    Unit::Auto => Some(intrinsic_height),
                 }
             } else if desired_size.height == u16::MAX {
                 // No CSS height but widget wants to fill - treat as 1fr
                 total_fr += 1.0;
+                None
             } else {
                 // No height specified - use desired size
-                fixed_height_total += desired_size.height as f64;
+                Some(desired_size.height as f64)
+            };
+            if let Some(height) = fixed_height {
+                let height = constrain_height(height, child_style, available, viewport);
+                fixed_height_total += if reduced_by_margins(child_style) {
+                    (height - margin_top - margin_bottom).max(0.0)
+                } else {
+                    height
+                };
             }
         }
 
@@ -220,37 +269,7 @@ impl Layout for VerticalLayout {
                 desired_size.height as f64
             };
 
-            // Apply max-height constraint
-            let box_height = if let Some(max_h) = &child_style.max_height {
-                let max_height_value = match max_h.unit {
-                    Unit::Cells => max_h.value,
-                    Unit::Percent => (max_h.value / 100.0) * available.height as f64,
-                    Unit::Width => (max_h.value / 100.0) * available.width as f64,
-                    Unit::Height => (max_h.value / 100.0) * available.height as f64,
-                    Unit::ViewWidth => (max_h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (max_h.value / 100.0) * viewport.height as f64,
-                    _ => max_h.value,
-                };
-                box_height.min(max_height_value)
-            } else {
-                box_height
-            };
-
-            // Apply min-height constraint (floor)
-            let box_height = if let Some(min_h) = &child_style.min_height {
-                let min_height_value = match min_h.unit {
-                    Unit::Cells => min_h.value,
-                    Unit::Percent => (min_h.value / 100.0) * available.height as f64,
-                    Unit::Width => (min_h.value / 100.0) * available.width as f64,
-                    Unit::Height => (min_h.value / 100.0) * available.height as f64,
-                    Unit::ViewWidth => (min_h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (min_h.value / 100.0) * viewport.height as f64,
-                    _ => min_h.value,
-                };
-                box_height.max(min_height_value)
-            } else {
-                box_height
-            };
+            let box_height = constrain_height(box_height, child_style, available, viewport);
 
             // Get vertical margins
             let margin_top = child_style.margin.top.value as f64;
@@ -258,12 +277,7 @@ impl Layout for VerticalLayout {
 
             // For percentage/fill heights, reduce by margins to fit within container
             // For explicit heights (cells), margins are outside the content box
-            let should_reduce_by_margins = match &child_style.height {
-                // The space shared by fr units already excludes all margins
-                Some(h) => matches!(h.unit, Unit::Percent | Unit::Height),
-                None => false,
-            };
-            let box_height = if should_reduce_by_margins {
+            let box_height = if reduced_by_margins(child_style) {
                 (box_height - margin_top - margin_bottom).max(0.0)
             } else {
                 box_height
-- 
2.43.0


From a8a3360df513b3ec81499278d81d35137f69127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:32 +0000
Subject: [PATCH 21/83] fix: fr widths ignore the min/max widths of their
 siblings

---
 crates/textual/src/layouts/horizontal.rs | 74 ++++++++++++++----------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 5840dfc..9c92a30 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -16,6 +16,46 @@ use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 #[derive(Debug, Clone, Copy, Default)]
 pub struct HorizontalLayout;
 
+/// Applies max-width, then min-width.
+fn constrain_width(
+    width: i32,
+    style: &ComputedStyle,
+    available: Region,
+    viewport: Viewport,
+) -> i32 {
+    // Apply max-width constraint
+    let width = if let Some(max_w) = &style.max_width {
+        let max_width_value = match max_w.unit {
+            Unit::Cells => max_w.value as i32,
+            Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
+            Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
+            Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
+            Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
+            Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
+            _ => max_w.value as i32,
+        };
+        width.min(max_width_value)
+    } else {
+        width
+    };
+
+    // Apply min-width constraint (floor)
+    if let Some(min_w) = &style.min_width {
+        let min_width_value = match min_w.unit {
+            Unit::Cells => min_w.value as i32,
+            Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
+            Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
+            Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
+            Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
+            Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
+            _ => min_w.value as i32,
+        };
+        width.max(min_width_value)
+    } else {
+        width
+    }
+}
+
 impl Layout for HorizontalLayout {
     fn arrange(
         &mut self,
@@ -147,7 +187,7 @@ impl Layout for HorizontalLayout {
 
             if let Some(width) = resolved_fixed {
                 fixed_widths[i] = Some(width);
-                fixed_width_sum += width;
+                fixed_width_sum += constrain_width(width, child_style, available, viewport);
             }
         }
 
@@ -187,37 +227,7 @@ impl Layout for HorizontalLayout {
             // Resolve width from precomputed fixed/fr allocations.
             let width = fixed_widths[i].unwrap_or(fr_widths[i]);
 
-            // Apply max-width constraint
-            let width = if let Some(max_w) = &child_style.max_width {
-                let max_width_value = match max_w.unit {
-                    Unit::Cells => max_w.value as i32,
-                    Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
-                    _ => max_w.value as i32,
-                };
-                width.min(max_width_value)
-            } else {
-                width
-            };
-
-            // Apply min-width constraint (floor)
-            let width = if let Some(min_w) = &child_style.min_width {
-                let min_width_value = match min_w.unit {
-                    Unit::Cells => min_w.value as i32,
-                    Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
-                    _ => min_w.value as i32,
-                };
-                width.max(min_width_value)
-            } else {
-                width
-            };
+            let width = constrain_width(width, child_style, available, viewport);
 
             // Resolve height - horizontal layout children fill available height by default
             // Apply box-sizing only for explicit CSS heights, not auto/intrinsic
-- 
2.43.0


From 8f64b21b4d60b0bf3fc980269f1277e60265c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:02 +0000
Subject: [PATCH 22/83] fix: w, h, vw and vh lengths are taken as cells across
 the layout direction

---
 crates/textual/src/layouts/grid.rs          | 14 +++++++++----
 crates/textual/src/layouts/horizontal.rs    | 12 ++++++++---
 crates/textual/src/layouts/size_resolver.rs | 23 +++++++++++++++++++++
 crates/textual/src/layouts/vertical.rs      | 11 ++++++++--
 4 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index ba10c2d..c06cb58 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -10,7 +10,7 @@ use crate::canvas::Region;
 use crate::fraction::Fraction;
 use tcss::types::{ComputedStyle, GridStyle, Scalar, Unit};
 
-use super::size_resolver::{resolve_height_with_intrinsic, resolve_width_with_intrinsic};
+use super::size_resolver::{resolve_height_full, resolve_width_full};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 
 /// Pre-computed track (column or row) with offset and size.
@@ -583,7 +583,7 @@ impl Layout for GridLayout {
         parent_style: &ComputedStyle,
         children: &[LayoutChild],
         available: Region,
-        _viewport: Viewport,
+        viewport: Viewport,
     ) -> Vec<WidgetPlacement> {
         if children.is_empty() {
             return Vec::new();
@@ -706,10 +706,13 @@ impl Layout for GridLayout {
                             );
 
                             // Resolve child's actual size based on CSS width/height.
-                            let mut child_width = resolve_width_with_intrinsic(
+                            let mut child_width = resolve_width_full(
                                 child_style,
                                 desired_size.width,
                                 cell_region.width,
+                                cell_region.height,
+                                viewport.width,
+                                viewport.height,
                             );
                             // Constrain width to cell width (matches Textual's constrain_width=True)
                             if child_width > cell_region.width {
@@ -725,10 +728,13 @@ impl Layout for GridLayout {
                                 // Auto height depends on width.
                                 child.node.intrinsic_height_for_width(child_width as u16) as i32
                             } else {
-                                resolve_height_with_intrinsic(
+                                resolve_height_full(
                                     child_style,
                                     desired_size.height,
                                     cell_region.height,
+                                    cell_region.width,
+                                    viewport.width,
+                                    viewport.height,
                                 )
                             };
 
diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 9c92a30..88ab0b7 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -247,9 +247,15 @@ impl Layout for HorizontalLayout {
                         let css_height = ((h.value / 100.0) * available.height as f64) as i32;
                         apply_box_sizing_height(css_height, child_style)
                     }
-                    _ => {
-                        // Other units - use value as-is with box-sizing
-                        apply_box_sizing_height(h.value as i32, child_style)
+                    Unit::Width | Unit::Height | Unit::ViewWidth | Unit::ViewHeight => {
+                        let basis = match h.unit {
+                            Unit::Width => available.width,
+                            Unit::Height => available.height,
+                            Unit::ViewWidth => viewport.width,
+                            _ => viewport.height,
+                        };
+                        let css_height = ((h.value / 100.0) * basis as f64) as i32;
+                        apply_box_sizing_height(css_height, child_style)
                     }
                 }
             } else {
diff --git a/crates/textual/src/layouts/size_resolver.rs b/crates/textual/src/layouts/size_resolver.rs
index 46185f3..19c4213 100644
--- a/crates/textual/src/layouts/size_resolver.rs
+++ b/crates/textual/src/layouts/size_resolver.rs
@@ -154,6 +154,29 @@ pub fn resolve_width_with_intrinsic(
     }
 }
 
+/// Resolve width with full context for all CSS units.
+///
+/// Like [`resolve_width_with_intrinsic`], but resolves `w`, `h`, `vw` and `vh` as
+/// percentages of the parent's and the viewport's dimensions.
+pub fn resolve_width_full(
+    child_style: &ComputedStyle,
+    intrinsic_width: u16,
+    available_width: i32,
+    available_height: i32,
+    viewport_width: i32,
+    viewport_height: i32,
+) -> i32 {
+    let basis = match child_style.width.as_ref().map(|w| w.unit) {
+        Some(Unit::Width) => available_width,
+        Some(Unit::Height) => available_height,
+        Some(Unit::ViewWidth) => viewport_width,
+        Some(Unit::ViewHeight) => viewport_height,
+        _ => return resolve_width_with_intrinsic(child_style, intrinsic_width, available_width),
+    };
+    let value = child_style.width.as_ref().map_or(0.0, |w| w.value);
+    ((value / 100.0) * basis as f64).round() as i32
+}
+
 /// Resolve height, using intrinsic size for `auto`.
 ///
 /// This function differs from `resolve_height` in how it handles `Unit::Auto`:
diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index e03f84e..d74398d 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -11,7 +11,7 @@ use crate::canvas::{Region, Size};
 use tcss::types::ComputedStyle;
 use tcss::types::geometry::Unit;
 
-use super::size_resolver::{apply_box_sizing_height, resolve_width_with_intrinsic};
+use super::size_resolver::{apply_box_sizing_height, resolve_width_full};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 
 /// Vertical layout - stacks children top-to-bottom.
@@ -32,7 +32,14 @@ fn resolve_child_width(
     let margin_right = child_style.margin.right.value as i32;
 
     // Resolve base width
-    let base_width = resolve_width_with_intrinsic(child_style, desired_size.width, available.width);
+    let base_width = resolve_width_full(
+        child_style,
+        desired_size.width,
+        available.width,
+        available.height,
+        viewport.width,
+        viewport.height,
+    );
     let should_reduce_by_margins = match &child_style.width {
         Some(w) => matches!(
             w.unit,
-- 
2.43.0


From ca8bd2e280aec5e0a0787f0b868245843d03bdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:43 +0000
Subject: [PATCH 23/83] fix: spanning children push later children out of a
 grid without a row count

---
 crates/textual/src/layouts/grid.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index c06cb58..a446553 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -121,13 +121,23 @@ impl GridLayout {
     }
 
     /// Get the number of rows, either from CSS or calculated.
-    fn row_count(&self, grid: &GridStyle, cols: usize, child_count: usize) -> usize {
+    fn row_count(&self, grid: &GridStyle, cols: usize, children: &[LayoutChild]) -> usize {
         if let Some(rows) = grid.rows {
             rows as usize
         } else if cols == 0 {
             1
         } else {
-            (child_count + cols - 1) / cols
+            // As many rows as placing all children takes: spans need more than one
+            // cell each. Every child fits below the ones before it.
+            let limit = children
+                .iter()
+                .map(|child| (child.style.grid_placement.row_span as usize).max(1))
+                .sum();
+            Self::compute_cell_assignments(children, limit, cols)
+                .iter()
+                .map(|(row, _, row_span, _)| row + row_span)
+                .max()
+                .unwrap_or(0)
         }
     }
 
@@ -436,7 +446,7 @@ impl GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
         let gutter_h = Self::resolve_scalar(&grid.gutter.1, available.width);
@@ -591,7 +601,7 @@ impl Layout for GridLayout {
 
         let grid = &parent_style.grid;
         let cols = self.column_count(grid, available.width);
-        let rows = self.row_count(grid, cols, children.len());
+        let rows = self.row_count(grid, cols, children);
 
         // Get gutter values
         let gutter_v = Self::resolve_scalar(&grid.gutter.0, available.height);
-- 
2.43.0


From 6de3d5b4f47bae7e04517cb0aac8d9fbe899c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:12 +0000
Subject: [PATCH 24/83] fix: stacking order of several undeclared layers is
 random

---
 crates/textual/src/layouts/mod.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 5c559b5..72ec490 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -811,25 +811,22 @@ fn build_layers<'a>(
     children: &'a [LayoutChild],
     layer_order: &[String],
 ) -> Vec<(String, Vec<&'a LayoutChild<'a>>)> {
-    use std::collections::HashMap;
-
-    // Group children by their layer
-    let mut layer_map: HashMap<String, Vec<&LayoutChild>> = HashMap::new();
+    // Group children by their layer, in order of first use
+    let mut layer_groups: Vec<(String, Vec<&LayoutChild>)> = Vec::new();
 
     for child in children {
-        let layer_name = child
-            .style
-            .layer
-            .clone()
-            .unwrap_or_else(|| "default".to_string());
-        layer_map.entry(layer_name).or_default().push(child);
+        let layer_name = child.style.layer.as_deref().unwrap_or("default");
+        match layer_groups.iter_mut().find(|(name, _)| name == layer_name) {
+            Some((_, widgets)) => widgets.push(child),
+            None => layer_groups.push((layer_name.to_string(), vec![child])),
+        }
     }
 
     let mut result = Vec::new();
 
     // First: add widgets on layers NOT in layer_order (they render at the bottom)
     // This matches Python where undefined layers default to index 0 (bottom-most)
-    for (name, widgets) in layer_map.iter() {
+    for (name, widgets) in &layer_groups {
         if !layer_order.contains(name) {
             result.push((name.clone(), widgets.clone()));
         }
@@ -837,7 +834,7 @@ fn build_layers<'a>(
 
     // Then: add explicitly defined layers in order (later = on top)
     for name in layer_order {
-        if let Some(widgets) = layer_map.get(name) {
+        if let Some((_, widgets)) = layer_groups.iter().find(|(n, _)| n == name) {
             result.push((name.clone(), widgets.clone()));
         }
     }
-- 
2.43.0


From 751a61a08e30e1899f11bdcd81bcbf0e8e925654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:28 +0000
Subject: [PATCH 25/83] fix: percentages and accumulated fr shares lose a cell
 to rounding error

---
 crates/textual/src/layouts/grid.rs          |  2 +-
 crates/textual/src/layouts/horizontal.rs    | 44 +++++------
 crates/textual/src/layouts/mod.rs           | 88 ++++++++++-----------
 crates/textual/src/layouts/size_resolver.rs | 18 ++---
 crates/textual/src/layouts/vertical.rs      | 66 +++++++++-------
 5 files changed, 108 insertions(+), 110 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index a446553..3abb54e 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -145,7 +145,7 @@ impl GridLayout {
     fn resolve_scalar(scalar: &Scalar, available: i32) -> i32 {
         match scalar.unit {
             Unit::Cells => scalar.value as i32,
-            Unit::Percent => ((scalar.value / 100.0) * available as f64) as i32,
+            Unit::Percent => (scalar.value * available as f64 / 100.0) as i32,
             Unit::Auto => available,     // Auto fills available space
             Unit::Fraction => available, // fr handled specially in distribution
             _ => scalar.value as i32,    // Default to treating as cells
diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 88ab0b7..1807c98 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -27,11 +27,11 @@ fn constrain_width(
     let width = if let Some(max_w) = &style.max_width {
         let max_width_value = match max_w.unit {
             Unit::Cells => max_w.value as i32,
-            Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
-            Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
-            Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
+            Unit::Percent => (max_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Width => (max_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Height => (max_w.value * available.height as f64 / 100.0) as i32,
+            Unit::ViewWidth => (max_w.value * viewport.width as f64 / 100.0) as i32,
+            Unit::ViewHeight => (max_w.value * viewport.height as f64 / 100.0) as i32,
             _ => max_w.value as i32,
         };
         width.min(max_width_value)
@@ -43,11 +43,11 @@ fn constrain_width(
     if let Some(min_w) = &style.min_width {
         let min_width_value = match min_w.unit {
             Unit::Cells => min_w.value as i32,
-            Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
-            Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
-            Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
+            Unit::Percent => (min_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Width => (min_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Height => (min_w.value * available.height as f64 / 100.0) as i32,
+            Unit::ViewWidth => (min_w.value * viewport.width as f64 / 100.0) as i32,
+            Unit::ViewHeight => (min_w.value * viewport.height as f64 / 100.0) as i32,
             _ => min_w.value as i32,
         };
         width.max(min_width_value)
@@ -244,7 +244,7 @@ impl Layout for HorizontalLayout {
                     }
                     Unit::Cells => apply_box_sizing_height(h.value as i32, child_style),
                     Unit::Percent => {
-                        let css_height = ((h.value / 100.0) * available.height as f64) as i32;
+                        let css_height = (h.value * available.height as f64 / 100.0) as i32;
                         apply_box_sizing_height(css_height, child_style)
                     }
                     Unit::Width | Unit::Height | Unit::ViewWidth | Unit::ViewHeight => {
@@ -254,7 +254,7 @@ impl Layout for HorizontalLayout {
                             Unit::ViewWidth => viewport.width,
                             _ => viewport.height,
                         };
-                        let css_height = ((h.value / 100.0) * basis as f64) as i32;
+                        let css_height = (h.value * basis as f64 / 100.0) as i32;
                         apply_box_sizing_height(css_height, child_style)
                     }
                 }
@@ -267,11 +267,11 @@ impl Layout for HorizontalLayout {
             let height = if let Some(max_h) = &child_style.max_height {
                 let max_height_value = match max_h.unit {
                     Unit::Cells => max_h.value as i32,
-                    Unit::Percent => ((max_h.value / 100.0) * available.height as f64) as i32,
-                    Unit::Width => ((max_h.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((max_h.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((max_h.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((max_h.value / 100.0) * viewport.height as f64) as i32,
+                    Unit::Percent => (max_h.value * available.height as f64 / 100.0) as i32,
+                    Unit::Width => (max_h.value * available.width as f64 / 100.0) as i32,
+                    Unit::Height => (max_h.value * available.height as f64 / 100.0) as i32,
+                    Unit::ViewWidth => (max_h.value * viewport.width as f64 / 100.0) as i32,
+                    Unit::ViewHeight => (max_h.value * viewport.height as f64 / 100.0) as i32,
                     _ => max_h.value as i32,
                 };
                 height.min(max_height_value)
@@ -283,11 +283,11 @@ impl Layout for HorizontalLayout {
             let height = if let Some(min_h) = &child_style.min_height {
                 let min_height_value = match min_h.unit {
                     Unit::Cells => min_h.value as i32,
-                    Unit::Percent => ((min_h.value / 100.0) * available.height as f64) as i32,
-                    Unit::Width => ((min_h.value / 100.0) * available.width as f64) as i32,
-                    Unit::Height => ((min_h.value / 100.0) * available.height as f64) as i32,
-                    Unit::ViewWidth => ((min_h.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((min_h.value / 100.0) * viewport.height as f64) as i32,
+                    Unit::Percent => (min_h.value * available.height as f64 / 100.0) as i32,
+                    Unit::Width => (min_h.value * available.width as f64 / 100.0) as i32,
+                    Unit::Height => (min_h.value * available.height as f64 / 100.0) as i32,
+                    Unit::ViewWidth => (min_h.value * viewport.width as f64 / 100.0) as i32,
+                    Unit::ViewHeight => (min_h.value * viewport.height as f64 / 100.0) as i32,
                     _ => min_h.value as i32,
                 };
                 height.max(min_height_value)
diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index 72ec490..ba5e7fb 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -565,15 +565,11 @@ fn apply_offset(placements: &mut [WidgetPlacement], children: &[LayoutChild], vi
             let offset_x = if let Some(scalar) = &child.style.offset_x {
                 match scalar.unit {
                     Unit::Cells => scalar.value as i32,
-                    Unit::Percent => {
-                        ((scalar.value / 100.0) * placement.region.width as f64) as i32
-                    }
-                    Unit::ViewWidth => ((scalar.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((scalar.value / 100.0) * viewport.height as f64) as i32,
-                    Unit::Width => ((scalar.value / 100.0) * placement.region.width as f64) as i32,
-                    Unit::Height => {
-                        ((scalar.value / 100.0) * placement.region.height as f64) as i32
-                    }
+                    Unit::Percent => (scalar.value * placement.region.width as f64 / 100.0) as i32,
+                    Unit::ViewWidth => (scalar.value * viewport.width as f64 / 100.0) as i32,
+                    Unit::ViewHeight => (scalar.value * viewport.height as f64 / 100.0) as i32,
+                    Unit::Width => (scalar.value * placement.region.width as f64 / 100.0) as i32,
+                    Unit::Height => (scalar.value * placement.region.height as f64 / 100.0) as i32,
                     _ => scalar.value as i32,
                 }
             } else {
@@ -584,15 +580,11 @@ fn apply_offset(placements: &mut [WidgetPlacement], children: &[LayoutChild], vi
             let offset_y = if let Some(scalar) = &child.style.offset_y {
                 match scalar.unit {
                     Unit::Cells => scalar.value as i32,
-                    Unit::Percent => {
-                        ((scalar.value / 100.0) * placement.region.height as f64) as i32
-                    }
-                    Unit::ViewWidth => ((scalar.value / 100.0) * viewport.width as f64) as i32,
-                    Unit::ViewHeight => ((scalar.value / 100.0) * viewport.height as f64) as i32,
-                    Unit::Width => ((scalar.value / 100.0) * placement.region.width as f64) as i32,
-                    Unit::Height => {
-                        ((scalar.value / 100.0) * placement.region.height as f64) as i32
-                    }
+                    Unit::Percent => (scalar.value * placement.region.height as f64 / 100.0) as i32,
+                    Unit::ViewWidth => (scalar.value * viewport.width as f64 / 100.0) as i32,
+                    Unit::ViewHeight => (scalar.value * viewport.height as f64 / 100.0) as i32,
+                    Unit::Width => (scalar.value * placement.region.width as f64 / 100.0) as i32,
+                    Unit::Height => (scalar.value * placement.region.height as f64 / 100.0) as i32,
                     _ => scalar.value as i32,
                 }
             } else {
@@ -627,11 +619,11 @@ fn resolve_absolute_placement(
     let width = if let Some(w) = &style.width {
         let raw = match w.unit {
             Unit::Cells => w.value as i32,
-            Unit::Percent => ((w.value / 100.0) * available.width as f64).round() as i32,
-            Unit::Width => ((w.value / 100.0) * available.width as f64).round() as i32,
-            Unit::Height => ((w.value / 100.0) * available.height as f64).round() as i32,
-            Unit::ViewWidth => ((w.value / 100.0) * viewport.width as f64).round() as i32,
-            Unit::ViewHeight => ((w.value / 100.0) * viewport.height as f64).round() as i32,
+            Unit::Percent => (w.value * available.width as f64 / 100.0).round() as i32,
+            Unit::Width => (w.value * available.width as f64 / 100.0).round() as i32,
+            Unit::Height => (w.value * available.height as f64 / 100.0).round() as i32,
+            Unit::ViewWidth => (w.value * viewport.width as f64 / 100.0).round() as i32,
+            Unit::ViewHeight => (w.value * viewport.height as f64 / 100.0).round() as i32,
             Unit::Fraction => available.width,
             Unit::Auto => intrinsic_width as i32,
         };
@@ -643,11 +635,11 @@ fn resolve_absolute_placement(
     let width = if let Some(max_w) = &style.max_width {
         let max_width_value = match max_w.unit {
             Unit::Cells => max_w.value as i32,
-            Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
-            Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
-            Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
+            Unit::Percent => (max_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Width => (max_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Height => (max_w.value * available.height as f64 / 100.0) as i32,
+            Unit::ViewWidth => (max_w.value * viewport.width as f64 / 100.0) as i32,
+            Unit::ViewHeight => (max_w.value * viewport.height as f64 / 100.0) as i32,
             _ => max_w.value as i32,
         };
         width.min(max_width_value)
@@ -658,11 +650,11 @@ fn resolve_absolute_placement(
     let width = if let Some(min_w) = &style.min_width {
         let min_width_value = match min_w.unit {
             Unit::Cells => min_w.value as i32,
-            Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
-            Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
-            Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
+            Unit::Percent => (min_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Width => (min_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Height => (min_w.value * available.height as f64 / 100.0) as i32,
+            Unit::ViewWidth => (min_w.value * viewport.width as f64 / 100.0) as i32,
+            Unit::ViewHeight => (min_w.value * viewport.height as f64 / 100.0) as i32,
             _ => min_w.value as i32,
         };
         width.max(min_width_value)
@@ -675,11 +667,11 @@ fn resolve_absolute_placement(
     let height = if let Some(h) = &style.height {
         let raw = match h.unit {
             Unit::Cells => h.value as i32,
-            Unit::Percent => ((h.value / 100.0) * available.height as f64).round() as i32,
-            Unit::Width => ((h.value / 100.0) * available.width as f64).round() as i32,
-            Unit::Height => ((h.value / 100.0) * available.height as f64).round() as i32,
-            Unit::ViewWidth => ((h.value / 100.0) * viewport.width as f64).round() as i32,
-            Unit::ViewHeight => ((h.value / 100.0) * viewport.height as f64).round() as i32,
+            Unit::Percent => (h.value * available.height as f64 / 100.0).round() as i32,
+            Unit::Width => (h.value * available.width as f64 / 100.0).round() as i32,
+            Unit::Height => (h.value * available.height as f64 / 100.0).round() as i32,
+            Unit::ViewWidth => (h.value * viewport.width as f64 / 100.0).round() as i32,
+            Unit::ViewHeight => (h.value * viewport.height as f64 / 100.0).round() as i32,
             Unit::Fraction => available.height,
             Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as i32,
         };
@@ -691,11 +683,11 @@ fn resolve_absolute_placement(
     let height = if let Some(max_h) = &style.max_height {
         let max_height_value = match max_h.unit {
             Unit::Cells => max_h.value,
-            Unit::Percent => (max_h.value / 100.0) * available.height as f64,
-            Unit::Width => (max_h.value / 100.0) * available.width as f64,
-            Unit::Height => (max_h.value / 100.0) * available.height as f64,
-            Unit::ViewWidth => (max_h.value / 100.0) * viewport.width as f64,
-            Unit::ViewHeight => (max_h.value / 100.0) * viewport.height as f64,
+            Unit::Percent => max_h.value * available.height as f64 / 100.0,
+            Unit::Width => max_h.value * available.width as f64 / 100.0,
+            Unit::Height => max_h.value * available.height as f64 / 100.0,
+            Unit::ViewWidth => max_h.value * viewport.width as f64 / 100.0,
+            Unit::ViewHeight => max_h.value * viewport.height as f64 / 100.0,
             _ => max_h.value,
         };
         height.min(max_height_value as i32)
@@ -706,11 +698,11 @@ fn resolve_absolute_placement(
     let height = if let Some(min_h) = &style.min_height {
         let min_height_value = match min_h.unit {
             Unit::Cells => min_h.value,
-            Unit::Percent => (min_h.value / 100.0) * available.height as f64,
-            Unit::Width => (min_h.value / 100.0) * available.width as f64,
-            Unit::Height => (min_h.value / 100.0) * available.height as f64,
-            Unit::ViewWidth => (min_h.value / 100.0) * viewport.width as f64,
-            Unit::ViewHeight => (min_h.value / 100.0) * viewport.height as f64,
+            Unit::Percent => min_h.value * available.height as f64 / 100.0,
+            Unit::Width => min_h.value * available.width as f64 / 100.0,
+            Unit::Height => min_h.value * available.height as f64 / 100.0,
+            Unit::ViewWidth => min_h.value * viewport.width as f64 / 100.0,
+            Unit::ViewHeight => min_h.value * viewport.height as f64 / 100.0,
             _ => min_h.value,
         };
         height.max(min_height_value as i32)
diff --git a/crates/textual/src/layouts/size_resolver.rs b/crates/textual/src/layouts/size_resolver.rs
index 19c4213..01dfaca 100644
--- a/crates/textual/src/layouts/size_resolver.rs
+++ b/crates/textual/src/layouts/size_resolver.rs
@@ -48,7 +48,7 @@ pub fn resolve_width(
         match width.unit {
             Unit::Cells => return width.value as i32,
             Unit::Percent => {
-                return ((width.value / 100.0) * available_width as f64).round() as i32;
+                return (width.value * available_width as f64 / 100.0).round() as i32;
             }
             Unit::Auto => return available_width, // Auto always fills available
             _ => return width.value as i32,
@@ -83,7 +83,7 @@ pub fn resolve_height(
         match height.unit {
             Unit::Cells => return height.value as i32,
             Unit::Percent => {
-                return ((height.value / 100.0) * available_height as f64).round() as i32;
+                return (height.value * available_height as f64 / 100.0).round() as i32;
             }
             Unit::Auto => {
                 // Auto behavior: fill if horizontal layout (fill_by_default), fixed if vertical
@@ -143,7 +143,7 @@ pub fn resolve_width_with_intrinsic(
     if let Some(width) = &child_style.width {
         match width.unit {
             Unit::Cells => width.value as i32,
-            Unit::Percent => ((width.value / 100.0) * available_width as f64).round() as i32,
+            Unit::Percent => (width.value * available_width as f64 / 100.0).round() as i32,
             Unit::Auto => intrinsic_width as i32, // Use intrinsic, not fill!
             Unit::Fraction => available_width,    // fr units fill available space
             _ => width.value as i32,
@@ -174,7 +174,7 @@ pub fn resolve_width_full(
         _ => return resolve_width_with_intrinsic(child_style, intrinsic_width, available_width),
     };
     let value = child_style.width.as_ref().map_or(0.0, |w| w.value);
-    ((value / 100.0) * basis as f64).round() as i32
+    (value * basis as f64 / 100.0).round() as i32
 }
 
 /// Resolve height, using intrinsic size for `auto`.
@@ -222,11 +222,11 @@ pub fn resolve_height_full(
     if let Some(height) = &child_style.height {
         match height.unit {
             Unit::Cells => height.value as i32,
-            Unit::Percent => ((height.value / 100.0) * available_height as f64).round() as i32,
-            Unit::Width => ((height.value / 100.0) * available_width as f64).round() as i32,
-            Unit::Height => ((height.value / 100.0) * available_height as f64).round() as i32,
-            Unit::ViewWidth => ((height.value / 100.0) * viewport_width as f64).round() as i32,
-            Unit::ViewHeight => ((height.value / 100.0) * viewport_height as f64).round() as i32,
+            Unit::Percent => (height.value * available_height as f64 / 100.0).round() as i32,
+            Unit::Width => (height.value * available_width as f64 / 100.0).round() as i32,
+            Unit::Height => (height.value * available_height as f64 / 100.0).round() as i32,
+            Unit::ViewWidth => (height.value * viewport_width as f64 / 100.0).round() as i32,
+            Unit::ViewHeight => (height.value * viewport_height as f64 / 100.0).round() as i32,
             Unit::Auto => intrinsic_height as i32,
             Unit::Fraction => available_height,
         }
diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index d74398d..b2efb1c 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -22,6 +22,12 @@ use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 #[derive(Debug, Clone, Copy, Default)]
 pub struct VerticalLayout;
 
+/// Floor an accumulated position, absorbing floating-point error so that shares
+/// which add up to a whole number of cells are not cut one cell short.
+fn floor_cell(value: f64) -> i32 {
+    (value + 1e-6).floor() as i32
+}
+
 fn resolve_child_width(
     child_style: &ComputedStyle,
     desired_size: Size,
@@ -62,11 +68,11 @@ fn resolve_child_width(
     let width = if let Some(max_w) = &child_style.max_width {
         let max_width_value = match max_w.unit {
             Unit::Cells => max_w.value as i32,
-            Unit::Percent => ((max_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Width => ((max_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Height => ((max_w.value / 100.0) * available.height as f64) as i32,
-            Unit::ViewWidth => ((max_w.value / 100.0) * viewport.width as f64) as i32,
-            Unit::ViewHeight => ((max_w.value / 100.0) * viewport.height as f64) as i32,
+            Unit::Percent => (max_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Width => (max_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Height => (max_w.value * available.height as f64 / 100.0) as i32,
+            Unit::ViewWidth => (max_w.value * viewport.width as f64 / 100.0) as i32,
+            Unit::ViewHeight => (max_w.value * viewport.height as f64 / 100.0) as i32,
             _ => max_w.value as i32,
         };
         width.min(max_width_value)
@@ -78,11 +84,11 @@ fn resolve_child_width(
     if let Some(min_w) = &child_style.min_width {
         let min_width_value = match min_w.unit {
             Unit::Cells => min_w.value as i32,
-            Unit::Percent => ((min_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Width => ((min_w.value / 100.0) * available.width as f64) as i32,
-            Unit::Height => ((min_w.value / 100.0) * available.height as f64) as i32,
-            Unit::ViewWidth => ((min_w.value / 100.0) * viewport.width as f64) as i32,
-            Unit::ViewHeight => ((min_w.value / 100.0) * viewport.height as f64) as i32,
+            Unit::Percent => (min_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Width => (min_w.value * available.width as f64 / 100.0) as i32,
+            Unit::Height => (min_w.value * available.height as f64 / 100.0) as i32,
+            Unit::ViewWidth => (min_w.value * viewport.width as f64 / 100.0) as i32,
+            Unit::ViewHeight => (min_w.value * viewport.height as f64 / 100.0) as i32,
             _ => min_w.value as i32,
         };
         width.max(min_width_value)
@@ -111,11 +117,11 @@ fn constrain_height(
     let box_height = if let Some(max_h) = &style.max_height {
         let max_height_value = match max_h.unit {
             Unit::Cells => max_h.value,
-            Unit::Percent => (max_h.value / 100.0) * available.height as f64,
-            Unit::Width => (max_h.value / 100.0) * available.width as f64,
-            Unit::Height => (max_h.value / 100.0) * available.height as f64,
-            Unit::ViewWidth => (max_h.value / 100.0) * viewport.width as f64,
-            Unit::ViewHeight => (max_h.value / 100.0) * viewport.height as f64,
+            Unit::Percent => max_h.value * available.height as f64 / 100.0,
+            Unit::Width => max_h.value * available.width as f64 / 100.0,
+            Unit::Height => max_h.value * available.height as f64 / 100.0,
+            Unit::ViewWidth => max_h.value * viewport.width as f64 / 100.0,
+            Unit::ViewHeight => max_h.value * viewport.height as f64 / 100.0,
             _ => max_h.value,
         };
         box_height.min(max_height_value)
@@ -127,11 +133,11 @@ fn constrain_height(
     if let Some(min_h) = &style.min_height {
         let min_height_value = match min_h.unit {
             Unit::Cells => min_h.value,
-            Unit::Percent => (min_h.value / 100.0) * available.height as f64,
-            Unit::Width => (min_h.value / 100.0) * available.width as f64,
-            Unit::Height => (min_h.value / 100.0) * available.height as f64,
-            Unit::ViewWidth => (min_h.value / 100.0) * viewport.width as f64,
-            Unit::ViewHeight => (min_h.value / 100.0) * viewport.height as f64,
+            Unit::Percent => min_h.value * available.height as f64 / 100.0,
+            Unit::Width => min_h.value * available.width as f64 / 100.0,
+            Unit::Height => min_h.value * available.height as f64 / 100.0,
+            Unit::ViewWidth => min_h.value * viewport.width as f64 / 100.0,
+            Unit::ViewHeight => min_h.value * viewport.height as f64 / 100.0,
             _ => min_h.value,
         };
         box_height.max(min_height_value)
@@ -187,14 +193,14 @@ impl Layout for VerticalLayout {
                         Some(apply_box_sizing_height(height.value as i32, child_style) as f64)
                     }
                     Unit::Percent | Unit::Height => {
-                        Some((height.value / 100.0) * available.height as f64)
+                        Some(height.value * available.height as f64 / 100.0)
                     }
                     Unit::Width => {
                         // Python uses parent.app.size (terminal size) for w units
-                        Some((height.value / 100.0) * viewport.width as f64)
+                        Some(height.value * viewport.width as f64 / 100.0)
                     }
-                    Unit::ViewWidth => Some((height.value / 100.0) * viewport.width as f64),
-                    Unit::ViewHeight => Some((height.value / 100.0) * viewport.height as f64),
+                    Unit::ViewWidth => Some(height.value * viewport.width as f64 / 100.0),
+                    Unit::ViewHeight => Some(height.value * viewport.height as f64 / 100.0),
                     Unit::Auto => Some(intrinsic_height),
                 }
             } else if desired_size.height == u16::MAX {
@@ -259,14 +265,14 @@ impl Layout for VerticalLayout {
                     Unit::Percent | Unit::Height => {
                         // For percentage heights, use available.height (parent container)
                         // This ensures height: 100% fills the parent, not the viewport
-                        (h.value / 100.0) * available.height as f64
+                        h.value * available.height as f64 / 100.0
                     }
                     Unit::Width => {
                         // Python uses parent.app.size (terminal size) for w units
-                        (h.value / 100.0) * viewport.width as f64
+                        h.value * viewport.width as f64 / 100.0
                     }
-                    Unit::ViewWidth => (h.value / 100.0) * viewport.width as f64,
-                    Unit::ViewHeight => (h.value / 100.0) * viewport.height as f64,
+                    Unit::ViewWidth => h.value * viewport.width as f64 / 100.0,
+                    Unit::ViewHeight => h.value * viewport.height as f64 / 100.0,
                 }
             } else if desired_size.height == u16::MAX {
                 // No CSS height but widget wants to fill - use fraction_unit (implicit 1fr)
@@ -302,8 +308,8 @@ impl Layout for VerticalLayout {
             // Calculate next_y and region height using floor arithmetic
             // This matches Python: region.height = floor(next_y) - floor(y)
             let next_y = current_y + box_height;
-            let region_y = current_y.floor() as i32;
-            let region_height = (next_y.floor() as i32 - region_y).max(0);
+            let region_y = floor_cell(current_y);
+            let region_height = (floor_cell(next_y) - region_y).max(0);
 
             let new_region = Region {
                 x: available.x + margin_left,
-- 
2.43.0


From 0c08e49e969b7580abe1db03528a95cc882d4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:36 +0000
Subject: [PATCH 26/83] fix: fractional fr values are cut off and leave cells
 unused

---
 crates/textual/src/layouts/grid.rs       | 4 ++--
 crates/textual/src/layouts/horizontal.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index 3abb54e..815f1d6 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -205,12 +205,12 @@ impl GridLayout {
         // so extra pixels naturally go to LATER tracks (matching Textual behavior).
         if total_fr > 0.0 {
             // Scale fr values to integers (multiply by 1000 to preserve precision)
-            let total_fr_scaled = (total_fr * 1000.0) as i64;
+            let total_fr_scaled = (total_fr * 1000.0).round() as i64;
             let mut remainder = Fraction::ZERO;
 
             for (i, spec) in track_specs.iter().enumerate() {
                 if spec.unit == Unit::Fraction {
-                    let fr_scaled = (spec.value * 1000.0) as i64;
+                    let fr_scaled = (spec.value * 1000.0).round() as i64;
                     let raw =
                         Fraction::new(remaining as i64 * fr_scaled, total_fr_scaled) + remainder;
                     sizes[i] = raw.floor() as i32;
diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 1807c98..16622a8 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -103,7 +103,7 @@ impl Layout for HorizontalLayout {
             let resolved_fixed = if let Some(width) = &child_style.width {
                 match width.unit {
                     Unit::Fraction => {
-                        let fr_value = (width.value * 1000.0) as i64;
+                        let fr_value = (width.value * 1000.0).round() as i64;
                         fr_values[i] = Some(fr_value);
                         total_fr += fr_value;
                         None
-- 
2.43.0


From b6736163e4ead1ccce2ad800a6ca95610e39ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:50 +0000
Subject: [PATCH 27/83] fix: focus path and Tab order went stale when widgets
 were hidden or shown

The cached focus path counted hidden widgets although focus_nth skips them,
was not recomputed when the index stayed the same, and Tab stepped from a
remembered index that no longer matched the tree.
---
 crates/textual/src/tree.rs | 57 +++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 552e11c..d2488e8 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -138,7 +138,14 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let next = (self.current_focus_index + 1) % count;
+        // Step from where the focus is in the tree, not from the remembered index:
+        // widgets may have been hidden, shown, disabled or enabled since it was set.
+        let paths = self.focusable_paths();
+        let next = paths
+            .iter()
+            .position(|path| *path > self.focus_path.indices)
+            .filter(|&index| index < count)
+            .unwrap_or(0);
         if self.set_focus_index(next) {
             Some(next)
         } else {
@@ -152,11 +159,11 @@ impl<M> WidgetTree<M> {
         if count == 0 {
             return None;
         }
-        let prev = if self.current_focus_index == 0 {
-            count - 1
-        } else {
-            self.current_focus_index - 1
-        };
+        let paths = self.focusable_paths();
+        let prev = paths
+            .iter()
+            .rposition(|path| *path < self.focus_path.indices)
+            .unwrap_or(count - 1);
         if self.set_focus_index(prev) {
             Some(prev)
         } else {
@@ -164,15 +171,18 @@ impl<M> WidgetTree<M> {
         }
     }
 
+    /// Paths of all focusable widgets, in focus order.
+    fn focusable_paths(&mut self) -> Vec<Vec<usize>> {
+        let mut paths = Vec::new();
+        collect_focusable_paths(self.root.as_mut(), &mut Vec::new(), &mut paths);
+        paths
+    }
+
     /// Update the focus path for a given focus index.
     ///
     /// This walks the tree to find the nth focusable widget and caches
     /// the path to it. Call this when focus changes.
     pub fn update_focus(&mut self, focus_index: usize) {
-        if focus_index == self.current_focus_index && !self.focus_path.indices.is_empty() {
-            return; // Path is already cached for this focus index
-        }
-
         self.focus_path.clear();
         self.current_focus_index = focus_index;
 
@@ -530,6 +540,11 @@ fn find_focus_path_recursive<M>(
     path: &mut FocusPath,
     remaining: &mut usize,
 ) -> bool {
+    // Widgets that don't take part in layout can't hold focus, nor can their descendants
+    if !widget.participates_in_layout() {
+        return false;
+    }
+
     // Check if this widget is focusable
     if widget.is_focusable() {
         if *remaining == 0 {
@@ -553,6 +568,28 @@ fn find_focus_path_recursive<M>(
     false
 }
 
+/// Recursively collect the paths of all focusable widgets, in focus order.
+fn collect_focusable_paths<M>(
+    widget: &mut dyn Widget<M>,
+    path: &mut Vec<usize>,
+    paths: &mut Vec<Vec<usize>>,
+) {
+    if !widget.participates_in_layout() {
+        return;
+    }
+    if widget.is_focusable() {
+        paths.push(path.clone());
+    }
+
+    for i in 0..widget.child_count() {
+        if let Some(child) = widget.get_child_mut(i) {
+            path.push(i);
+            collect_focusable_paths(child, path, paths);
+            path.pop();
+        }
+    }
+}
+
 /// Recursively compute the focus index for a widget with the given ID.
 fn find_focus_index_by_id<M>(
     widget: &mut dyn Widget<M>,
-- 
2.43.0


From bde4cfca05971fc777da227370787b7a0be5f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:08 +0000
Subject: [PATCH 28/83] fix: focus and hover were not cleared on hidden widgets

Moving focus while its holder was hidden left it marked as focused, so two
widgets showed focus once it was made visible again. The command palette also
kept its input marked as focused when its own focus was cleared.
---
 crates/textual/src/containers.rs             | 16 ++++------------
 crates/textual/src/containers/container.rs   |  8 ++------
 crates/textual/src/containers/grid.rs        |  8 ++------
 crates/textual/src/containers/item_grid.rs   |  8 ++------
 crates/textual/src/containers/scrollable.rs  |  8 ++------
 crates/textual/src/widget/app_widget.rs      |  4 +---
 crates/textual/src/widget/command_palette.rs |  2 +-
 crates/textual/src/widget/screen.rs          |  8 ++------
 8 files changed, 16 insertions(+), 46 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 42cb4f6..be4b114 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -184,9 +184,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -205,9 +203,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
@@ -326,9 +322,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_focus(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_focus();
-        }
+        self.child_mut().clear_focus();
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
@@ -347,9 +341,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn clear_hover(&mut self) {
-        if self.child().is_visible() {
-            self.child_mut().clear_hover();
-        }
+        self.child_mut().clear_hover();
     }
 
     fn child_count(&self) -> usize {
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cc6529e..cba368c 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -1578,9 +1578,7 @@ Container {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1600,9 +1598,7 @@ Container {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 45082ba..e8ec87f 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -427,9 +427,7 @@ Grid {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -449,9 +447,7 @@ Grid {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 2c8e26f..476f495 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -308,9 +308,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -330,9 +328,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 28593e2..67f351e 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -1387,9 +1387,7 @@ ScrollableContainer {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 
@@ -1421,9 +1419,7 @@ ScrollableContainer {
     fn clear_hover(&mut self) {
         self.scrollbar_hover = None;
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 }
diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 9c0ef37..1d4c1e2 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -250,9 +250,7 @@ App {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c533d7a..de055a3 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1863,7 +1863,7 @@ CommandPalette LoadingIndicator.--visible {
     }
 
     fn clear_focus(&mut self) {
-        self.focused = false;
+        self.set_focus(false);
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index af87e7d..7e3012b 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1145,9 +1145,7 @@ Screen {
 
     fn clear_hover(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_hover();
-            }
+            child.clear_hover();
         }
     }
 
@@ -1195,9 +1193,7 @@ Screen {
 
     fn clear_focus(&mut self) {
         for child in &mut self.children {
-            if child.participates_in_layout() {
-                child.clear_focus();
-            }
+            child.clear_focus();
         }
     }
 }
-- 
2.43.0


From f53e0cae59287857cc004b230c89bdfe5880ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:57 +0000
Subject: [PATCH 29/83] fix: Center and Middle ignored display: none and lost
 their own style

Children with display: none were still drawn and focusable, restyling the child
alone dropped colours inherited through the wrapper, and messages from mouse
events named the wrapper as their sender.
---
 crates/textual/src/containers.rs | 70 ++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index be4b114..e525dac 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -11,7 +11,7 @@ use crate::KeyCode;
 use crate::MouseEvent;
 use crate::canvas::{Canvas, Region, Size};
 use crate::render_cache::RenderCache;
-use crate::widget::Widget;
+use crate::widget::{SenderInfo, Widget};
 use tcss::ComputedStyle;
 
 /// Renders container chrome (background and border) and returns the inner region.
@@ -82,6 +82,7 @@ fn inner_region_from_cache(
 /// Centered horizontally
 pub struct Center<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -98,6 +99,7 @@ impl<M> Center<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -131,7 +133,7 @@ impl<M> Center<M> {
 
 impl<M> Widget<M> for Center<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -145,7 +147,7 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.centered_region(region));
@@ -157,6 +159,14 @@ impl<M> Widget<M> for Center<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
@@ -170,14 +180,14 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
@@ -188,20 +198,32 @@ impl<M> Widget<M> for Center<M> {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let centered = self.centered_region(region);
         self.child_mut().on_mouse(event, centered)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, SenderInfo)> {
+        if !self.child().participates_in_layout() {
+            return None;
+        }
+        let centered = self.centered_region(region);
+        self.child_mut().on_mouse_with_sender(event, centered)
+    }
+
     fn clear_hover(&mut self) {
         self.child_mut().clear_hover();
     }
@@ -220,6 +242,7 @@ impl<M> Widget<M> for Center<M> {
 /// Centered vertically
 pub struct Middle<M> {
     children: Vec<Box<dyn Widget<M>>>,
+    style: ComputedStyle,
     dirty: bool,
 }
 
@@ -236,6 +259,7 @@ impl<M> Middle<M> {
         );
         Self {
             children,
+            style: ComputedStyle::default(),
             dirty: true, // Start dirty so initial styles are computed
         }
     }
@@ -269,7 +293,7 @@ impl<M> Middle<M> {
 
 impl<M> Widget<M> for Middle<M> {
     fn desired_size(&self) -> Size {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return Size {
                 width: 0,
                 height: 0,
@@ -283,7 +307,7 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return;
         }
         self.child().render(canvas, self.middled_region(region));
@@ -295,6 +319,14 @@ impl<M> Widget<M> for Middle<M> {
         }
     }
 
+    fn set_style(&mut self, style: ComputedStyle) {
+        self.style = style;
+    }
+
+    fn get_style(&self) -> ComputedStyle {
+        self.style.clone()
+    }
+
     fn is_dirty(&self) -> bool {
         self.dirty
     }
@@ -308,14 +340,14 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         self.child_mut().on_event(key)
     }
 
     fn count_focusable(&self) -> usize {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return 0;
         }
         self.child().count_focusable()
@@ -326,20 +358,32 @@ impl<M> Widget<M> for Middle<M> {
     }
 
     fn focus_nth(&mut self, n: usize) -> bool {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return false;
         }
         self.child_mut().focus_nth(n)
     }
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
-        if !self.child().is_visible() {
+        if !self.child().participates_in_layout() {
             return None;
         }
         let middled = self.middled_region(region);
         self.child_mut().on_mouse(event, middled)
     }
 
+    fn on_mouse_with_sender(
+        &mut self,
+        event: MouseEvent,
+        region: Region,
+    ) -> Option<(M, SenderInfo)> {
+        if !self.child().participates_in_layout() {
+            return None;
+        }
+        let middled = self.middled_region(region);
+        self.child_mut().on_mouse_with_sender(event, middled)
+    }
+
     fn clear_hover(&mut self) {
         self.child_mut().clear_hover();
     }
-- 
2.43.0


From f81cdf39538d516ebbeb8d7ad769af804a4d1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:25 +0000
Subject: [PATCH 30/83] fix: bubbling messages were handed back down at the
 screen and app

Screen and AppWidget passed a bubbling message to all of their children, so an
ancestor that had already handled it saw it again (even after stopping it there)
and widgets that are not ancestors of the sender could intercept it.
---
 crates/textual/src/widget/app_widget.rs | 8 --------
 crates/textual/src/widget/screen.rs     | 9 ---------
 2 files changed, 17 deletions(-)

diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 1d4c1e2..1264960 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -216,14 +216,6 @@ App {
         any_changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        let mut handled = None;
-        for child in &mut self.children {
-            handled = child.handle_message(envelope);
-        }
-        handled
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 7e3012b..4164a5b 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -1159,15 +1159,6 @@ Screen {
         changed
     }
 
-    fn handle_message(&mut self, envelope: &mut crate::MessageEnvelope<M>) -> Option<M> {
-        for child in &mut self.children {
-            if let Some(msg) = child.handle_message(envelope) {
-                return Some(msg);
-            }
-        }
-        None
-    }
-
     // Focus delegation
     fn count_focusable(&self) -> usize {
         self.children
-- 
2.43.0


From 560aae5fecd683575c171bede058098a5d75fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:35 +0000
Subject: [PATCH 31/83] fix: class changes were ignored by Vertical, Horizontal
 and their scroll variants

add_class, remove_class, set_classes and set_border_title did nothing on them,
whether called directly or through a query.
---
 .../src/containers/horizontal_scroll.rs       | 27 ++++++++++++++
 .../textual/src/containers/vertical_scroll.rs | 27 ++++++++++++++
 crates/textual/src/macros.rs                  | 36 +++++++++++++++++++
 3 files changed, 90 insertions(+)

diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index fa28381..2dd1945 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -247,4 +247,31 @@ HorizontalScroll {
     fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
         self.inner.for_each_child(f)
     }
+
+    fn add_class(&mut self, class: &str) {
+        if !self.has_class(class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if self.has_class(class) {
+            self.classes.retain(|c| c != class);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
 }
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index 8f8e83d..bd8cfa5 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -244,4 +244,31 @@ VerticalScroll {
     fn for_each_child(&mut self, f: &mut dyn FnMut(&mut dyn Widget<M>)) {
         self.inner.for_each_child(f)
     }
+
+    fn add_class(&mut self, class: &str) {
+        if !self.has_class(class) {
+            self.classes.push(class.to_string());
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn remove_class(&mut self, class: &str) {
+        if self.has_class(class) {
+            self.classes.retain(|c| c != class);
+            self.inner.mark_dirty();
+        }
+    }
+
+    fn has_class(&self, class: &str) -> bool {
+        self.classes.iter().any(|c| c == class)
+    }
+
+    fn set_classes(&mut self, classes: &str) {
+        self.classes = classes.split_whitespace().map(String::from).collect();
+        self.inner.mark_dirty();
+    }
+
+    fn classes(&self) -> Vec<String> {
+        self.classes.clone()
+    }
 }
diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 4ed56fe..04433e6 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -218,6 +218,42 @@ macro_rules! impl_widget_delegation {
             fn content_width_for_scroll(&self, available_width: u16) -> u16 {
                 self.$field.content_width_for_scroll(available_width)
             }
+
+            fn set_border_title(&mut self, title: &str) {
+                self.$field.set_border_title(title)
+            }
+
+            fn set_border_subtitle(&mut self, subtitle: &str) {
+                self.$field.set_border_subtitle(subtitle)
+            }
+
+            fn border_title(&self) -> Option<&str> {
+                self.$field.border_title()
+            }
+
+            fn border_subtitle(&self) -> Option<&str> {
+                self.$field.border_subtitle()
+            }
+
+            fn add_class(&mut self, class: &str) {
+                self.$field.add_class(class)
+            }
+
+            fn remove_class(&mut self, class: &str) {
+                self.$field.remove_class(class)
+            }
+
+            fn has_class(&self, class: &str) -> bool {
+                self.$field.has_class(class)
+            }
+
+            fn set_classes(&mut self, classes: &str) {
+                self.$field.set_classes(classes)
+            }
+
+            fn classes(&self) -> Vec<String> {
+                self.$field.classes()
+            }
         }
     };
 }
-- 
2.43.0


From 4ffc00ef99387abcd87c9e71d564a286fb3d3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:49 +0000
Subject: [PATCH 32/83] fix: a second DOMQuery filter replaced the first
 instead of narrowing it

---
 crates/textual/src/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index d2488e8..82787ca 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -941,7 +941,10 @@ impl<'a, M: 'static> DOMQuery<'a, M> {
     where
         F: Fn(&dyn Widget<M>) -> bool + 'a,
     {
-        self.filter_fn = Some(Box::new(predicate));
+        self.filter_fn = Some(match self.filter_fn.take() {
+            Some(earlier) => Box::new(move |widget| earlier(widget) && predicate(widget)),
+            None => Box::new(predicate),
+        });
         self
     }
 
-- 
2.43.0


From 39268dceca1cc869236da03a771c039e25740ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:03 +0000
Subject: [PATCH 33/83] fix: a boxed widget did not pass on focus, tooltip,
 inline style or modality

The Widget impl for Box<dyn Widget> left these to the trait defaults, so a call
on a boxed child did nothing: a modal overlay did not block mouse events, and a
message sender in a box was reported as type Widget.
---
 crates/textual/src/widget.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/widget.rs b/crates/textual/src/widget.rs
index 5fe2d87..7ad6edb 100644
--- a/crates/textual/src/widget.rs
+++ b/crates/textual/src/widget.rs
@@ -611,6 +611,38 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
         self.as_ref().default_css()
     }
 
+    fn set_inline_style(&mut self, style: StyleOverride) {
+        self.as_mut().set_inline_style(style);
+    }
+
+    fn inline_style(&self) -> Option<&StyleOverride> {
+        self.as_ref().inline_style()
+    }
+
+    fn clear_inline_style(&mut self) {
+        self.as_mut().clear_inline_style();
+    }
+
+    fn tooltip(&self) -> Option<String> {
+        self.as_ref().tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.as_mut().set_tooltip(tooltip);
+    }
+
+    fn set_focus(&mut self, is_focused: bool) {
+        self.as_mut().set_focus(is_focused);
+    }
+
+    fn is_focused(&self) -> bool {
+        self.as_ref().is_focused()
+    }
+
+    fn blocks_mouse_events(&self) -> bool {
+        self.as_ref().blocks_mouse_events()
+    }
+
     fn get_meta(&self) -> WidgetMeta {
         self.as_ref().get_meta()
     }
@@ -724,9 +756,7 @@ impl<M> Widget<M> for Box<dyn Widget<M>> {
     }
 
     fn type_name(&self) -> &'static str {
-        // Box<dyn Widget> should delegate to inner widget's type_name
-        // but we can't call it through trait object, so return generic name
-        "Widget"
+        self.as_ref().type_name()
     }
 
     fn sender_info(&self) -> SenderInfo {
-- 
2.43.0


From b989701d9d82be03de162bc09ae4c2414d9d4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:46 +0000
Subject: [PATCH 34/83] fix: widget default styles were combined in random
 order

The defaults of a widget and of the one it extends (VerticalScroll and
ScrollableContainer) set the same properties with equal specificity, so which
one won changed from run to run.
---
 crates/textual/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cf6273d..e24f2ad 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -35,7 +35,7 @@ pub use crossterm::event::{
 use crossterm::{cursor, execute, terminal};
 use futures::StreamExt;
 use std::cell::Cell;
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 use std::time::{Duration, Instant};
 use tokio::sync::mpsc;
 
@@ -117,10 +117,13 @@ use crate::{
 /// Walks the widget tree and collects unique `default_css()` strings from all widgets.
 /// These are prepended to the app's CSS to ensure widget defaults are applied with
 /// lower specificity than app-level styles.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
+///
+/// Each entry carries the number of types the widget is known by: a widget that extends
+/// another one is known by its own name and by those of the widgets it extends.
+fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<(usize, &'static str)>) {
     let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
+    if !default_css.is_empty() && !collected.iter().any(|(_, css)| *css == default_css) {
+        collected.push((widget.get_meta().type_names.len(), default_css));
     }
     widget.for_each_child(&mut |child| {
         collect_default_css(child, collected);
@@ -131,17 +134,19 @@ fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'
 ///
 /// Widget default CSS is prepended (lower specificity), so app CSS can override.
 fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
+    let mut defaults: Vec<(usize, &'static str)> = Vec::new();
     collect_default_css(root, &mut defaults);
 
-    // Concatenate defaults (order doesn't matter, app CSS will override)
+    // Concatenate defaults. Rules for a base type and for a type that extends it can match
+    // the same widget with the same specificity, so the base type's have to come first.
+    defaults.sort_by_key(|(type_count, _)| *type_count);
     let mut combined = String::new();
 
     // First add base widget CSS (universal defaults like scrollbar and link styling)
     combined.push_str(widget::screen::Screen::<M>::base_widget_css());
     combined.push('\n');
 
-    for css in defaults {
+    for (_, css) in defaults {
         combined.push_str(css);
         combined.push('\n');
     }
-- 
2.43.0


From 937b313a33903e9ff5e9c3d5147f6b5d55d4ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:04 +0000
Subject: [PATCH 35/83] fix: the screen was not redrawn after keys and posted
 messages

Only a focus change or a recompose led to a redraw, so toggling a switch, typing
or a timer's update stayed invisible until the mouse moved.
---
 crates/textual/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index e24f2ad..bb21314 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -891,16 +891,15 @@ pub trait App {
                                     )
                                     .unwrap_or(false);
                                 // Global focus navigation (Tab / Shift+Tab)
-                                let mut focus_changed = false;
                                 match key_event.code {
                                     KeyCode::Tab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_next().is_some();
+                                            tree.focus_next();
                                         }
                                     }
                                     KeyCode::BackTab => {
                                         if !palette_open {
-                                            focus_changed = tree.focus_previous().is_some();
+                                            tree.focus_previous();
                                         }
                                     }
                                     _ => {}
@@ -951,7 +950,8 @@ pub trait App {
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
-                                needs_render = needs_render || focus_changed;
+                                // Widgets and the app may have changed in response
+                                needs_render = true;
                             }
                             Some(Ok(Event::Resize(nw, nh))) => {
                                 // Handle terminal window resizing
@@ -1105,11 +1105,11 @@ pub trait App {
                         let event_ctx = AppContext::new(tx.clone());
                         let mut ctx = EventContext::new(event_ctx, &mut tree);
                         self.handle_message(envelope, &mut ctx);
-                        if drain_command_palette(self, &mut tree, &tx) {
-                            needs_render = true;
-                        }
+                        let _ = drain_command_palette(self, &mut tree, &tx);
                         // Check if app wants tree rebuild (Elm-style)
                         needs_recompose = self.needs_recompose();
+                        // The app may have changed widgets in response
+                        needs_render = true;
                     }
                 }
             }
-- 
2.43.0


From b6c160f2890d585cb86224272b3bc925cdd3852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:45 +0000
Subject: [PATCH 36/83] fix: keys kept going to a focused widget whose
 container was hidden

The fallback to another widget only asked the focused widget itself whether it
is focusable, not whether it, or a container it is in, still takes part in the
layout, and it ran before the styles that decide this.
---
 crates/textual/src/lib.rs  | 47 ++++++++++++++++++++++----------------
 crates/textual/src/tree.rs | 16 +++++++++++++
 2 files changed, 43 insertions(+), 20 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index bb21314..c198e14 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -238,6 +238,23 @@ fn key_matches(expected: &KeyCode, actual: &KeyCode) -> bool {
     }
 }
 
+/// Resolve styles of the widgets that changed.
+fn restyle_dirty<M>(
+    tree: &mut WidgetTree<M>,
+    stylesheet: &tcss::parser::StyleSheet,
+    theme: &tcss::types::Theme,
+) {
+    let mut ancestors = VecDeque::new();
+    resolve_dirty_styles(
+        tree.root_mut(),
+        stylesheet,
+        theme,
+        &mut ancestors,
+        false,
+        &InheritedContext::from_theme(theme),
+    );
+}
+
 fn drain_command_palette<M, A>(
     app: &mut A,
     tree: &mut WidgetTree<M>,
@@ -268,6 +285,7 @@ where
         .unwrap_or_default();
 
     if !events.is_empty() {
+        needs_render = true;
         let event_ctx = AppContext::new(tx.clone());
         let mut ctx = EventContext::new(event_ctx, tree);
         for event in events {
@@ -794,28 +812,17 @@ pub trait App {
                     needs_render = true;
                 }
 
-                // If the currently focused widget is no longer focusable (e.g. hidden modal),
-                // fall back to the first available focusable widget.
-                if let Some(is_focusable) = tree.with_focused(|widget| widget.is_focusable()) {
-                    if !is_focusable {
-                        if tree.set_focus_index(0) {
-                            last_focus_index = self.focus_index();
-                            needs_render = true;
-                        }
-                    }
-                }
-
                 if needs_render {
                     // Resolve styles only for dirty widgets
-                    let mut ancestors = VecDeque::new();
-                    resolve_dirty_styles(
-                        tree.root_mut(),
-                        &stylesheet,
-                        &theme,
-                        &mut ancestors,
-                        false,
-                        &InheritedContext::from_theme(&theme),
-                    );
+                    restyle_dirty(&mut tree, &stylesheet, &theme);
+
+                    // If the currently focused widget is no longer focusable (e.g. hidden modal,
+                    // or in a container the styles have just hidden), fall back to the first
+                    // available focusable widget.
+                    if !tree.focused_is_focusable() && tree.set_focus_index(0) {
+                        last_focus_index = self.focus_index();
+                        restyle_dirty(&mut tree, &stylesheet, &theme);
+                    }
 
                     canvas.clear();
                     let region = Region::from_u16(0, 0, cols, rows);
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 82787ca..8d59dbe 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -208,6 +208,22 @@ impl<M> WidgetTree<M> {
         Some(f(current))
     }
 
+    /// Whether the focused widget can still hold focus: it is focusable, and neither it nor
+    /// a container it is in has been taken out of the layout.
+    pub(crate) fn focused_is_focusable(&mut self) -> bool {
+        let mut current: &mut dyn Widget<M> = self.root.as_mut();
+        for &index in &self.focus_path.indices {
+            if !current.participates_in_layout() {
+                return false;
+            }
+            match current.get_child_mut(index) {
+                Some(child) => current = child,
+                None => return false,
+            }
+        }
+        current.participates_in_layout() && current.is_focusable()
+    }
+
     /// Dispatch a key event to the focused widget.
     ///
     /// Returns the message produced, if any.
-- 
2.43.0


From b5b4d8e27a6c7496520dd8049b8fb8e5a7fab891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:31 +0000
Subject: [PATCH 37/83] fix: the terminal was not restored when the app
 panicked or was cancelled

Raw mode, the alternate screen, the hidden cursor and mouse capture were only
undone when the event loop returned.
---
 crates/textual/src/lib.rs | 60 +++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index c198e14..cbc4349 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -238,6 +238,49 @@ fn key_matches(expected: &KeyCode, actual: &KeyCode) -> bool {
     }
 }
 
+/// Puts the terminal into application mode and back.
+///
+/// Dropping the guard restores the terminal, so that a panic in the app, a cancelled
+/// `run_async` or a setup that fails half way do not leave it in application mode.
+struct TerminalGuard {
+    active: bool,
+}
+
+impl TerminalGuard {
+    fn enter() -> std::io::Result<Self> {
+        terminal::enable_raw_mode()?;
+        let guard = Self { active: true };
+        execute!(
+            std::io::stdout(),
+            terminal::EnterAlternateScreen,
+            cursor::Hide,
+            EnableMouseCapture
+        )?;
+        Ok(guard)
+    }
+
+    fn restore(&mut self) -> std::io::Result<()> {
+        if !std::mem::take(&mut self.active) {
+            return Ok(());
+        }
+        // Leave raw mode even if the escape sequences can't be written
+        let written = execute!(
+            std::io::stdout(),
+            DisableMouseCapture,
+            cursor::Show,
+            terminal::LeaveAlternateScreen
+        );
+        terminal::disable_raw_mode()?;
+        written
+    }
+}
+
+impl Drop for TerminalGuard {
+    fn drop(&mut self) {
+        let _ = self.restore();
+    }
+}
+
 /// Resolve styles of the widgets that changed.
 fn restyle_dirty<M>(
     tree: &mut WidgetTree<M>,
@@ -670,26 +713,13 @@ pub trait App {
     /// Inner async run logic, separated for runtime flexibility.
     fn run_inner(&mut self) -> impl std::future::Future<Output = Result<()>> + '_ {
         async move {
-            let mut stdout = std::io::stdout();
             // Enable raw mode, mouse capture, and enter alternate screen
-            terminal::enable_raw_mode()?;
-            execute!(
-                stdout,
-                terminal::EnterAlternateScreen,
-                cursor::Hide,
-                EnableMouseCapture
-            )?;
+            let mut guard = TerminalGuard::enter()?;
 
             let result = self.event_loop_async().await;
 
             // Cleanup: Restore terminal state on exit
-            execute!(
-                stdout,
-                DisableMouseCapture,
-                cursor::Show,
-                terminal::LeaveAlternateScreen
-            )?;
-            terminal::disable_raw_mode()?;
+            guard.restore()?;
 
             result
         }
-- 
2.43.0


From 9ac7dd4bf9b8cff7b8a4e2865bd27f05da375e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:07 +0000
Subject: [PATCH 38/83] fix: widgets that first appear in a recompose had no
 default styles

The stylesheet was only built from the first tree.
---
 crates/textual/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index cbc4349..a2700d7 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -758,7 +758,7 @@ pub trait App {
             // 3. Collect widget default CSS and combine with app CSS
             // Widget defaults are prepended (lower specificity), app CSS overrides
             let combined_css = build_combined_css(tree.root_mut(), Self::CSS);
-            let stylesheet = tcss::parser::parse_stylesheet(&combined_css)
+            let mut stylesheet = tcss::parser::parse_stylesheet(&combined_css)
                 .map_err(|e| TextualError::InvalidCss(e.to_string()))?;
 
             // Set initial focus and cache the focus path
@@ -824,6 +824,11 @@ pub trait App {
                     tree.update_focus(self.focus_index());
                     last_focus_index = self.focus_index();
 
+                    // The new tree may bring in widget types with defaults of their own
+                    let combined_css = build_combined_css(tree.root_mut(), Self::CSS);
+                    stylesheet = tcss::parser::parse_stylesheet(&combined_css)
+                        .map_err(|e| TextualError::InvalidCss(e.to_string()))?;
+
                     // Full style resolution for new tree
                     let mut ancestors = VecDeque::new();
                     resolve_styles(tree.root_mut(), &stylesheet, &theme, &mut ancestors);
-- 
2.43.0


From 23d2a187907edbc29bcd40ab62b5939268441aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:05 +0000
Subject: [PATCH 39/83] fix: headless rendering combined default styles in
 random order too

---
 crates/textual/src/lib.rs     | 19 ++++++++++++-------
 crates/textual/src/testing.rs | 18 ++----------------
 2 files changed, 14 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index a2700d7..2fab3db 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -130,23 +130,28 @@ fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<(usize
     });
 }
 
-/// Build a combined stylesheet from widget defaults and app CSS.
+/// The default CSS of all widgets in the tree, in the order in which it has to be applied.
 ///
-/// Widget default CSS is prepended (lower specificity), so app CSS can override.
-fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
+/// Rules for a base type and for a type that extends it can match the same widget with the
+/// same specificity, so the base type's come first.
+pub(crate) fn ordered_default_css<M>(root: &mut dyn Widget<M>) -> Vec<&'static str> {
     let mut defaults: Vec<(usize, &'static str)> = Vec::new();
     collect_default_css(root, &mut defaults);
-
-    // Concatenate defaults. Rules for a base type and for a type that extends it can match
-    // the same widget with the same specificity, so the base type's have to come first.
     defaults.sort_by_key(|(type_count, _)| *type_count);
+    defaults.into_iter().map(|(_, css)| css).collect()
+}
+
+/// Build a combined stylesheet from widget defaults and app CSS.
+///
+/// Widget default CSS is prepended (lower specificity), so app CSS can override.
+fn build_combined_css<M: 'static>(root: &mut dyn Widget<M>, app_css: &str) -> String {
     let mut combined = String::new();
 
     // First add base widget CSS (universal defaults like scrollbar and link styling)
     combined.push_str(widget::screen::Screen::<M>::base_widget_css());
     combined.push('\n');
 
-    for (_, css) in defaults {
+    for css in ordered_default_css(root) {
         combined.push_str(css);
         combined.push('\n');
     }
diff --git a/crates/textual/src/testing.rs b/crates/textual/src/testing.rs
index d28ac15..c5f5159 100644
--- a/crates/textual/src/testing.rs
+++ b/crates/textual/src/testing.rs
@@ -3,7 +3,7 @@
 //! This module provides headless rendering without the event loop,
 //! useful for snapshot testing UI layouts.
 
-use std::collections::{HashSet, VecDeque};
+use std::collections::VecDeque;
 
 use crate::{
     Size,
@@ -13,24 +13,10 @@ use crate::{
     widget::{Compose, Widget, screen::Screen},
 };
 
-/// Collect default CSS from a widget and all its descendants.
-fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut HashSet<&'static str>) {
-    let default_css = widget.default_css();
-    if !default_css.is_empty() {
-        collected.insert(default_css);
-    }
-    widget.for_each_child(&mut |child| {
-        collect_default_css(child, collected);
-    });
-}
-
 /// Build a combined stylesheet from widget defaults and app CSS.
 pub fn build_combined_css<M>(root: &mut dyn Widget<M>, app_css: &str) -> String {
-    let mut defaults: HashSet<&'static str> = HashSet::new();
-    collect_default_css(root, &mut defaults);
-
     let mut combined = String::new();
-    for css in defaults {
+    for css in crate::ordered_default_css(root) {
         combined.push_str(css);
         combined.push('\n');
     }
-- 
2.43.0


From fe1188efa882cdc8d0c32b778176d589f32a3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:31 +0000
Subject: [PATCH 40/83] fix: keys and mouse events reached hidden overlays of
 the app

---
 crates/textual/src/widget/app_widget.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/textual/src/widget/app_widget.rs b/crates/textual/src/widget/app_widget.rs
index 1264960..29d2fd8 100644
--- a/crates/textual/src/widget/app_widget.rs
+++ b/crates/textual/src/widget/app_widget.rs
@@ -157,6 +157,9 @@ App {
     fn on_event(&mut self, key: KeyCode) -> Option<M> {
         // Forward to the top-most child that handles the event
         for child in self.children.iter_mut().rev() {
+            if !child.participates_in_layout() {
+                continue;
+            }
             if let Some(msg) = child.on_event(key) {
                 return Some(msg);
             }
@@ -166,6 +169,9 @@ App {
 
     fn on_mouse(&mut self, event: MouseEvent, region: Region) -> Option<M> {
         for child in self.children.iter_mut().rev() {
+            if !child.participates_in_layout() {
+                continue;
+            }
             let blocks_mouse = child.blocks_mouse_events();
             if let Some(msg) = child.on_mouse(event, region) {
                 return Some(msg);
@@ -183,6 +189,9 @@ App {
         region: Region,
     ) -> Option<(M, crate::widget::SenderInfo)> {
         for child in self.children.iter_mut().rev() {
+            if !child.participates_in_layout() {
+                continue;
+            }
             let blocks_mouse = child.blocks_mouse_events();
             if let Some(result) = child.on_mouse_with_sender(event, region) {
                 return Some(result);
-- 
2.43.0


From 8f78efb04455f7631a2a64c7f4afe0e787323ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:52 +0000
Subject: [PATCH 41/83] fix: Static::add_class and LoadingIndicator visibility
 changes were not restyled

---
 crates/textual/src/widget/loading_indicator.rs | 2 +-
 crates/textual/src/widget/static_widget.rs     | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/loading_indicator.rs b/crates/textual/src/widget/loading_indicator.rs
index 4468b2b..1100902 100644
--- a/crates/textual/src/widget/loading_indicator.rs
+++ b/crates/textual/src/widget/loading_indicator.rs
@@ -170,7 +170,7 @@ LoadingIndicator {
     }
 
     fn set_visible(&mut self, visible: bool) {
-        self.visible = visible;
+        LoadingIndicator::set_visible(self, visible);
     }
 
     fn is_loading(&self) -> bool {
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index cb0365a..5d727c3 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -163,7 +163,11 @@ impl<M> Static<M> {
 
     /// Add a single CSS class.
     pub fn add_class(&mut self, class: impl Into<String>) {
-        self.classes.push(class.into());
+        let class = class.into();
+        if !self.classes.contains(&class) {
+            self.classes.push(class);
+            self.dirty = true;
+        }
     }
 
     /// Set whether the widget expands to fill available space.
-- 
2.43.0


From 391c574da732f157915ddad258e12fd6df1e2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:39 +0000
Subject: [PATCH 42/83] fix: Container drew stale child placements and sent
 mouse events to the wrong child

---
 crates/textual/src/containers/container.rs | 315 +++++++++------------
 1 file changed, 130 insertions(+), 185 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index cba368c..3e95851 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -3,7 +3,7 @@
 //! Container is the base for all layout containers. It dispatches to the
 //! appropriate layout algorithm based on the `layout` CSS property.
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use tcss::types::Layout as LayoutDirection;
 use tcss::types::Overflow;
@@ -67,6 +67,10 @@ pub struct Container<M> {
     /// Cached layout placements to avoid recomputing on every render.
     /// Uses RefCell for interior mutability since render takes &self.
     cached_layout: RefCell<Option<CachedLayout>>,
+    /// Viewport of the last render (mouse events must see the layout that was drawn).
+    rendered_viewport: Cell<Option<Viewport>>,
+    /// Scrollbars shown by the current layout: (vertical, horizontal).
+    scrollbars: Cell<(bool, bool)>,
     /// Scroll state for overflow scrolling.
     /// Uses RefCell for interior mutability since render takes &self.
     scroll: RefCell<ScrollState>,
@@ -91,6 +95,8 @@ impl<M> Container<M> {
             layout_override: None,
             viewport: Size::new(80, 24), // Default until on_resize is called
             cached_layout: RefCell::new(None),
+            rendered_viewport: Cell::new(None),
+            scrollbars: Cell::new((false, false)),
             scroll: RefCell::new(ScrollState::default()),
             scrollbar_hover: None,
             scrollbar_drag: None,
@@ -170,24 +176,7 @@ impl<M> Container<M> {
 
     /// Return true if any child occupies the given point within this container region.
     pub fn hit_test_children(&self, region: Region, column: i32, row: i32) -> bool {
-        if !region.contains_point(column, row) {
-            return false;
-        }
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(column, row) {
-                return true;
-            }
-        }
-        false
+        region.contains_point(column, row) && self.child_at(region, column, row).is_some()
     }
 
     /// Get the effective layout direction (override takes precedence over CSS).
@@ -199,10 +188,7 @@ impl<M> Container<M> {
     fn show_vertical_scrollbar(&self) -> bool {
         match self.style.overflow_y {
             Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_y()
-            }
+            Overflow::Auto => self.scrollbars.get().0,
             Overflow::Hidden => false,
         }
     }
@@ -211,10 +197,7 @@ impl<M> Container<M> {
     fn show_horizontal_scrollbar(&self) -> bool {
         match self.style.overflow_x {
             Overflow::Scroll => true,
-            Overflow::Auto => {
-                let scroll = self.scroll.borrow();
-                scroll.can_scroll_x()
-            }
+            Overflow::Auto => self.scrollbars.get().1,
             Overflow::Hidden => false,
         }
     }
@@ -375,6 +358,108 @@ impl<M> Container<M> {
         placements
     }
 
+    /// Region left for children inside border and padding.
+    fn inner_region(&self, region: Region) -> Region {
+        let cache = RenderCache::new(&self.style);
+        let (inner_width, inner_height) =
+            cache.inner_size(region.width.max(0) as usize, region.height.max(0) as usize);
+
+        Region::new(
+            region.x + cache.border_left() as i32 + cache.padding_left() as i32,
+            region.y + cache.border_top() as i32 + cache.padding_top() as i32,
+            inner_width as i32,
+            inner_height as i32,
+        )
+    }
+
+    /// Extent of the placed children relative to `base`, including their outer margins.
+    fn compute_virtual_size(&self, placements: &[WidgetPlacement], base: Region) -> (i32, i32) {
+        let mut virtual_width = 0;
+        let mut virtual_height = 0;
+        for p in placements {
+            let (margin_right, margin_bottom) = self
+                .children
+                .get(p.child_index)
+                .map(|child| {
+                    let margin = child.get_style().margin;
+                    (margin.right.value as i32, margin.bottom.value as i32)
+                })
+                .unwrap_or((0, 0));
+            virtual_width =
+                virtual_width.max((p.region.x - base.x) + p.region.width + margin_right);
+            virtual_height =
+                virtual_height.max((p.region.y - base.y) + p.region.height + margin_bottom);
+        }
+        (virtual_width, virtual_height)
+    }
+
+    /// Lay out the children in the inner region, settling which scrollbars are shown and
+    /// updating the scroll state to match. Returns the content region and the placements.
+    fn compute_scroll_layout(
+        &self,
+        inner_region: Region,
+        viewport: Viewport,
+    ) -> (Region, Vec<WidgetPlacement>) {
+        self.scrollbars.set((false, false));
+        loop {
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+            let (virtual_width, virtual_height) =
+                self.compute_virtual_size(&placements, content_region);
+
+            // A scrollbar takes space, which can make the other one necessary too.
+            let (vertical, horizontal) = self.scrollbars.get();
+            let needed = (
+                vertical || virtual_height > content_region.height,
+                horizontal || virtual_width > content_region.width,
+            );
+            let shown = (
+                self.show_vertical_scrollbar(),
+                self.show_horizontal_scrollbar(),
+            );
+            self.scrollbars.set(needed);
+            if shown
+                == (
+                    self.show_vertical_scrollbar(),
+                    self.show_horizontal_scrollbar(),
+                )
+            {
+                let mut scroll = self.scroll.borrow_mut();
+                scroll.set_virtual_size(virtual_width, virtual_height);
+                scroll.set_viewport(content_region.width, content_region.height);
+                return (content_region, placements);
+            }
+        }
+    }
+
+    /// The topmost child drawn at the given point, with the region it was drawn in.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| Viewport::from(region));
+        let (content_region, placements) =
+            self.compute_scroll_layout(self.inner_region(region), viewport);
+        if !content_region.contains_point(column, row) {
+            return None;
+        }
+        let (offset_x, offset_y) = {
+            let scroll = self.scroll.borrow();
+            (scroll.offset_x, scroll.offset_y)
+        };
+        placements.iter().rev().find_map(|placement| {
+            let scrolled = Region {
+                x: placement.region.x - offset_x,
+                y: placement.region.y - offset_y,
+                width: placement.region.width,
+                height: placement.region.height,
+            };
+            let child = self.children.get(placement.child_index)?;
+            (child.participates_in_layout() && scrolled.contains_point(column, row))
+                .then_some((placement.child_index, scrolled))
+        })
+    }
+
     /// Render keylines for the container.
     ///
     /// For horizontal layout: draws outer box + vertical dividers between children
@@ -683,7 +768,6 @@ Container {
 
         // 1. Create render cache for border handling
         let cache = RenderCache::new(&self.style);
-        let (inner_width, inner_height) = cache.inner_size(width, height);
 
         // 2. Parse border titles as markup (only if we have a border)
         // Title/subtitle color inheritance:
@@ -800,107 +884,14 @@ Container {
         }
 
         // 4. Calculate inner region for children
-        let border_left = cache.border_left() as i32;
-        let border_top = cache.border_top() as i32;
-        let padding_left = cache.padding_left() as i32;
-        let padding_top = cache.padding_top() as i32;
-
-        let inner_region = Region::new(
-            region.x + border_left + padding_left,
-            region.y + border_top + padding_top,
-            inner_width as i32,
-            inner_height as i32,
-        );
+        let inner_region = self.inner_region(region);
 
-        // 5. Update scroll state and compute content region
+        // 5. Lay out the children. Their sizes may have changed since the last render, so
+        // placements cached by it are not reused.
         let viewport = canvas.viewport();
-
-        // First compute placements to determine virtual content height
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-
-        // Calculate virtual content dimensions from placements (max extent relative to inner_region)
-        let virtual_height = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_bottom = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.bottom.value as i32)
-                    .unwrap_or(0);
-                (p.region.y - inner_region.y) + p.region.height + margin_bottom
-            })
-            .max()
-            .unwrap_or(0);
-
-        let virtual_width = initial_placements
-            .iter()
-            .map(|p| {
-                let margin_right = self
-                    .children
-                    .get(p.child_index)
-                    .map(|child| child.get_style().margin.right.value as i32)
-                    .unwrap_or(0);
-                (p.region.x - inner_region.x) + p.region.width + margin_right
-            })
-            .max()
-            .unwrap_or(0);
-
-        // Update scroll state with virtual size and viewport
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(virtual_width, virtual_height);
-            scroll.set_viewport(inner_region.width, inner_region.height);
-        }
-
-        // Determine if we need scrollbars and adjust content region
-        let show_v_scrollbar = self.show_vertical_scrollbar();
-        let content_region = self.content_region_for_scroll(inner_region);
-
-        // If scrollbar visibility changed the content width, we need to recompute placements
-        // and update virtual dimensions (important for width-based units like `w` in min-height: 40w)
-        let placements = if show_v_scrollbar && content_region.width < inner_region.width {
-            // Invalidate cache since we need to recalculate with smaller width
-            *self.cached_layout.borrow_mut() = None;
-            let new_placements = self.compute_child_placements(content_region, viewport);
-
-            // Recalculate virtual dimensions with the new placements (content_region based)
-            let new_virtual_height = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_bottom = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.bottom.value as i32)
-                        .unwrap_or(0);
-                    (p.region.y - content_region.y) + p.region.height + margin_bottom
-                })
-                .max()
-                .unwrap_or(0);
-
-            let new_virtual_width = new_placements
-                .iter()
-                .map(|p| {
-                    let margin_right = self
-                        .children
-                        .get(p.child_index)
-                        .map(|child| child.get_style().margin.right.value as i32)
-                        .unwrap_or(0);
-                    (p.region.x - content_region.x) + p.region.width + margin_right
-                })
-                .max()
-                .unwrap_or(0);
-
-            // Update scroll state with corrected virtual dimensions
-            {
-                let mut scroll = self.scroll.borrow_mut();
-                scroll.set_virtual_size(new_virtual_width, new_virtual_height);
-                scroll.set_viewport(content_region.width, content_region.height);
-            }
-
-            new_placements
-        } else {
-            initial_placements
-        };
+        self.rendered_viewport.set(Some(viewport));
+        *self.cached_layout.borrow_mut() = None;
+        let (content_region, placements) = self.compute_scroll_layout(inner_region, viewport);
 
         // Get scroll offsets for rendering
         let (offset_x, offset_y) = {
@@ -1471,36 +1462,13 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, scrolled_placement)
-                {
-                    return Some(msg);
-                }
-            }
+        // Only the topmost child under the pointer sees the event
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -1536,36 +1504,13 @@ Container {
             _ => {}
         }
 
-        // Compute placements and dispatch mouse events
-        // For mouse handling, approximate viewport as region (only available during render)
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Get scroll offset to adjust mouse coordinates for children
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            // Adjust placement for scroll offset when checking hit
-            let scrolled_placement = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-
-            if scrolled_placement.contains_point(mx, my) {
-                if matches!(event.kind, MouseEventKind::Moved) {
-                    self.children[placement.child_index].set_hover(true);
-                }
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, scrolled_placement)
-                {
-                    return Some(result);
-                }
-            }
+        // Only the topmost child under the pointer sees the event
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
         }
-
-        None
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
-- 
2.43.0


From 6b2cb39ccea1c2439b074960d4de62e0b180691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:39 +0000
Subject: [PATCH 43/83] fix: grids ignored border, padding and viewport when
 finding the child under the mouse

---
 crates/textual/src/containers/grid.rs      | 68 +++++++++-------------
 crates/textual/src/containers/item_grid.rs | 65 +++++++++------------
 2 files changed, 54 insertions(+), 79 deletions(-)

diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index e8ec87f..2a7a2c5 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -25,6 +25,8 @@
 //! }
 //! ```
 
+use std::cell::Cell;
+
 use tcss::{
     ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility,
     types::keyline::KeylineStyle,
@@ -46,6 +48,8 @@ pub struct Grid<M> {
     inline_style: StyleOverride,
     dirty: bool,
     id: Option<String>,
+    /// Viewport of the last render (mouse events must see the layout that was drawn).
+    rendered_viewport: Cell<Option<layouts::Viewport>>,
 }
 
 impl<M> Grid<M> {
@@ -57,6 +61,7 @@ impl<M> Grid<M> {
             inline_style: StyleOverride::default(),
             dirty: true,
             id: None,
+            rendered_viewport: Cell::new(None),
         }
     }
 
@@ -66,6 +71,23 @@ impl<M> Grid<M> {
         self
     }
 
+    /// The topmost child drawn at the given point, with the region it was drawn in.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(column, row) {
+            return None;
+        }
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        self.compute_child_placements(inner_region, viewport)
+            .into_iter()
+            .rev()
+            .find(|placement| placement.region.contains_point(column, row))
+            .map(|placement| (placement.child_index, placement.region))
+    }
+
     /// Compute child placements using GridLayout.
     fn compute_child_placements(
         &self,
@@ -242,6 +264,7 @@ Grid {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.rendered_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -364,27 +387,8 @@ Grid {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        // Then iterate and dispatch mouse events (borrows self mutably)
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
-            }
-        }
-
-        None
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        self.children[index].on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -395,26 +399,8 @@ Grid {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        // Compute placements first (borrows self immutably)
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
-            }
-        }
-
-        None
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        self.children[index].on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 476f495..328861e 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -6,6 +6,8 @@
 //! - `stretch_height`: Force all cells in a row to equal height
 //! - `regular`: Ensure no partial rows (even distribution)
 
+use std::cell::Cell;
+
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibility};
 
 use crate::canvas::{Canvas, Region, Size};
@@ -35,6 +37,8 @@ pub struct ItemGrid<M> {
     inline_style: StyleOverride,
     dirty: bool,
     id: Option<String>,
+    /// Viewport of the last render (mouse events must see the layout that was drawn).
+    rendered_viewport: Cell<Option<layouts::Viewport>>,
 
     // Runtime-configurable properties (passed to GridLayout via pre_layout)
     // Use the builder methods (with_min_column_width, etc.) to set these
@@ -53,6 +57,7 @@ impl<M> ItemGrid<M> {
             inline_style: StyleOverride::default(),
             dirty: true,
             id: None,
+            rendered_viewport: Cell::new(None),
             min_column_width: None,
             max_column_width: None,
             stretch_height: true,
@@ -101,6 +106,23 @@ impl<M> ItemGrid<M> {
             .count()
     }
 
+    /// The topmost child drawn at the given point, with the region it was drawn in.
+    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+        let inner_region = crate::containers::inner_region_for_container(region, &self.style);
+        if !inner_region.contains_point(column, row) {
+            return None;
+        }
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        self.compute_child_placements(inner_region, viewport)
+            .into_iter()
+            .rev()
+            .find(|placement| placement.region.contains_point(column, row))
+            .map(|placement| (placement.child_index, placement.region))
+    }
+
     /// Compute child placements using GridLayout with pre_layout configuration.
     fn compute_child_placements(
         &self,
@@ -151,6 +173,7 @@ impl<M> Widget<M> for ItemGrid<M> {
 
         // 2. Render children in inner region using the canvas viewport
         let viewport = canvas.viewport();
+        self.rendered_viewport.set(Some(viewport));
         canvas.push_clip(inner_region);
         for placement in self.compute_child_placements(inner_region, viewport) {
             let child = &self.children[placement.child_index];
@@ -248,25 +271,8 @@ impl<M> Widget<M> for ItemGrid<M> {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(msg) =
-                    self.children[placement.child_index].on_mouse(event, placement.region)
-                {
-                    return Some(msg);
-                }
-            }
-        }
-
-        None
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        self.children[index].on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -277,25 +283,8 @@ impl<M> Widget<M> for ItemGrid<M> {
         let mx = event.column as i32;
         let my = event.row as i32;
 
-        if !region.contains_point(mx, my) {
-            return None;
-        }
-
-        // For mouse handling, approximate viewport as region
-        let viewport = layouts::Viewport::from(region);
-        let placements = self.compute_child_placements(region, viewport);
-
-        for placement in placements {
-            if placement.region.contains_point(mx, my) {
-                if let Some(result) = self.children[placement.child_index]
-                    .on_mouse_with_sender(event, placement.region)
-                {
-                    return Some(result);
-                }
-            }
-        }
-
-        None
+        let (index, child_region) = self.child_at(region, mx, my)?;
+        self.children[index].on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
-- 
2.43.0


From 20428a6b1f938fe2aa57858f0b92bda7dc489351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:39 +0000
Subject: [PATCH 44/83] fix: ScrollableContainer sent mouse events to covered
 children and could overlay content with a scrollbar

---
 crates/textual/src/containers/scrollable.rs | 38 ++++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 67f351e..0c3b17c 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -7,7 +7,7 @@
 //! - Mouse wheel support
 //! - CSS-configurable scrollbar styling
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, Viewport};
@@ -40,6 +40,8 @@ pub struct ScrollableContainer<M> {
     children: Vec<Box<dyn Widget<M>>>,
     /// Current scroll state (RefCell for interior mutability in render)
     scroll: RefCell<ScrollState>,
+    /// Viewport of the last render (mouse events must see the layout that was drawn)
+    rendered_viewport: Cell<Option<Viewport>>,
     /// Computed style from CSS
     style: ComputedStyle,
     /// Inline style override
@@ -71,6 +73,7 @@ impl<M> ScrollableContainer<M> {
         Self {
             children,
             scroll: RefCell::new(ScrollState::default()),
+            rendered_viewport: Cell::new(None),
             style: ComputedStyle::default(),
             inline_style: StyleOverride::default(),
             dirty: true,
@@ -520,8 +523,10 @@ impl<M> ScrollableContainer<M> {
                 Overflow::Hidden => false,
             };
 
-            let next_show_horizontal = needs_horizontal;
-            let next_show_vertical = needs_vertical;
+            // Once shown, a scrollbar stays: it takes space from the content, which may then
+            // look as if it fitted without it.
+            let next_show_horizontal = show_horizontal || needs_horizontal;
+            let next_show_vertical = show_vertical || needs_vertical;
 
             if next_show_horizontal == show_horizontal && next_show_vertical == show_vertical {
                 break;
@@ -676,6 +681,7 @@ ScrollableContainer {
         };
 
         let viewport = canvas.viewport();
+        self.rendered_viewport.set(Some(viewport));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -981,7 +987,10 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1041,7 +1050,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1066,7 +1075,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1091,7 +1100,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1117,7 +1126,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1185,7 +1194,10 @@ ScrollableContainer {
         let my = event.row as i32;
 
         let inner_region = self.compute_inner_region(region);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| Viewport::from(region));
         let layout = self.compute_scroll_layout(inner_region, viewport);
         let content_region = layout.content_region;
 
@@ -1229,7 +1241,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1259,7 +1271,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1287,7 +1299,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
@@ -1314,7 +1326,7 @@ ScrollableContainer {
                         let scroll = self.scroll.borrow();
                         (scroll.offset_x, scroll.offset_y)
                     };
-                    for placement in &layout.placements {
+                    for placement in layout.placements.iter().rev() {
                         let scrolled = Region {
                             x: placement.region.x - offset_x,
                             y: placement.region.y - offset_y,
-- 
2.43.0


From 8c067de1c21e8a1fccaf45e8cb1a135ba87277dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:39 +0000
Subject: [PATCH 45/83] fix: Screen drew docked children scrolled and sent
 mouse events to covered children

---
 crates/textual/src/widget/screen.rs | 298 +++++++++++-----------------
 1 file changed, 111 insertions(+), 187 deletions(-)

diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index 4164a5b..c5956f7 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -14,7 +14,7 @@
 //!
 //! The last matching breakpoint wins (iterate in order).
 
-use std::cell::RefCell;
+use std::cell::{Cell, RefCell};
 
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts;
@@ -55,6 +55,10 @@ pub struct Screen<M> {
     inline_style: StyleOverride,
     is_dirty: bool,
     scroll: RefCell<ScrollState>,
+    /// Viewport of the last render (mouse events must see the layout that was drawn).
+    rendered_viewport: Cell<Option<layouts::Viewport>>,
+    /// Scrollbars shown by the current layout: (vertical, horizontal).
+    scrollbars: Cell<(bool, bool)>,
     /// Which scrollbar is being hovered (Some(true) = vertical, Some(false) = horizontal).
     scrollbar_hover: Option<bool>,
     /// Active drag state: (vertical?, grab_offset)
@@ -73,6 +77,8 @@ impl<M> Screen<M> {
             inline_style: StyleOverride::default(),
             is_dirty: true,
             scroll: RefCell::new(ScrollState::default()),
+            rendered_viewport: Cell::new(None),
+            scrollbars: Cell::new((false, false)),
             scrollbar_hover: None,
             scrollbar_drag: None,
             horizontal_breakpoints: DEFAULT_HORIZONTAL_BREAKPOINTS,
@@ -200,40 +206,77 @@ impl<M> Screen<M> {
         (virtual_width, virtual_height, max_from_auto)
     }
 
+    /// Lay out the children in the inner region, settling which scrollbars are shown and
+    /// updating the scroll state to match. Returns the content region and the placements.
+    fn compute_scroll_layout(
+        &self,
+        inner_region: Region,
+        viewport: layouts::Viewport,
+    ) -> (Region, Vec<layouts::WidgetPlacement>) {
+        self.scrollbars.set((false, false));
+        loop {
+            let content_region = self.content_region_for_scroll(inner_region);
+            let placements = self.compute_child_placements(content_region, viewport);
+            // Do not pad virtual size here; padding can fabricate overflow and force
+            // Screen-level scrollbars even when content fits (differs from Python Textual).
+            let (virtual_width, virtual_height, _) =
+                self.compute_virtual_size(&placements, content_region);
+
+            // A scrollbar takes space, which can make the other one necessary too.
+            let (vertical, horizontal) = self.scrollbars.get();
+            let needed = (
+                vertical || virtual_height > content_region.height,
+                horizontal || virtual_width > content_region.width,
+            );
+            let shown = (
+                self.show_vertical_scrollbar(),
+                self.show_horizontal_scrollbar(),
+            );
+            self.scrollbars.set(needed);
+            if shown
+                == (
+                    self.show_vertical_scrollbar(),
+                    self.show_horizontal_scrollbar(),
+                )
+            {
+                let mut scroll = self.scroll.borrow_mut();
+                scroll.set_virtual_size(virtual_width, virtual_height);
+                scroll.set_viewport(content_region.width, content_region.height);
+                return (content_region, placements);
+            }
+        }
+    }
+
+    /// Where a placed child is drawn: docked and absolute children do not scroll.
+    fn scrolled_region(&self, placement: &layouts::WidgetPlacement) -> Region {
+        let fixed = self
+            .children
+            .get(placement.child_index)
+            .map(|child| {
+                let style = child.get_style();
+                style.dock.is_some() || style.position == tcss::types::Position::Absolute
+            })
+            .unwrap_or(false);
+        if fixed {
+            return placement.region;
+        }
+        let scroll = self.scroll.borrow();
+        Region {
+            x: placement.region.x - scroll.offset_x,
+            y: placement.region.y - scroll.offset_y,
+            width: placement.region.width,
+            height: placement.region.height,
+        }
+    }
+
+    /// Send a mouse event to the topmost child drawn under the pointer.
     fn dispatch_mouse_to_children(
         &mut self,
         event: MouseEvent,
-        region: Region,
-        viewport: layouts::Viewport,
+        placements: &[layouts::WidgetPlacement],
     ) -> Option<(M, crate::widget::SenderInfo)> {
-        let placements = self.compute_child_placements(region, viewport);
-        let (offset_x, offset_y) = {
-            let scroll = self.scroll.borrow();
-            (scroll.offset_x, scroll.offset_y)
-        };
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            let scrolled_region = if let Some(child) = self.children.get(placement.child_index) {
-                let style = child.get_style();
-                if style.dock.is_none() && style.position != tcss::types::Position::Absolute {
-                    Region {
-                        x: scrolled_region.x - offset_x,
-                        y: scrolled_region.y - offset_y,
-                        width: scrolled_region.width,
-                        height: scrolled_region.height,
-                    }
-                } else {
-                    scrolled_region
-                }
-            } else {
-                scrolled_region
-            };
+        for placement in placements.iter().rev() {
+            let scrolled_region = self.scrolled_region(placement);
             if scrolled_region.contains_point(event.column as i32, event.row as i32) {
                 if let Some(child) = self.children.get_mut(placement.child_index) {
                     if matches!(event.kind, crossterm::event::MouseEventKind::Moved) {
@@ -250,7 +293,7 @@ impl<M> Screen<M> {
     fn show_vertical_scrollbar(&self) -> bool {
         match self.style.overflow_y {
             Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_y(),
+            Overflow::Auto => self.scrollbars.get().0,
             Overflow::Hidden => false,
         }
     }
@@ -258,7 +301,7 @@ impl<M> Screen<M> {
     fn show_horizontal_scrollbar(&self) -> bool {
         match self.style.overflow_x {
             Overflow::Scroll => true,
-            Overflow::Auto => self.scroll.borrow().can_scroll_x(),
+            Overflow::Auto => self.scrollbars.get().1,
             Overflow::Hidden => false,
         }
     }
@@ -505,69 +548,8 @@ Screen {
         // Use the canvas viewport (screen dimensions) for CSS vw/vh units
         let viewport = canvas.viewport();
 
-        let initial_placements = self.compute_child_placements(inner_region, viewport);
-        let (virtual_width, virtual_height, _) =
-            self.compute_virtual_size(&initial_placements, inner_region);
-
-        // Do not pad virtual size here; padding can fabricate overflow and force
-        // Screen-level scrollbars even when content fits (differs from Python Textual).
-
-        let show_v_scrollbar = match self.style.overflow_y {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_height > inner_region.height,
-        };
-        let show_h_scrollbar = match self.style.overflow_x {
-            Overflow::Scroll => true,
-            Overflow::Hidden => false,
-            Overflow::Auto => virtual_width > inner_region.width,
-        };
-
-        let style = &self.style.scrollbar;
-        let v_size = if show_v_scrollbar
-            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
-        {
-            style.size.vertical as i32
-        } else {
-            0
-        };
-        let h_size = if show_h_scrollbar {
-            style.size.horizontal as i32
-        } else {
-            0
-        };
-
-        let content_region = Region {
-            x: inner_region.x,
-            y: inner_region.y,
-            width: (inner_region.width - v_size).max(0),
-            height: (inner_region.height - h_size).max(0),
-        };
-
-        let (placements, recomputed) =
-            if show_v_scrollbar && content_region.width < inner_region.width {
-                let new_placements = self.compute_child_placements(content_region, viewport);
-                (new_placements, true)
-            } else {
-                (initial_placements, false)
-            };
-
-        let (final_virtual_width, final_virtual_height, _final_max_from_auto) = if recomputed {
-            self.compute_virtual_size(&placements, content_region)
-        } else {
-            (virtual_width, virtual_height, false)
-        };
-
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_virtual_size(final_virtual_width, final_virtual_height);
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
-        let (offset_x, offset_y) = {
-            let scroll = self.scroll.borrow();
-            (scroll.offset_x, scroll.offset_y)
-        };
+        self.rendered_viewport.set(Some(viewport));
+        let (content_region, placements) = self.compute_scroll_layout(inner_region, viewport);
 
         canvas.push_clip(content_region);
         for placement in &placements {
@@ -575,12 +557,7 @@ Screen {
                 if !child.participates_in_layout() {
                     continue;
                 }
-                let scrolled_region = Region {
-                    x: placement.region.x - offset_x,
-                    y: placement.region.y - offset_y,
-                    width: placement.region.width,
-                    height: placement.region.height,
-                };
+                let scrolled_region = self.scrolled_region(placement);
                 let visible_h = scrolled_region.x + scrolled_region.width > content_region.x
                     && scrolled_region.x < content_region.x + content_region.width;
                 let visible_v = scrolled_region.y + scrolled_region.height > content_region.y
@@ -777,10 +754,13 @@ Screen {
         }
 
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let (content_region, placements) = self.compute_scroll_layout(inner_region, viewport);
 
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -788,20 +768,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
-        // Keep scroll viewport in sync with current content region so max scroll bounds
-        // match the visible area (especially when scrollbars consume space).
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
@@ -823,9 +789,9 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -839,9 +805,9 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -851,9 +817,9 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -863,9 +829,9 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
+                if content_region.contains_point(mx, my) {
                     return self
-                        .dispatch_mouse_to_children(event, layout_region, viewport)
+                        .dispatch_mouse_to_children(event, &placements)
                         .map(|(msg, _)| msg);
                 }
                 return None;
@@ -929,25 +895,10 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some((msg, _sender)) = child.on_mouse_with_sender(event, scrolled_region)
-                    {
-                        return Some(msg);
-                    }
-                }
-            }
+        if content_region.contains_point(mx, my) {
+            return self
+                .dispatch_mouse_to_children(event, &placements)
+                .map(|(msg, _)| msg);
         }
 
         None
@@ -966,10 +917,13 @@ Screen {
         }
 
         let inner_region = crate::containers::inner_region_for_container(region, &self.style);
-        let viewport = layouts::Viewport::from(region);
+        let viewport = self
+            .rendered_viewport
+            .get()
+            .unwrap_or_else(|| layouts::Viewport::from(region));
+        let (content_region, placements) = self.compute_scroll_layout(inner_region, viewport);
 
         // Scrollbar interaction regions
-        let content_region = self.content_region_for_scroll(inner_region);
         let v_region = self.vertical_scrollbar_region(inner_region);
         let h_region = self.horizontal_scrollbar_region(inner_region);
         let render_vertical = self.render_vertical_scrollbar();
@@ -977,20 +931,6 @@ Screen {
         let on_vertical = render_vertical && v_region.contains_point(mx, my);
         let on_horizontal = render_horizontal && h_region.contains_point(mx, my);
 
-        let layout_region =
-            if self.show_vertical_scrollbar() && content_region.width < inner_region.width {
-                content_region
-            } else {
-                inner_region
-            };
-
-        // Keep scroll viewport in sync with current content region so max scroll bounds
-        // match the visible area (especially when scrollbars consume space).
-        {
-            let mut scroll = self.scroll.borrow_mut();
-            scroll.set_viewport(content_region.width, content_region.height);
-        }
-
         const SCROLL_AMOUNT: i32 = 3;
         match event.kind {
             crossterm::event::MouseEventKind::Moved => {
@@ -1012,8 +952,8 @@ Screen {
                     self.is_dirty = true;
                 }
 
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1026,8 +966,8 @@ Screen {
                     self.handle_horizontal_scrollbar_click(event, h_region);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1036,8 +976,8 @@ Screen {
                     self.handle_scrollbar_drag(event, inner_region, vertical, grab_offset);
                     return None;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1046,8 +986,8 @@ Screen {
                     self.scrollbar_drag = None;
                     self.is_dirty = true;
                 }
-                if layout_region.contains_point(mx, my) {
-                    return self.dispatch_mouse_to_children(event, layout_region, viewport);
+                if content_region.contains_point(mx, my) {
+                    return self.dispatch_mouse_to_children(event, &placements);
                 }
                 return None;
             }
@@ -1110,24 +1050,8 @@ Screen {
             }
         }
 
-        // Compute placements and dispatch mouse events
-        let placements = self.compute_child_placements(layout_region, viewport);
-        let offset_y = self.scroll.borrow().offset_y;
-
-        for placement in placements {
-            let scrolled_region = Region {
-                x: placement.region.x,
-                y: placement.region.y - offset_y,
-                width: placement.region.width,
-                height: placement.region.height,
-            };
-            if scrolled_region.contains_point(mx, my) {
-                if let Some(child) = self.children.get_mut(placement.child_index) {
-                    if let Some(result) = child.on_mouse_with_sender(event, scrolled_region) {
-                        return Some(result);
-                    }
-                }
-            }
+        if content_region.contains_point(mx, my) {
+            return self.dispatch_mouse_to_children(event, &placements);
         }
 
         None
-- 
2.43.0


From f3bcc43f6fdf9eaf64cf3c602dd317c009673bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 46/83] fix: hover, presses and scrollbar drags were lost or
 stuck depending on the container

---
 crates/textual/src/containers.rs           | 26 +++++++++++++++++++---
 crates/textual/src/containers/grid.rs      | 14 +++++++++---
 crates/textual/src/containers/item_grid.rs | 14 +++++++++---
 crates/textual/src/lib.rs                  | 11 ++++++++-
 crates/textual/src/tree.rs                 |  8 +++++++
 5 files changed, 63 insertions(+), 10 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index e525dac..1397c4b 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -8,10 +8,10 @@ pub mod vertical;
 pub mod vertical_scroll;
 
 use crate::KeyCode;
-use crate::MouseEvent;
 use crate::canvas::{Canvas, Region, Size};
 use crate::render_cache::RenderCache;
 use crate::widget::{SenderInfo, Widget};
+use crate::{MouseEvent, MouseEventKind};
 use tcss::ComputedStyle;
 
 /// Renders container chrome (background and border) and returns the inner region.
@@ -120,7 +120,7 @@ impl<M> Center<M> {
     /// Calculate the centered region for the child within the given region.
     fn centered_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_width = child_size.width as i32;
+        let child_width = (child_size.width as i32).min(region.width);
         let x_offset = (region.width - child_width).max(0) / 2;
         Region {
             x: region.x + x_offset,
@@ -209,6 +209,11 @@ impl<M> Widget<M> for Center<M> {
             return None;
         }
         let centered = self.centered_region(region);
+        if matches!(event.kind, MouseEventKind::Moved)
+            && centered.contains_point(event.column as i32, event.row as i32)
+        {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse(event, centered)
     }
 
@@ -221,6 +226,11 @@ impl<M> Widget<M> for Center<M> {
             return None;
         }
         let centered = self.centered_region(region);
+        if matches!(event.kind, MouseEventKind::Moved)
+            && centered.contains_point(event.column as i32, event.row as i32)
+        {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse_with_sender(event, centered)
     }
 
@@ -280,7 +290,7 @@ impl<M> Middle<M> {
     /// Calculate the vertically centered region for the child within the given region.
     fn middled_region(&self, region: Region) -> Region {
         let child_size = self.child().desired_size();
-        let child_height = child_size.height as i32;
+        let child_height = (child_size.height as i32).min(region.height);
         let y_offset = (region.height - child_height).max(0) / 2;
         Region {
             x: region.x,
@@ -369,6 +379,11 @@ impl<M> Widget<M> for Middle<M> {
             return None;
         }
         let middled = self.middled_region(region);
+        if matches!(event.kind, MouseEventKind::Moved)
+            && middled.contains_point(event.column as i32, event.row as i32)
+        {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse(event, middled)
     }
 
@@ -381,6 +396,11 @@ impl<M> Widget<M> for Middle<M> {
             return None;
         }
         let middled = self.middled_region(region);
+        if matches!(event.kind, MouseEventKind::Moved)
+            && middled.contains_point(event.column as i32, event.row as i32)
+        {
+            self.child_mut().set_hover(true);
+        }
         self.child_mut().on_mouse_with_sender(event, middled)
     }
 
diff --git a/crates/textual/src/containers/grid.rs b/crates/textual/src/containers/grid.rs
index 2a7a2c5..8971382 100644
--- a/crates/textual/src/containers/grid.rs
+++ b/crates/textual/src/containers/grid.rs
@@ -34,7 +34,7 @@ use tcss::{
 
 use crate::keyline_canvas::KeylineCanvas;
 use crate::layouts::{self, GridLayout, Layout};
-use crate::{Canvas, KeyCode, MouseEvent, Region, Size, Widget};
+use crate::{Canvas, KeyCode, MouseEvent, MouseEventKind, Region, Size, Widget};
 
 /// A grid container that arranges children in a 2D grid.
 ///
@@ -388,7 +388,11 @@ Grid {
         let my = event.row as i32;
 
         let (index, child_region) = self.child_at(region, mx, my)?;
-        self.children[index].on_mouse(event, child_region)
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
+        }
+        child.on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -400,7 +404,11 @@ Grid {
         let my = event.row as i32;
 
         let (index, child_region) = self.child_at(region, mx, my)?;
-        self.children[index].on_mouse_with_sender(event, child_region)
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
+        }
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/containers/item_grid.rs b/crates/textual/src/containers/item_grid.rs
index 328861e..9181aed 100644
--- a/crates/textual/src/containers/item_grid.rs
+++ b/crates/textual/src/containers/item_grid.rs
@@ -13,7 +13,7 @@ use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates, types::Visibi
 use crate::canvas::{Canvas, Region, Size};
 use crate::layouts::{self, GridLayout, Layout};
 use crate::widget::Widget;
-use crate::{KeyCode, MouseEvent};
+use crate::{KeyCode, MouseEvent, MouseEventKind};
 
 /// A grid container with automatic column calculation.
 ///
@@ -272,7 +272,11 @@ impl<M> Widget<M> for ItemGrid<M> {
         let my = event.row as i32;
 
         let (index, child_region) = self.child_at(region, mx, my)?;
-        self.children[index].on_mouse(event, child_region)
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
+        }
+        child.on_mouse(event, child_region)
     }
 
     fn on_mouse_with_sender(
@@ -284,7 +288,11 @@ impl<M> Widget<M> for ItemGrid<M> {
         let my = event.row as i32;
 
         let (index, child_region) = self.child_at(region, mx, my)?;
-        self.children[index].on_mouse_with_sender(event, child_region)
+        let child = &mut self.children[index];
+        if matches!(event.kind, MouseEventKind::Moved) {
+            child.set_hover(true);
+        }
+        child.on_mouse_with_sender(event, child_region)
     }
 
     fn count_focusable(&self) -> usize {
diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 2fab3db..651cc4c 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -58,7 +58,10 @@ pub use message::MessageEnvelope;
 pub use scroll::{ScrollMessage, ScrollState};
 pub use scrollbar::{ScrollBarRender, ScrollbarGlyphs};
 pub use tcss::TcssError;
-pub use tree::{DOMQuery, clear_all_hover, collect_pending_actions_mut, find_hovered_tooltip_mut};
+pub use tree::{
+    DOMQuery, clear_all_active, clear_all_hover, collect_pending_actions_mut,
+    find_hovered_tooltip_mut,
+};
 pub use visual::VisualType;
 pub use widget::command_palette::CommandPalette;
 pub use widget::header::Header;
@@ -1042,6 +1045,12 @@ pub trait App {
                                     tree.root_mut().on_mouse_with_sender(mouse_event, region)
                                 };
 
+                                // A release ends every press, also when it happens outside
+                                // of the widget that was pressed.
+                                if matches!(mouse_event.kind, crossterm::event::MouseEventKind::Up(_)) {
+                                    clear_all_active(tree.root_mut());
+                                }
+
                                 if let Some((msg, sender)) = mouse_result {
                                     let envelope =
                                         MessageEnvelope::new(msg, sender.id.as_deref(), sender.type_name);
diff --git a/crates/textual/src/tree.rs b/crates/textual/src/tree.rs
index 8d59dbe..710fcd3 100644
--- a/crates/textual/src/tree.rs
+++ b/crates/textual/src/tree.rs
@@ -512,6 +512,14 @@ pub fn clear_all_hover<M>(widget: &mut dyn Widget<M>) {
     });
 }
 
+/// End the pressed state of every widget (the mouse button was released).
+pub fn clear_all_active<M>(widget: &mut dyn Widget<M>) {
+    widget.set_active(false);
+    widget.for_each_child(&mut |child| {
+        clear_all_active(child);
+    });
+}
+
 /// Find the tooltip text for the currently hovered widget (if any).
 pub fn find_hovered_tooltip_mut<M>(widget: &mut dyn Widget<M>) -> Option<String> {
     if widget.get_state().contains(WidgetStates::HOVER) {
-- 
2.43.0


From cd6163598b5700006d43f037f786631b1de333c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:26 +0000
Subject: [PATCH 47/83] fix: dragging a scrollbar thumb to the end of its track
 did not reach the end of the content

---
 crates/textual/src/containers/scrollable.rs | 29 ++++++++++++++-------
 crates/textual/src/scrollbar.rs             | 14 ++++++++++
 crates/textual/src/widget/screen.rs         | 19 ++++++++------
 crates/textual/src/widget/scrollbar.rs      |  7 +++--
 4 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 0c3b17c..2c8d95b 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -922,7 +922,7 @@ ScrollableContainer {
             }
             KeyCode::PageUp if self.allow_vertical_scroll() => {
                 let mut scroll = self.scroll.borrow_mut();
-                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
                 scroll.scroll_up(amount);
                 drop(scroll);
                 self.dirty = true;
@@ -930,7 +930,7 @@ ScrollableContainer {
             }
             KeyCode::PageDown if self.allow_vertical_scroll() => {
                 let mut scroll = self.scroll.borrow_mut();
-                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+                let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
                 scroll.scroll_down(amount);
                 drop(scroll);
                 self.dirty = true;
@@ -1058,6 +1058,7 @@ ScrollableContainer {
                             height: placement.region.height,
                         };
                         if scrolled.contains_point(mx, my) {
+                            self.children[placement.child_index].set_hover(true);
                             return self.children[placement.child_index].on_mouse(event, scrolled);
                         }
                     }
@@ -1249,6 +1250,7 @@ ScrollableContainer {
                             height: placement.region.height,
                         };
                         if scrolled.contains_point(mx, my) {
+                            self.children[placement.child_index].set_hover(true);
                             return self.children[placement.child_index]
                                 .on_mouse_with_sender(event, scrolled);
                         }
@@ -1428,6 +1430,15 @@ ScrollableContainer {
             .map(|c| c.as_mut() as &mut dyn Widget<M>)
     }
 
+    fn set_active(&mut self, is_active: bool) -> bool {
+        // Releasing the mouse anywhere ends a scrollbar drag
+        if !is_active && self.scrollbar_drag.take().is_some() {
+            self.dirty = true;
+            return true;
+        }
+        false
+    }
+
     fn clear_hover(&mut self) {
         self.scrollbar_hover = None;
         for child in &mut self.children {
@@ -1459,14 +1470,14 @@ impl<M> ScrollableContainer<M> {
         } else if pos_in_bar < thumb_start {
             // Click above thumb - page scroll up
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_up(amount);
             drop(scroll);
             self.dirty = true;
         } else {
             // Click below thumb - page scroll down
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_down(amount);
             drop(scroll);
             self.dirty = true;
@@ -1519,7 +1530,7 @@ impl<M> ScrollableContainer<M> {
             // Click left of thumb - page scroll left
             log::info!("  -> Scroll LEFT");
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_left(amount);
             drop(scroll);
             self.dirty = true;
@@ -1527,7 +1538,7 @@ impl<M> ScrollableContainer<M> {
             // Click right of thumb - page scroll right
             log::info!("  -> Scroll RIGHT");
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_right(amount);
             drop(scroll);
             self.dirty = true;
@@ -1555,8 +1566,7 @@ impl<M> ScrollableContainer<M> {
             let virtual_size = scroll.virtual_height as f32;
             let window_size = scroll.viewport_height as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
-            let track_range = track_size - thumb_size;
+            let track_range = ScrollBarRender::thumb_range(track_size, virtual_size, window_size);
 
             if track_range > 0.0 {
                 let ratio = new_thumb_start as f32 / track_range;
@@ -1575,8 +1585,7 @@ impl<M> ScrollableContainer<M> {
             let virtual_size = scroll.virtual_width as f32;
             let window_size = scroll.viewport_width as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
-            let track_range = track_size - thumb_size;
+            let track_range = ScrollBarRender::thumb_range(track_size, virtual_size, window_size);
 
             if track_range > 0.0 {
                 let ratio = new_thumb_start as f32 / track_range;
diff --git a/crates/textual/src/scrollbar.rs b/crates/textual/src/scrollbar.rs
index 011258c..90a632a 100644
--- a/crates/textual/src/scrollbar.rs
+++ b/crates/textual/src/scrollbar.rs
@@ -343,6 +343,20 @@ impl ScrollBarRender {
 
         (thumb_position, thumb_end)
     }
+
+    /// How far the start of the thumb can be dragged along the track.
+    ///
+    /// The thumb is drawn in whole cells, so that at the end of the range it touches the end
+    /// of the track (see [`Self::thumb_bounds`]).
+    pub fn thumb_range(track_size: f32, virtual_size: f32, window_size: f32) -> f32 {
+        let thumb_size = ((window_size / virtual_size) * track_size).max(1.0);
+        let range = track_size - thumb_size.ceil();
+        if range > 0.0 {
+            range
+        } else {
+            track_size - thumb_size
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/crates/textual/src/widget/screen.rs b/crates/textual/src/widget/screen.rs
index c5956f7..d2099e6 100644
--- a/crates/textual/src/widget/screen.rs
+++ b/crates/textual/src/widget/screen.rs
@@ -430,13 +430,13 @@ impl<M> Screen<M> {
             self.is_dirty = true;
         } else if pos_in_bar < thumb_start {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_up(amount);
             drop(scroll);
             self.is_dirty = true;
         } else {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_height as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_down(amount);
             drop(scroll);
             self.is_dirty = true;
@@ -461,13 +461,13 @@ impl<M> Screen<M> {
             self.is_dirty = true;
         } else if pos_in_bar < thumb_start {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_left(amount);
             drop(scroll);
             self.is_dirty = true;
         } else {
             let mut scroll = self.scroll.borrow_mut();
-            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO) as i32;
+            let amount = (scroll.viewport_width as f32 * PAGE_SCROLL_RATIO).max(1.0) as i32;
             scroll.scroll_right(amount);
             drop(scroll);
             self.is_dirty = true;
@@ -492,8 +492,7 @@ impl<M> Screen<M> {
             let virtual_size = scroll.virtual_height as f32;
             let window_size = scroll.viewport_height as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
-            let track_range = track_size - thumb_size;
+            let track_range = ScrollBarRender::thumb_range(track_size, virtual_size, window_size);
 
             if track_range > 0.0 {
                 let ratio = new_thumb_start as f32 / track_range;
@@ -512,8 +511,7 @@ impl<M> Screen<M> {
             let virtual_size = scroll.virtual_width as f32;
             let window_size = scroll.viewport_width as f32;
             drop(scroll);
-            let thumb_size = (window_size / virtual_size) * track_size;
-            let track_range = track_size - thumb_size;
+            let track_range = ScrollBarRender::thumb_range(track_size, virtual_size, window_size);
 
             if track_range > 0.0 {
                 let ratio = new_thumb_start as f32 / track_range;
@@ -1075,6 +1073,11 @@ Screen {
 
     fn set_active(&mut self, is_active: bool) -> bool {
         let mut changed = false;
+        // Releasing the mouse anywhere ends a scrollbar drag
+        if !is_active && self.scrollbar_drag.take().is_some() {
+            self.is_dirty = true;
+            changed = true;
+        }
         for child in &mut self.children {
             if child.set_active(is_active) {
                 changed = true;
diff --git a/crates/textual/src/widget/scrollbar.rs b/crates/textual/src/widget/scrollbar.rs
index 6ea247d..9c08c15 100644
--- a/crates/textual/src/widget/scrollbar.rs
+++ b/crates/textual/src/widget/scrollbar.rs
@@ -293,8 +293,11 @@ where
                     let new_thumb_start = pos_in_bar - grab_position;
 
                     // Calculate the scroll position this corresponds to
-                    let thumb_size = (self.window_size / self.virtual_size) * track_size;
-                    let track_range = track_size - thumb_size;
+                    let track_range = ScrollBarRender::thumb_range(
+                        track_size,
+                        self.virtual_size,
+                        self.window_size,
+                    );
 
                     let new_position = if track_range > 0.0 {
                         let ratio = new_thumb_start as f32 / track_range;
-- 
2.43.0


From 7f429912425008acf37fccfdfcb18e2e399b565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 48/83] fix: whitespace at the ends of a line that fits was
 dropped, hiding the cursor of Input

---
 crates/textual/src/content.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/content.rs b/crates/textual/src/content.rs
index 5ad8617..4f009f7 100644
--- a/crates/textual/src/content.rs
+++ b/crates/textual/src/content.rs
@@ -547,7 +547,10 @@ impl Content {
                     }
                 },
                 TextWrap::Wrap => {
-                    let wrapped = if has_spans {
+                    // Only lines that don't fit are broken at (and lose) whitespace
+                    let wrapped = if display_width(line) <= width {
+                        vec![render_full_line()]
+                    } else if has_spans {
                         let spans = self.spans.as_ref().unwrap();
                         self.wrap_line_with_spans(line, line_start, width, spans)
                     } else {
-- 
2.43.0


From c76c553dca7555af3b14fa7feb4f1da969c9a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 49/83] fix: the cursor of Input ran ahead when a typed
 character joined the one before it

---
 crates/textual/src/widget/input.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index 0957049..b74e4c1 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -8,7 +8,9 @@ use tcss::types::Visibility;
 use tcss::{ComputedStyle, StyleOverride, WidgetMeta, WidgetStates};
 
 use crate::canvas::{Canvas, Region};
-use crate::grapheme::{grapheme_byte_index, grapheme_byte_range, grapheme_count, graphemes};
+use crate::grapheme::{
+    grapheme_byte_index, grapheme_byte_range, grapheme_count, grapheme_indices, graphemes,
+};
 use crate::widget::static_widget::Static;
 use crate::{KeyCode, MouseEvent, Size, Widget};
 
@@ -170,7 +172,11 @@ impl<M> Input<M> {
         let cursor = self.cursor.min(grapheme_count(&self.value));
         let byte_index = grapheme_byte_index(&self.value, cursor);
         self.value.insert(byte_index, ch);
-        self.cursor = cursor + 1;
+        // The character may have become part of the one before it
+        let end = byte_index + ch.len_utf8();
+        self.cursor = grapheme_indices(&self.value)
+            .take_while(|(start, _)| *start < end)
+            .count();
         self.refresh_display();
     }
 
-- 
2.43.0


From 73a51b51a4e6f477f89b195438b626d9e11b4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:54 +0000
Subject: [PATCH 50/83] fix: clicking an option of an OptionList with a border,
 padding or scrolling chose another one

---
 crates/textual/src/containers/container.rs |  7 +++++-
 crates/textual/src/widget/option_list.rs   | 25 +++-------------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 3e95851..31d2cc5 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -433,7 +433,12 @@ impl<M> Container<M> {
     }
 
     /// The topmost child drawn at the given point, with the region it was drawn in.
-    fn child_at(&self, region: Region, column: i32, row: i32) -> Option<(usize, Region)> {
+    pub(crate) fn child_at(
+        &self,
+        region: Region,
+        column: i32,
+        row: i32,
+    ) -> Option<(usize, Region)> {
         let viewport = self
             .rendered_viewport
             .get()
diff --git a/crates/textual/src/widget/option_list.rs b/crates/textual/src/widget/option_list.rs
index ab89dc6..d54137e 100644
--- a/crates/textual/src/widget/option_list.rs
+++ b/crates/textual/src/widget/option_list.rs
@@ -71,7 +71,6 @@ pub struct OptionList<M> {
     inner: Container<M>,
     items: Vec<String>,
     disabled: Vec<bool>,
-    line_counts: Vec<usize>,
     selected: usize,
     focused: bool,
     dirty: bool,
@@ -88,7 +87,6 @@ impl<M: 'static> OptionList<M> {
             inner,
             items,
             disabled: Vec::new(),
-            line_counts: Vec::new(),
             selected: 0,
             focused: false,
             dirty: true,
@@ -223,12 +221,6 @@ impl<M: 'static> OptionList<M> {
     }
 
     fn refresh_display(&mut self) {
-        self.line_counts = self
-            .items
-            .iter()
-            .map(|item| item.split('\n').count().max(1))
-            .collect();
-
         let mut children: Vec<Box<dyn Widget<M>>> = Vec::with_capacity(self.items.len().max(1));
         for (index, item) in self.items.iter().enumerate() {
             let content = if self.allow_markup {
@@ -278,17 +270,6 @@ impl<M: 'static> OptionList<M> {
             }
         }
     }
-
-    fn index_for_row(&self, row: usize) -> Option<usize> {
-        let mut remaining = row;
-        for (index, count) in self.line_counts.iter().enumerate() {
-            if remaining < *count {
-                return Some(index);
-            }
-            remaining = remaining.saturating_sub(*count);
-        }
-        None
-    }
 }
 
 impl<M: 'static> Widget<M> for OptionList<M> {
@@ -349,9 +330,9 @@ OptionList > .option-list--option {
 
         match event.kind {
             MouseEventKind::Up(crossterm::event::MouseButton::Left) => {
-                let local_y = (my - region.y) as usize;
-                if let Some(index) = self.index_for_row(local_y) {
-                    if !self.disabled_at(index) {
+                if let Some((index, _)) = self.inner.child_at(region, mx, my) {
+                    // An empty list still has a (blank) child
+                    if index < self.items.len() && !self.disabled_at(index) {
                         if self.selected != index {
                             self.selected = index;
                             self.refresh_display();
-- 
2.43.0


From bb90fa1d36da4ec1566504fcaeb3a071e9142c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:51 +0000
Subject: [PATCH 51/83] fix: results of a closed command palette showed up in
 the next one

---
 crates/textual/src/widget/command_palette.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index de055a3..6e708f5 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1054,6 +1054,8 @@ impl<M: 'static> CommandPalette<M> {
     }
 
     fn cancel_search(&mut self) {
+        // Updates of the search that have been sent already are out of date too
+        self.search_generation = self.search_generation.wrapping_add(1);
         for handle in self.search_handles.drain(..) {
             handle.abort();
         }
-- 
2.43.0


From 6185f7bea39b00402910329e667bfd618202f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:51 +0000
Subject: [PATCH 52/83] fix: the command palette could run another command than
 the highlighted one

---
 crates/textual/src/widget/command_palette.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 6e708f5..c6f7550 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1117,6 +1117,10 @@ impl<M: 'static> CommandPalette<M> {
             self.list_visible = true;
         }
         self.update_input_widget(cursor);
+        // The old entries stay until there are new ones
+        if let Some(list) = self.list_mut() {
+            list.set_selected(0);
+        }
         self.sync_visibility_classes();
 
         if self.expected_providers == 0 {
-- 
2.43.0


From 7ea985de3bfc4ccfedf3584243e9d77f3240902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:17 +0000
Subject: [PATCH 53/83] fix: an interval could still fire after it was
 cancelled

---
 crates/textual/src/context.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/context.rs b/crates/textual/src/context.rs
index 7be3f27..e84d3d1 100644
--- a/crates/textual/src/context.rs
+++ b/crates/textual/src/context.rs
@@ -148,6 +148,12 @@ impl<M: Send + 'static> AppContext<M> {
             log::debug!("INTERVAL: Task started, first tick at {:?}", start);
             loop {
                 tokio::select! {
+                    // A tick that is due together with the cancellation must not be sent.
+                    biased;
+                    _ = &mut cancel_rx => {
+                        log::debug!("INTERVAL: Cancelled");
+                        break; // Cancelled
+                    }
                     _ = ticker.tick() => {
                         log::debug!("INTERVAL: Tick! Sending message");
                         let envelope = MessageEnvelope::new(message_fn(), sender_id.as_deref(), &sender_type);
@@ -156,10 +162,6 @@ impl<M: Send + 'static> AppContext<M> {
                             break; // Receiver dropped
                         }
                     }
-                    _ = &mut cancel_rx => {
-                        log::debug!("INTERVAL: Cancelled");
-                        break; // Cancelled
-                    }
                 }
             }
         });
-- 
2.43.0


From eef1d6958308196959bcf2555373d6deef48f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 54/83] fix: a Static never took the hover state, so its
 tooltip never showed

Static accepted a tooltip (set_tooltip), but the event loop only looks for tooltips of
widgets in the hover state, which Static never entered. For the same reason Static:hover
rules never applied. The widgets wrapping a Static now forward clear_hover as well, so
that neither the hover nor a hovered link sticks.
---
 crates/textual/src/widget/command_palette.rs |  4 ++++
 crates/textual/src/widget/header.rs          |  8 ++++++++
 crates/textual/src/widget/input.rs           |  4 ++++
 crates/textual/src/widget/static_widget.rs   | 20 +++++++++++++++-----
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index c6f7550..39dcb64 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -123,6 +123,10 @@ impl<M: 'static> Widget<M> for SearchIcon<M> {
         self.inner.on_mouse(event, region)
     }
 
+    fn clear_hover(&mut self) {
+        self.inner.clear_hover();
+    }
+
     fn on_mouse_with_sender(
         &mut self,
         event: MouseEvent,
diff --git a/crates/textual/src/widget/header.rs b/crates/textual/src/widget/header.rs
index 3c19e8d..e23f7d6 100644
--- a/crates/textual/src/widget/header.rs
+++ b/crates/textual/src/widget/header.rs
@@ -111,6 +111,10 @@ HeaderTitle {
         self.inner.on_mouse(event, region)
     }
 
+    fn clear_hover(&mut self) {
+        self.inner.clear_hover();
+    }
+
     fn is_focusable(&self) -> bool {
         self.inner.is_focusable()
     }
@@ -270,6 +274,10 @@ HeaderClockSpace {
         self.inner.on_mouse(event, region)
     }
 
+    fn clear_hover(&mut self) {
+        self.inner.clear_hover();
+    }
+
     fn is_focusable(&self) -> bool {
         self.inner.is_focusable()
     }
diff --git a/crates/textual/src/widget/input.rs b/crates/textual/src/widget/input.rs
index b74e4c1..89609e4 100644
--- a/crates/textual/src/widget/input.rs
+++ b/crates/textual/src/widget/input.rs
@@ -280,6 +280,10 @@ Input {
         self.inner.on_mouse(event, region)
     }
 
+    fn clear_hover(&mut self) {
+        self.inner.clear_hover();
+    }
+
     fn get_meta(&self) -> WidgetMeta {
         let mut meta = self.inner.get_meta();
         meta.type_name = "Input";
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 5d727c3..b019d0d 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -97,6 +97,8 @@ pub struct Static<M> {
     last_render_region: RefCell<Option<Region>>,
     /// Pending action to be executed (set on click, consumed by app).
     pending_action: RefCell<Option<String>>,
+    /// Whether the mouse is over this widget.
+    hovered: bool,
     /// Optional tooltip text for this widget.
     tooltip: Option<String>,
     _phantom: PhantomData<M>,
@@ -122,6 +124,7 @@ impl<M> Default for Static<M> {
             hovered_link: RefCell::new(None),
             last_render_region: RefCell::new(None),
             pending_action: RefCell::new(None),
+            hovered: false,
             tooltip: None,
             _phantom: PhantomData,
         }
@@ -861,16 +864,12 @@ Static {
     }
 
     fn get_meta(&self) -> WidgetMeta {
-        let mut states = WidgetStates::empty();
-        if self.disabled {
-            states |= WidgetStates::DISABLED;
-        }
         WidgetMeta {
             type_name: "Static",
             type_names: vec!["Static", "Widget", "DOMNode"],
             id: self.id.clone(),
             classes: self.classes.clone(),
-            states,
+            states: self.get_state(),
         }
     }
 
@@ -879,6 +878,9 @@ Static {
         if self.disabled {
             states |= WidgetStates::DISABLED;
         }
+        if self.hovered {
+            states |= WidgetStates::HOVER;
+        }
         states
     }
 
@@ -979,6 +981,10 @@ Static {
             }
             MouseEventKind::Moved => {
                 // Update hover state
+                if !self.hovered {
+                    self.hovered = true;
+                    self.dirty = true;
+                }
                 let new_hover = self.find_link_at(local_x, local_y);
                 let old_hover = self.hovered_link.borrow().clone();
 
@@ -994,6 +1000,10 @@ Static {
     }
 
     fn clear_hover(&mut self) {
+        if self.hovered {
+            self.hovered = false;
+            self.dirty = true;
+        }
         // Clear link hover state when mouse leaves widget
         if self.hovered_link.borrow().is_some() {
             *self.hovered_link.borrow_mut() = None;
-- 
2.43.0


From e7cce1689b6adfa8a9cd98b44542bcdfbce5ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 55/83] fix: a tooltip shown for the first time was placed by
 its unstyled width

Hidden widgets are not styled, so the width used to centre the tooltip below the mouse
did not include its padding the first time.
---
 crates/textual/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 651cc4c..7de076a 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -885,11 +885,16 @@ pub trait App {
                                 if let (Some(text), Some((mx, my))) =
                                     (tooltip_text.clone(), last_mouse_pos)
                                 {
+                                    tree.query_one_as::<Tooltip<Self::Message>, _, _>(
+                                        "Tooltip",
+                                        |tooltip| tooltip.show(text),
+                                    );
+                                    // A hidden tooltip is not styled: its width is known only now
+                                    restyle_dirty(&mut tree, &stylesheet, &theme);
                                     if let Some(()) =
                                         tree.query_one_as::<Tooltip<Self::Message>, _, _>(
                                             "Tooltip",
                                             |tooltip| {
-                                                tooltip.show(text);
                                                 let tooltip_width =
                                                     tooltip.desired_size().width as i32;
                                                 let mut x = mx - (tooltip_width / 2);
-- 
2.43.0


From 66fcc3281acb0471af781fa22fafc5c598a01914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 56/83] fix: border and outline edges of different kinds were
 drawn with the top edge's glyphs

A box with only a left border drew blanks, and an outline used the kind and colour of its
top edge for all four edges.
---
 crates/textual/src/render_cache.rs | 102 +++++++++++++++++------------
 1 file changed, 60 insertions(+), 42 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index 88f5598..fd4d52f 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -3,7 +3,7 @@
 //! This module provides the `RenderCache` struct which orchestrates rendering
 //! a widget line-by-line, handling borders and content placement.
 
-use tcss::types::border::BorderKind;
+use tcss::types::border::{Border, BorderEdge, BorderKind};
 use tcss::types::{AlignHorizontal, ComputedStyle};
 
 use crate::border_box::{BoxSegments, get_box};
@@ -75,14 +75,10 @@ impl RenderCache {
         };
         let has_border = has_top_border || has_right_border || has_bottom_border || has_left_border;
 
-        // Use top border kind as the primary style (for box character selection)
-        let border_kind = style.border.top.kind;
-
         // Use the centralized effective_background from ComputedStyle
         let effective_bg = style.effective_background();
 
         let border_box = if has_border {
-            let border_type = border_kind_to_str(border_kind);
             let effective_opacity = style.opacity * style.opacity;
             let resolve_edge_color =
                 |edge: &tcss::types::border::BorderEdge| -> Option<tcss::types::RgbaColor> {
@@ -115,14 +111,17 @@ impl RenderCache {
             let right_inner = make_style(right_color.clone(), effective_bg.clone());
             let right_outer = make_style(right_color.clone(), style.inherited_background.clone());
 
-            let uniform =
-                top_color == bottom_color && top_color == left_color && top_color == right_color;
+            let uniform = top_color == bottom_color
+                && top_color == left_color
+                && top_color == right_color
+                && same_kind_on_all_edges(&style.border);
 
             if uniform {
+                let border_type = border_kind_to_str(style.border.top.kind);
                 Some(get_box(border_type, &top_inner, &top_outer))
             } else {
                 Some(build_border_box_per_edge(
-                    border_type,
+                    &style.border,
                     &top_inner,
                     &top_outer,
                     &bottom_inner,
@@ -170,30 +169,34 @@ impl RenderCache {
 
         // Build outline box segments if any outline edge is visible
         let outline_box = if has_outline {
-            let outline_kind = style.outline.top.kind;
-            let outline_type = border_kind_to_str(outline_kind);
-            // Outline color, falling back to text color
-            let outline_color = style
-                .outline
-                .top
-                .color
-                .clone()
-                .or_else(|| style.color.clone());
-            let outline_inner_style = Style {
-                fg: outline_color.clone(),
-                bg: effective_bg.clone(),
-                ..Default::default()
-            };
-            // Outer style uses inherited/parent background
-            let outline_outer_style = Style {
-                fg: outline_color.clone(),
-                bg: style.inherited_background.clone(),
-                ..Default::default()
+            // Outline color, falling back to text color. The inner style uses the widget's
+            // background, the outer style the inherited/parent background.
+            let edge_styles = |edge: &BorderEdge| {
+                let fg = edge.color.clone().or_else(|| style.color.clone());
+                let make_style = |bg: &Option<tcss::types::RgbaColor>| Style {
+                    fg: fg.clone(),
+                    bg: bg.clone(),
+                    ..Default::default()
+                };
+                (
+                    make_style(&effective_bg),
+                    make_style(&style.inherited_background),
+                )
             };
-            Some(get_box(
-                outline_type,
-                &outline_inner_style,
-                &outline_outer_style,
+            let (top_inner, top_outer) = edge_styles(&style.outline.top);
+            let (bottom_inner, bottom_outer) = edge_styles(&style.outline.bottom);
+            let (left_inner, left_outer) = edge_styles(&style.outline.left);
+            let (right_inner, right_outer) = edge_styles(&style.outline.right);
+            Some(build_border_box_per_edge(
+                &style.outline,
+                &top_inner,
+                &top_outer,
+                &bottom_inner,
+                &bottom_outer,
+                &left_inner,
+                &left_outer,
+                &right_inner,
+                &right_outer,
             ))
         } else {
             None
@@ -757,8 +760,16 @@ fn border_kind_to_str(kind: BorderKind) -> &'static str {
     }
 }
 
+fn same_kind_on_all_edges(border: &Border) -> bool {
+    let kind = border.top.kind;
+    border.right.kind == kind && border.bottom.kind == kind && border.left.kind == kind
+}
+
+/// Builds border segments where every edge may have its own kind and colors.
+///
+/// The corners belong to the top and bottom edges.
 fn build_border_box_per_edge(
-    border_type: &str,
+    border: &Border,
     top_inner: &Style,
     top_outer: &Style,
     bottom_inner: &Style,
@@ -768,9 +779,6 @@ fn build_border_box_per_edge(
     right_inner: &Style,
     right_outer: &Style,
 ) -> [BoxSegments; 3] {
-    let chars = get_border_chars(border_type);
-    let locations = get_border_locations(border_type);
-
     let style_for_zone = |zone: u8, inner: &Style, outer: &Style| -> Style {
         match zone {
             0 => inner.clone(),
@@ -792,6 +800,8 @@ fn build_border_box_per_edge(
     };
 
     let build_row = |row_idx: usize,
+                     left_kind: BorderKind,
+                     right_kind: BorderKind,
                      left_in: &Style,
                      left_out: &Style,
                      fill_in: &Style,
@@ -799,13 +809,16 @@ fn build_border_box_per_edge(
                      right_in: &Style,
                      right_out: &Style|
      -> BoxSegments {
-        let left_char = chars[row_idx][0];
-        let fill_char = chars[row_idx][1];
-        let right_char = chars[row_idx][2];
+        let left_type = border_kind_to_str(left_kind);
+        let right_type = border_kind_to_str(right_kind);
+
+        let left_char = get_border_chars(left_type)[row_idx][0];
+        let fill_char = get_border_chars(left_type)[row_idx][1];
+        let right_char = get_border_chars(right_type)[row_idx][2];
 
-        let left_loc = locations[row_idx][0];
-        let fill_loc = locations[row_idx][1];
-        let right_loc = locations[row_idx][2];
+        let left_loc = get_border_locations(left_type)[row_idx][0];
+        let fill_loc = get_border_locations(left_type)[row_idx][1];
+        let right_loc = get_border_locations(right_type)[row_idx][2];
 
         let left_style = style_for_zone(left_loc, left_in, left_out);
         let fill_style = style_for_zone(fill_loc, fill_in, fill_out);
@@ -818,11 +831,14 @@ fn build_border_box_per_edge(
         )
     };
 
+    let (top, bottom) = (border.top.kind, border.bottom.kind);
     let top_row = build_row(
-        0, top_inner, top_outer, top_inner, top_outer, top_inner, top_outer,
+        0, top, top, top_inner, top_outer, top_inner, top_outer, top_inner, top_outer,
     );
     let middle_row = build_row(
         1,
+        border.left.kind,
+        border.right.kind,
         left_inner,
         left_outer,
         top_inner,
@@ -832,6 +848,8 @@ fn build_border_box_per_edge(
     );
     let bottom_row = build_row(
         2,
+        bottom,
+        bottom,
         bottom_inner,
         bottom_outer,
         bottom_inner,
-- 
2.43.0


From ea6fd7879a3ac026483fa859ca86d58d05996d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 57/83] fix: borders and padding wider than the widget were
 drawn outside of it

---
 crates/textual/src/border_render.rs | 5 +++++
 crates/textual/src/render_cache.rs  | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/border_render.rs b/crates/textual/src/border_render.rs
index 2919ddc..4f70505 100644
--- a/crates/textual/src/border_render.rs
+++ b/crates/textual/src/border_render.rs
@@ -88,6 +88,11 @@ pub(crate) fn render_label_in_row(
     // Python Textual adds 1 space on each side of the label text
     let label_len = label.cell_length() + 2; // +2 for spaces around label
 
+    // Not even an ellipsis fits: leave the label out
+    if width < 4 {
+        return repeat_segment(fill, width);
+    }
+
     // Minimum padding of 1 fill char on each side to keep label away from corners
     let min_padding = 1;
     let available_width = width.saturating_sub(min_padding * 2);
diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index fd4d52f..fda4fa6 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -420,7 +420,14 @@ impl RenderCache {
         };
 
         // Apply outline as final overlay (outline renders ON TOP of content)
-        self.apply_outline(base_strip, y, height, width)
+        let strip = self.apply_outline(base_strip, y, height, width);
+
+        // Borders and padding that need more than the available width are cut off
+        if strip.cell_length() > width {
+            strip.crop(0, width)
+        } else {
+            strip
+        }
     }
 
     /// Renders a content row without any border (just padding and content).
-- 
2.43.0


From c14cde821b98ad95b9017059509c2bc8f2ab1b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 58/83] fix: a translucent border could be drawn with another
 widget's transparency

The cache of border segments ignored the alpha of the colours.
---
 crates/textual/src/border_box.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/border_box.rs b/crates/textual/src/border_box.rs
index bcb0b9c..a26c713 100644
--- a/crates/textual/src/border_box.rs
+++ b/crates/textual/src/border_box.rs
@@ -10,6 +10,7 @@ use std::sync::RwLock;
 
 use crate::border_chars::{get_border_chars, get_border_locations};
 use crate::segment::{Segment, Style};
+use tcss::types::RgbaColor;
 
 /// A row of border segments: (left, fill, right)
 pub type BoxSegments = (Segment, Segment, Segment);
@@ -22,18 +23,25 @@ struct BoxCacheKey {
     outer_style_key: StyleKey,
 }
 
+/// An RGB color with the bits of its alpha.
+type ColorKey = (u8, u8, u8, u32);
+
 /// Simplified style key for caching (colors only, not all attributes).
 #[derive(Hash, PartialEq, Eq, Clone, Debug, Default)]
 struct StyleKey {
-    fg: Option<(u8, u8, u8)>,
-    bg: Option<(u8, u8, u8)>,
+    fg: Option<ColorKey>,
+    bg: Option<ColorKey>,
+}
+
+fn color_key(color: &RgbaColor) -> ColorKey {
+    (color.r, color.g, color.b, color.a.to_bits())
 }
 
 impl From<&Style> for StyleKey {
     fn from(style: &Style) -> Self {
         Self {
-            fg: style.fg.as_ref().map(|c| (c.r, c.g, c.b)),
-            bg: style.bg.as_ref().map(|c| (c.r, c.g, c.b)),
+            fg: style.fg.as_ref().map(color_key),
+            bg: style.bg.as_ref().map(color_key),
         }
     }
 }
-- 
2.43.0


From db38e7defdcb1f18ca98f9fcc27745fa2cb10b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:52 +0000
Subject: [PATCH 59/83] fix: hatch recoloured the text and filled the border of
 a Static

---
 crates/textual/src/strip.rs                | 27 ++++++++++++++++++----
 crates/textual/src/widget/static_widget.rs |  9 +++++++-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/strip.rs b/crates/textual/src/strip.rs
index 1b38a0f..db59657 100644
--- a/crates/textual/src/strip.rs
+++ b/crates/textual/src/strip.rs
@@ -458,11 +458,28 @@ impl Strip {
     /// Replaces space characters with the hatch character and applies
     /// the hatch color as the foreground. Non-space characters are unchanged.
     pub fn apply_hatch(&self, hatch_char: char, hatch_color: &RgbaColor, opacity: f32) -> Strip {
-        let hatched_segments: SegmentVec = self
-            .segments
-            .iter()
-            .map(|seg| seg.apply_hatch(hatch_char, hatch_color, opacity))
-            .collect();
+        let mut hatched_segments = SegmentVec::new();
+        for segment in &self.segments {
+            // Runs of spaces are hatched, everything between them keeps its style
+            let mut start = 0;
+            let mut pos = 0;
+            let mut blank = None;
+            for grapheme in graphemes(segment.text()) {
+                let is_blank = grapheme == " ";
+                if blank.is_some_and(|blank| blank != is_blank) {
+                    hatched_segments.push(crop_segment(segment, start, pos));
+                    start = pos;
+                }
+                blank = Some(is_blank);
+                pos += display_width(grapheme);
+            }
+            hatched_segments.push(crop_segment(segment, start, pos));
+        }
+        for segment in &mut hatched_segments {
+            if segment.text().chars().all(|c| c == ' ') {
+                *segment = segment.apply_hatch(hatch_char, hatch_color, opacity);
+            }
+        }
 
         Strip::from_smallvec(hatched_segments)
     }
diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index b019d0d..162cd3a 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -690,7 +690,14 @@ Static {
             let strip = if let Some(hatch) = &self.style.hatch {
                 // Apply hatch to rows inside the border (content + padding area)
                 if y >= border_top && y < height - border_bottom {
-                    strip.apply_hatch(hatch.pattern.char(), &hatch.color, hatch.opacity)
+                    let end = width.saturating_sub(cache.border_right());
+                    let start = cache.border_left().min(end);
+                    let inner = strip.crop(start, end).apply_hatch(
+                        hatch.pattern.char(),
+                        &hatch.color,
+                        hatch.opacity,
+                    );
+                    Strip::join([strip.crop(0, start), inner, strip.crop(end, width)])
                 } else {
                     strip
                 }
-- 
2.43.0


From f5381081c101cd0b8f1261e8b0efc353b1309263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:04 +0000
Subject: [PATCH 60/83] fix: a title between the sides of a box overflowed
 narrow boxes and dropped the outline

---
 crates/textual/src/render_cache.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/crates/textual/src/render_cache.rs b/crates/textual/src/render_cache.rs
index fda4fa6..47e3d47 100644
--- a/crates/textual/src/render_cache.rs
+++ b/crates/textual/src/render_cache.rs
@@ -387,28 +387,31 @@ impl RenderCache {
                 let is_first_content_row = y == content_row_offset;
                 let is_last_content_row = y + 1 == content_end;
 
+                // Without a top/bottom border, titles are rendered in the first/last content rows
+                let row_title = title.filter(|_| !self.has_top_border && is_first_content_row);
+                let row_subtitle =
+                    subtitle.filter(|_| !self.has_bottom_border && is_last_content_row);
+
                 // Content row - check if we have side borders
                 if self.has_left_border || self.has_right_border {
-                    // For vertical keyline borders (no top/bottom), render titles in the first/last content rows
-                    if !self.has_top_border && is_first_content_row && title.is_some() {
-                        return self.render_labeled_middle_row(
+                    if let Some(title) = row_title {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
-                            title.unwrap(),
+                            title,
                             self.style.border_title_align,
-                        );
-                    }
-                    if !self.has_bottom_border && is_last_content_row && subtitle.is_some() {
-                        return self.render_labeled_middle_row(
+                        )
+                    } else if let Some(subtitle) = row_subtitle {
+                        self.render_labeled_middle_row(
                             &box_segs[1],
                             width,
-                            subtitle.unwrap(),
+                            subtitle,
                             self.style.border_subtitle_align,
-                        );
+                        )
+                    } else {
+                        // Has at least one side border
+                        self.render_partial_middle_row(&box_segs[1], content_line, width)
                     }
-
-                    // Has at least one side border
-                    self.render_partial_middle_row(&box_segs[1], content_line, width)
                 } else {
                     // No side borders - just content with padding
                     self.render_content_row(width, content_line)
-- 
2.43.0


From 8a947a17f90ab623a02cfe021d8a707641b46a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:02 +0000
Subject: [PATCH 61/83] fix: links below a title that has no border line of its
 own were clickable one row too high

---
 crates/textual/src/widget/static_widget.rs | 25 ++++++++++------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index 162cd3a..d1bd261 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -397,12 +397,8 @@ impl<M> Static<M> {
     }
 
     /// Extract link regions from rendered content for hit testing.
-    fn extract_link_regions(&self, lines: &[Strip], cache: &RenderCache) {
+    fn extract_link_regions(&self, lines: &[Strip], content_left: usize, content_top: usize) {
         let mut regions = Vec::new();
-        let border_left = cache.border_left();
-        let border_top = cache.border_top();
-        let padding_left = cache.padding_left();
-        let padding_top = cache.padding_top();
 
         for (row_idx, strip) in lines.iter().enumerate() {
             let mut col = 0;
@@ -413,10 +409,10 @@ impl<M> Static<M> {
                 if let Some(action) = segment.get_meta("@click") {
                     regions.push(LinkRegion {
                         action: action.to_string(),
-                        // Account for border and padding offsets
-                        row: row_idx + border_top + padding_top,
-                        start_col: col + border_left + padding_left,
-                        end_col: col + seg_width + border_left + padding_left,
+                        // Account for border, padding and title offsets
+                        row: row_idx + content_top,
+                        start_col: col + content_left,
+                        end_col: col + seg_width + content_left,
                     });
                 }
                 col += seg_width;
@@ -555,11 +551,6 @@ Static {
                 .collect();
         }
 
-        // 4b. Extract link regions from content for hit testing
-        // Store the render region for coordinate translation in mouse events
-        *self.last_render_region.borrow_mut() = Some(region);
-        self.extract_link_regions(&aligned_lines, &cache);
-
         // 5. Calculate content region boundaries (accounting for borders and padding)
         let border_top = cache.border_top();
         let border_bottom = cache.border_bottom();
@@ -567,6 +558,12 @@ Static {
         let content_end =
             height.saturating_sub(border_bottom + cache.padding_bottom() + reserve_bottom);
 
+        // 5b. Extract link regions from content for hit testing
+        // Store the render region for coordinate translation in mouse events
+        *self.last_render_region.borrow_mut() = Some(region);
+        let content_left = cache.border_left() + cache.padding_left();
+        self.extract_link_regions(&aligned_lines, content_left, content_start);
+
         // 6. Parse border titles as markup (only if we have a border)
         // Title/subtitle color inheritance:
         // 1. border_title_color / border_subtitle_color if explicitly set
-- 
2.43.0


From 736a2ebebccc75ca472d1319c6566cb359787885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:51 +0000
Subject: [PATCH 62/83] fix: links of a Static that became hidden could still
 be clicked

---
 crates/textual/src/widget/static_widget.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/widget/static_widget.rs b/crates/textual/src/widget/static_widget.rs
index d1bd261..0a717dc 100644
--- a/crates/textual/src/widget/static_widget.rs
+++ b/crates/textual/src/widget/static_widget.rs
@@ -461,6 +461,8 @@ Static {
 
     fn render(&self, canvas: &mut Canvas, region: Region) {
         if self.style.visibility == Visibility::Hidden {
+            // Links that aren't shown can't be clicked
+            self.link_regions.borrow_mut().clear();
             return;
         }
         if region.width <= 0 || region.height <= 0 {
-- 
2.43.0


From ce79eeee2766cfc7d4365febc0ffcf30301c3877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:18 +0000
Subject: [PATCH 63/83] fix: SVG exports left out text in the default style at
 the end of a row

---
 crates/textual/src/svg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/svg.rs b/crates/textual/src/svg.rs
index d34615d..7d87c3f 100644
--- a/crates/textual/src/svg.rs
+++ b/crates/textual/src/svg.rs
@@ -276,7 +276,10 @@ impl SvgRenderer {
                     };
 
                 // Check if we need to flush the current run
-                let style_changed = current_fg != run_fg || current_attrs != run_attrs;
+                // Trailing blanks in the default style don't show
+                let end_of_line = x == width as i32 && !run_text.trim_end_matches(' ').is_empty();
+                let style_changed =
+                    end_of_line || current_fg != run_fg || current_attrs != run_attrs;
                 if style_changed && !run_text.is_empty() {
                     let x_pos = (run_start as f32) * self.config.char_width;
                     let text_length = (run_cells as f32) * self.config.char_width;
-- 
2.43.0


From 3262bb9311b3e6c50bd90d32cfdd8e3f5fe7eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:31 +0000
Subject: [PATCH 64/83] fix: content-box lengths left out border and padding in
 vertical layouts

---
 crates/textual/src/layouts/vertical.rs | 29 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index b2efb1c..f49d3aa 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -11,7 +11,7 @@ use crate::canvas::{Region, Size};
 use tcss::types::ComputedStyle;
 use tcss::types::geometry::Unit;
 
-use super::size_resolver::{apply_box_sizing_height, resolve_width_full};
+use super::size_resolver::{apply_box_sizing_height, apply_box_sizing_width, resolve_width_full};
 use super::{Layout, LayoutChild, Viewport, WidgetPlacement};
 
 /// Vertical layout - stacks children top-to-bottom.
@@ -46,6 +46,13 @@ fn resolve_child_width(
         viewport.width,
         viewport.height,
     );
+    // Lengths given in CSS are subject to box-sizing
+    let base_width = match &child_style.width {
+        Some(w) if !matches!(w.unit, Unit::Auto | Unit::Fraction) => {
+            apply_box_sizing_width(base_width, child_style)
+        }
+        _ => base_width,
+    };
     let should_reduce_by_margins = match &child_style.width {
         Some(w) => matches!(
             w.unit,
@@ -182,6 +189,7 @@ impl Layout for VerticalLayout {
             prev_margin_bottom = margin_bottom;
 
             // Height of a child that does not share the remaining space
+            let chrome = apply_box_sizing_height(0, child_style) as f64;
             let fixed_height = if let Some(height) = &child_style.height {
                 match height.unit {
                     Unit::Fraction => {
@@ -193,14 +201,16 @@ impl Layout for VerticalLayout {
                         Some(apply_box_sizing_height(height.value as i32, child_style) as f64)
                     }
                     Unit::Percent | Unit::Height => {
-                        Some(height.value * available.height as f64 / 100.0)
+                        Some(height.value * available.height as f64 / 100.0 + chrome)
                     }
                     Unit::Width => {
                         // Python uses parent.app.size (terminal size) for w units
-                        Some(height.value * viewport.width as f64 / 100.0)
+                        Some(height.value * viewport.width as f64 / 100.0 + chrome)
+                    }
+                    Unit::ViewWidth => Some(height.value * viewport.width as f64 / 100.0 + chrome),
+                    Unit::ViewHeight => {
+                        Some(height.value * viewport.height as f64 / 100.0 + chrome)
                     }
-                    Unit::ViewWidth => Some(height.value * viewport.width as f64 / 100.0),
-                    Unit::ViewHeight => Some(height.value * viewport.height as f64 / 100.0),
                     Unit::Auto => Some(intrinsic_height),
                 }
             } else if desired_size.height == u16::MAX {
@@ -251,6 +261,7 @@ impl Layout for VerticalLayout {
 
             // Resolve box_model height as f64 (keeping fractional precision)
             // This must match the calculation in the first pass
+            let chrome = apply_box_sizing_height(0, child_style) as f64;
             let box_height: f64 = if let Some(h) = &child_style.height {
                 match h.unit {
                     Unit::Fraction => {
@@ -265,14 +276,14 @@ impl Layout for VerticalLayout {
                     Unit::Percent | Unit::Height => {
                         // For percentage heights, use available.height (parent container)
                         // This ensures height: 100% fills the parent, not the viewport
-                        h.value * available.height as f64 / 100.0
+                        h.value * available.height as f64 / 100.0 + chrome
                     }
                     Unit::Width => {
                         // Python uses parent.app.size (terminal size) for w units
-                        h.value * viewport.width as f64 / 100.0
+                        h.value * viewport.width as f64 / 100.0 + chrome
                     }
-                    Unit::ViewWidth => h.value * viewport.width as f64 / 100.0,
-                    Unit::ViewHeight => h.value * viewport.height as f64 / 100.0,
+                    Unit::ViewWidth => h.value * viewport.width as f64 / 100.0 + chrome,
+                    Unit::ViewHeight => h.value * viewport.height as f64 / 100.0 + chrome,
                 }
             } else if desired_size.height == u16::MAX {
                 // No CSS height but widget wants to fill - use fraction_unit (implicit 1fr)
-- 
2.43.0


From 0fe8d62ec537bf8b1c78a5f0b4ab9e38f1397673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:28 +0000
Subject: [PATCH 65/83] fix: auto sizes of absolute content-box widgets counted
 border and padding twice

---
 crates/textual/src/layouts/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index ba5e7fb..a51da81 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -627,7 +627,12 @@ fn resolve_absolute_placement(
             Unit::Fraction => available.width,
             Unit::Auto => intrinsic_width as i32,
         };
-        size_resolver::apply_box_sizing_width(raw, style)
+        if w.unit == Unit::Auto {
+            // The intrinsic width already includes border and padding
+            raw
+        } else {
+            size_resolver::apply_box_sizing_width(raw, style)
+        }
     } else {
         intrinsic_width as i32
     };
@@ -675,7 +680,12 @@ fn resolve_absolute_placement(
             Unit::Fraction => available.height,
             Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as i32,
         };
-        size_resolver::apply_box_sizing_height(raw, style)
+        if h.unit == Unit::Auto {
+            // The intrinsic height already includes border and padding
+            raw
+        } else {
+            size_resolver::apply_box_sizing_height(raw, style)
+        }
     } else {
         child.node.intrinsic_height_for_width(width_u16) as i32
     };
-- 
2.43.0


From e06c8b3d6d720d7934cac3bb78a232c59bb7dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:52 +0000
Subject: [PATCH 66/83] fix: auto sizes of containers ignored limits of their
 children and counted the first margin twice

---
 crates/textual/src/containers.rs            | 167 ++++++++++++++++++++
 crates/textual/src/containers/container.rs  | 162 +------------------
 crates/textual/src/containers/scrollable.rs | 152 +-----------------
 3 files changed, 171 insertions(+), 310 deletions(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 1397c4b..6e651e2 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -13,6 +13,7 @@ use crate::render_cache::RenderCache;
 use crate::widget::{SenderInfo, Widget};
 use crate::{MouseEvent, MouseEventKind};
 use tcss::ComputedStyle;
+use tcss::types::{Layout as LayoutDirection, Scalar, Unit};
 
 /// Renders container chrome (background and border) and returns the inner region.
 ///
@@ -46,6 +47,172 @@ pub fn render_container_chrome(
     inner_region_from_cache(region, &cache, inner_width as i32, inner_height as i32)
 }
 
+/// A child's own size within the limits its style gives in cells.
+fn limited_size(size: Size, style: &ComputedStyle) -> Size {
+    let limit = |length: u16, max: &Option<Scalar>, min: &Option<Scalar>| {
+        let cells = |limit: &Option<Scalar>| match limit {
+            Some(limit) if limit.unit == Unit::Cells => Some(limit.value as u16),
+            _ => None,
+        };
+        if length == u16::MAX {
+            return length; // Fills the available space
+        }
+        let length = length.min(cells(max).unwrap_or(u16::MAX));
+        length.max(cells(min).unwrap_or(0))
+    };
+    Size::new(
+        limit(size.width, &style.max_width, &style.min_width),
+        limit(size.height, &style.max_height, &style.min_height),
+    )
+}
+
+/// Calculates a container's intrinsic size based on its children and layout mode.
+pub(crate) fn intrinsic_size<M>(
+    children: &[Box<dyn Widget<M>>],
+    style: &ComputedStyle,
+    layout: LayoutDirection,
+) -> Size {
+    // Collect children sizes with margin collapsing support
+    // u16::MAX signals "fill available space" - propagate this signal
+    let mut total_width: u16 = 0;
+    let mut total_height: u16 = 0;
+    let mut max_width: u16 = 0;
+    let mut max_height: u16 = 0;
+    let mut any_child_wants_fill_width = false;
+    let mut any_child_wants_fill_height = false;
+
+    // For margin collapsing in vertical layout
+    let mut prev_margin_bottom: u16 = 0;
+    let mut first_child_margin_top: u16 = 0;
+    let mut last_child_margin_bottom: u16 = 0;
+    let mut is_first_child = true;
+
+    // For margin collapsing in horizontal layout
+    let mut prev_margin_right: u16 = 0;
+    let mut first_child_margin_left: u16 = 0;
+    let mut last_child_margin_right: u16 = 0;
+    let mut is_first_h_child = true;
+
+    for child in children {
+        if !child.participates_in_layout() {
+            continue;
+        }
+        let child_style = child.get_style();
+        let child_size = limited_size(child.desired_size(), &child_style);
+
+        // Check for "fill available space" signals
+        if child_size.width == u16::MAX {
+            any_child_wants_fill_width = true;
+        }
+        if child_size.height == u16::MAX {
+            any_child_wants_fill_height = true;
+        }
+
+        let capped_width = if child_size.width == u16::MAX {
+            0
+        } else {
+            child_size.width
+        };
+        let capped_height = if child_size.height == u16::MAX {
+            0
+        } else {
+            child_size.height
+        };
+
+        let margin_left = child_style.margin.left.value as u16;
+        let margin_right = child_style.margin.right.value as u16;
+        let margin_top = child_style.margin.top.value as u16;
+        let margin_bottom = child_style.margin.bottom.value as u16;
+
+        // For horizontal layout: calculate width with margin collapsing
+        if is_first_h_child {
+            first_child_margin_left = margin_left;
+            total_width = total_width.saturating_add(capped_width);
+            is_first_h_child = false;
+        } else {
+            // CSS margin collapsing: use max of adjacent margins, not sum
+            let collapsed_margin = margin_left.max(prev_margin_right);
+            total_width = total_width
+                .saturating_add(collapsed_margin)
+                .saturating_add(capped_width);
+        }
+        prev_margin_right = margin_right;
+        last_child_margin_right = margin_right;
+
+        // For vertical layout: calculate height with margin collapsing
+        if is_first_child {
+            first_child_margin_top = margin_top;
+            total_height = total_height.saturating_add(capped_height);
+            is_first_child = false;
+        } else {
+            // CSS margin collapsing: use max of adjacent margins, not sum
+            let collapsed_margin = margin_top.max(prev_margin_bottom);
+            total_height = total_height
+                .saturating_add(collapsed_margin)
+                .saturating_add(capped_height);
+        }
+        prev_margin_bottom = margin_bottom;
+        last_child_margin_bottom = margin_bottom;
+
+        // Max dimensions include full margins (for cross-axis)
+        let width_with_margin = capped_width
+            .saturating_add(margin_left)
+            .saturating_add(margin_right);
+        let height_with_margin = capped_height
+            .saturating_add(margin_top)
+            .saturating_add(margin_bottom);
+        max_width = max_width.max(width_with_margin);
+        max_height = max_height.max(height_with_margin);
+    }
+
+    // Add outer margins (first and last child's outer margins)
+    total_width = first_child_margin_left
+        .saturating_add(total_width)
+        .saturating_add(last_child_margin_right);
+    total_height = first_child_margin_top
+        .saturating_add(total_height)
+        .saturating_add(last_child_margin_bottom);
+
+    // Calculate based on layout mode (use effective layout, not just CSS)
+    let (content_w, content_h) = match layout {
+        LayoutDirection::Vertical => {
+            // Stacked vertically: width = max child width, height = sum of heights (with collapsing)
+            (max_width, total_height)
+        }
+        LayoutDirection::Horizontal => {
+            // Stacked horizontally: width = sum of widths (with collapsing), height = max child height
+            (total_width, max_height)
+        }
+        LayoutDirection::Grid => {
+            // Grid: use max dimensions as approximation
+            (max_width, max_height)
+        }
+    };
+
+    // Add border and padding
+    // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
+    let cache = RenderCache::new(style);
+    let border_h = cache.border_horizontal() as u16;
+    let border_v = cache.border_vertical() as u16;
+    let padding_h = style.padding.left.value as u16 + style.padding.right.value as u16;
+    let padding_v = style.padding.top.value as u16 + style.padding.bottom.value as u16;
+
+    // If any child wants to fill available space, propagate that signal
+    let final_width = if any_child_wants_fill_width {
+        u16::MAX
+    } else {
+        content_w.saturating_add(border_h).saturating_add(padding_h)
+    };
+
+    let final_height = if any_child_wants_fill_height {
+        u16::MAX
+    } else {
+        content_h.saturating_add(border_v).saturating_add(padding_v)
+    };
+
+    Size::new(final_width, final_height)
+}
+
 /// Computes the inner region for a container without rendering chrome.
 pub fn inner_region_for_container(region: Region, style: &ComputedStyle) -> Region {
     if region.width <= 0 || region.height <= 0 {
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 31d2cc5..a9f50ab 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -589,165 +589,6 @@ impl<M> Container<M> {
 
         keyline_canvas.render(canvas, region);
     }
-
-    /// Calculate intrinsic size based on children and layout mode.
-    fn calculate_intrinsic_size(&self) -> Size {
-        if self.children.is_empty() {
-            // Empty container: minimal size (account for border)
-            // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
-            let cache = RenderCache::new(&self.style);
-            let border_h = cache.border_horizontal() as u16;
-            let border_v = cache.border_vertical() as u16;
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-            let padding_v =
-                self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-            return Size::new(border_h + padding_h, border_v + padding_v);
-        }
-
-        // Collect children sizes with margin collapsing support
-        // u16::MAX signals "fill available space" - propagate this signal
-        let mut total_width: u16 = 0;
-        let mut total_height: u16 = 0;
-        let mut max_width: u16 = 0;
-        let mut max_height: u16 = 0;
-        let mut any_child_wants_fill_width = false;
-        let mut any_child_wants_fill_height = false;
-
-        // For margin collapsing in vertical layout
-        let mut prev_margin_bottom: u16 = 0;
-        let mut first_child_margin_top: u16 = 0;
-        let mut last_child_margin_bottom: u16 = 0;
-        let mut is_first_child = true;
-
-        // For margin collapsing in horizontal layout
-        let mut prev_margin_right: u16 = 0;
-        let mut first_child_margin_left: u16 = 0;
-        let mut last_child_margin_right: u16 = 0;
-        let mut is_first_h_child = true;
-
-        for child in &self.children {
-            if !child.participates_in_layout() {
-                continue;
-            }
-            let child_size = child.desired_size();
-            let child_style = child.get_style();
-
-            // Check for "fill available space" signals
-            if child_size.width == u16::MAX {
-                any_child_wants_fill_width = true;
-            }
-            if child_size.height == u16::MAX {
-                any_child_wants_fill_height = true;
-            }
-
-            // Track max dimensions (cap at reasonable max to avoid overflow, but preserve MAX signal)
-            let capped_width = if child_size.width == u16::MAX {
-                0
-            } else {
-                child_size.width.min(1000)
-            };
-            let capped_height = if child_size.height == u16::MAX {
-                0
-            } else {
-                child_size.height.min(1000)
-            };
-
-            let margin_left = child_style.margin.left.value as u16;
-            let margin_right = child_style.margin.right.value as u16;
-            let margin_top = child_style.margin.top.value as u16;
-            let margin_bottom = child_style.margin.bottom.value as u16;
-
-            // For horizontal layout: calculate width with margin collapsing
-            if is_first_h_child {
-                first_child_margin_left = margin_left;
-                total_width = total_width.saturating_add(capped_width);
-                is_first_h_child = false;
-            } else {
-                // CSS margin collapsing: use max of adjacent margins, not sum
-                let collapsed_margin = margin_left.max(prev_margin_right);
-                total_width = total_width
-                    .saturating_add(collapsed_margin)
-                    .saturating_add(capped_width);
-            }
-            prev_margin_right = margin_right;
-            last_child_margin_right = margin_right;
-
-            // For vertical layout: calculate height with margin collapsing
-            if is_first_child {
-                first_child_margin_top = margin_top;
-                total_height = total_height.saturating_add(capped_height);
-                is_first_child = false;
-            } else {
-                // CSS margin collapsing: use max of adjacent margins, not sum
-                let collapsed_margin = margin_top.max(prev_margin_bottom);
-                total_height = total_height
-                    .saturating_add(collapsed_margin)
-                    .saturating_add(capped_height);
-            }
-            prev_margin_bottom = margin_bottom;
-            last_child_margin_bottom = margin_bottom;
-
-            // Max dimensions include full margins (for cross-axis)
-            let width_with_margin = capped_width
-                .saturating_add(margin_left)
-                .saturating_add(margin_right);
-            let height_with_margin = capped_height
-                .saturating_add(margin_top)
-                .saturating_add(margin_bottom);
-            max_width = max_width.max(width_with_margin);
-            max_height = max_height.max(height_with_margin);
-        }
-
-        // Add outer margins (first and last child's outer margins)
-        total_width = first_child_margin_left
-            .saturating_add(total_width)
-            .saturating_add(last_child_margin_right);
-        total_height = first_child_margin_top
-            .saturating_add(total_height)
-            .saturating_add(last_child_margin_bottom);
-
-        // Calculate based on layout mode (use effective layout, not just CSS)
-        let (content_w, content_h) = match self.effective_layout() {
-            LayoutDirection::Vertical => {
-                // Stacked vertically: width = max child width, height = sum of heights (with collapsing)
-                (max_width, total_height)
-            }
-            LayoutDirection::Horizontal => {
-                // Stacked horizontally: width = sum of widths (with collapsing), height = max child height
-                (total_width, max_height)
-            }
-            LayoutDirection::Grid => {
-                // Grid: use max dimensions as approximation
-                (max_width, max_height)
-            }
-        };
-
-        // Add border and padding
-        // Use per-axis border chrome to handle directional borders (hkey/vkey) correctly
-        let cache = RenderCache::new(&self.style);
-        let border_h = cache.border_horizontal() as u16;
-        let border_v = cache.border_vertical() as u16;
-        let padding_h =
-            self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-        let padding_v =
-            self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-
-        // If any child wants to fill available space, propagate that signal
-        let final_width = if any_child_wants_fill_width {
-            u16::MAX
-        } else {
-            content_w.saturating_add(border_h).saturating_add(padding_h)
-        };
-
-        let final_height = if any_child_wants_fill_height {
-            u16::MAX
-        } else {
-            content_h.saturating_add(border_v).saturating_add(padding_v)
-        };
-
-        Size::new(final_width, final_height)
-    }
 }
 
 impl<M: 'static> Widget<M> for Container<M> {
@@ -989,7 +830,8 @@ Container {
         use tcss::types::Unit;
 
         // Calculate intrinsic size from children
-        let intrinsic_size = self.calculate_intrinsic_size();
+        let intrinsic_size =
+            crate::containers::intrinsic_size(&self.children, &self.style, self.effective_layout());
 
         // Check CSS dimensions
         // For percentage/fr units, return u16::MAX to signal "fill available space"
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 2c8d95b..6b1f956 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -346,155 +346,6 @@ impl<M> ScrollableContainer<M> {
         (virtual_width, virtual_height)
     }
 
-    fn calculate_intrinsic_size(&self) -> Size {
-        if self.children.is_empty() {
-            let border_size = if self.style.border.is_none() { 0 } else { 2 };
-            let padding_h =
-                self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-            let padding_v =
-                self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-            return Size::new(border_size + padding_h, border_size + padding_v);
-        }
-
-        let mut total_width: u16 = 0;
-        let mut total_height: u16 = 0;
-        let mut max_width: u16 = 0;
-        let mut max_height: u16 = 0;
-        let mut any_child_wants_fill_width = false;
-        let mut any_child_wants_fill_height = false;
-
-        let mut prev_margin_bottom: u16 = 0;
-        let mut first_child_margin_top: u16 = 0;
-        let mut last_child_margin_bottom: u16 = 0;
-        let mut is_first_child = true;
-
-        let mut prev_margin_right: u16 = 0;
-        let mut first_child_margin_left: u16 = 0;
-        let mut last_child_margin_right: u16 = 0;
-        let mut is_first_h_child = true;
-
-        for child in &self.children {
-            if !child.participates_in_layout() {
-                continue;
-            }
-            let child_size = child.desired_size();
-            let child_style = child.get_style();
-
-            if child_size.width == u16::MAX {
-                any_child_wants_fill_width = true;
-            }
-            if child_size.height == u16::MAX {
-                any_child_wants_fill_height = true;
-            }
-
-            let capped_width = if child_size.width == u16::MAX {
-                1000
-            } else {
-                child_size.width
-            };
-            let capped_height = if child_size.height == u16::MAX {
-                1000
-            } else {
-                child_size.height
-            };
-
-            let margin_left = child_style.margin.left.value as u16;
-            let margin_right = child_style.margin.right.value as u16;
-            let margin_top = child_style.margin.top.value as u16;
-            let margin_bottom = child_style.margin.bottom.value as u16;
-
-            let child_width_with_margins = capped_width + margin_left + margin_right;
-            let child_height_with_margins = capped_height + margin_top + margin_bottom;
-
-            match self.style.layout {
-                LayoutDirection::Vertical => {
-                    if is_first_child {
-                        first_child_margin_top = margin_top;
-                        is_first_child = false;
-                    }
-                    last_child_margin_bottom = margin_bottom;
-
-                    let margin_overlap = prev_margin_bottom.max(margin_top);
-                    let effective_margin = margin_overlap;
-                    total_height += capped_height + effective_margin;
-                    prev_margin_bottom = margin_bottom;
-
-                    max_width = max_width.max(child_width_with_margins);
-                }
-                LayoutDirection::Horizontal => {
-                    if is_first_h_child {
-                        first_child_margin_left = margin_left;
-                        is_first_h_child = false;
-                    }
-                    last_child_margin_right = margin_right;
-
-                    let margin_overlap = prev_margin_right.max(margin_left);
-                    let effective_margin = margin_overlap;
-                    total_width += capped_width + effective_margin;
-                    prev_margin_right = margin_right;
-
-                    max_height = max_height.max(child_height_with_margins);
-                }
-                LayoutDirection::Grid => {
-                    max_width = max_width.max(child_width_with_margins);
-                    max_height = max_height.max(child_height_with_margins);
-                }
-            }
-        }
-
-        match self.style.layout {
-            LayoutDirection::Vertical => {
-                total_height += last_child_margin_bottom;
-                total_width = max_width;
-                if any_child_wants_fill_width {
-                    total_width = u16::MAX;
-                }
-                if any_child_wants_fill_height {
-                    total_height = u16::MAX;
-                }
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-                Size::new(
-                    total_width.saturating_add(border_size + padding_h),
-                    total_height.saturating_add(border_size + padding_v + first_child_margin_top),
-                )
-            }
-            LayoutDirection::Horizontal => {
-                total_width += last_child_margin_right;
-                total_height = max_height;
-                if any_child_wants_fill_width {
-                    total_width = u16::MAX;
-                }
-                if any_child_wants_fill_height {
-                    total_height = u16::MAX;
-                }
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-                Size::new(
-                    total_width.saturating_add(border_size + padding_h + first_child_margin_left),
-                    total_height.saturating_add(border_size + padding_v),
-                )
-            }
-            LayoutDirection::Grid => {
-                let border_size = if self.style.border.is_none() { 0 } else { 2 };
-                let padding_h =
-                    self.style.padding.left.value as u16 + self.style.padding.right.value as u16;
-                let padding_v =
-                    self.style.padding.top.value as u16 + self.style.padding.bottom.value as u16;
-                Size::new(
-                    max_width.saturating_add(border_size + padding_h),
-                    max_height.saturating_add(border_size + padding_v),
-                )
-            }
-        }
-    }
-
     fn compute_scroll_layout(&self, inner_region: Region, viewport: Viewport) -> ScrollLayout {
         let mut show_vertical = false;
         let mut show_horizontal = false;
@@ -631,7 +482,8 @@ ScrollableContainer {
     fn desired_size(&self) -> Size {
         use tcss::types::Unit;
 
-        let intrinsic_size = self.calculate_intrinsic_size();
+        let intrinsic_size =
+            crate::containers::intrinsic_size(&self.children, &self.style, self.style.layout);
 
         let width = if let Some(w) = &self.style.width {
             match w.unit {
-- 
2.43.0


From aaf953be7d70619fe43299bdde376c74ee246530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:57 +0000
Subject: [PATCH 67/83] fix: margins were taken from heights given in cells in
 horizontal layouts

---
 crates/textual/src/layouts/horizontal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index 16622a8..eb348ba 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -310,15 +310,15 @@ impl Layout for HorizontalLayout {
 
             current_x += effective_left_margin;
 
-            // For height: auto (intrinsic), use the height as-is since it's the content height.
+            // For heights in cells or auto (intrinsic), margins are outside of the height.
             // For other heights (fill/fr), reduce by vertical margins to fit within container.
-            let is_auto_height = child_style
+            let is_fixed_height = child_style
                 .height
                 .as_ref()
-                .map(|h| h.unit == Unit::Auto)
+                .map(|h| matches!(h.unit, Unit::Auto | Unit::Cells))
                 .unwrap_or(false);
-            let adjusted_height = if is_auto_height {
-                height // Use intrinsic height directly
+            let adjusted_height = if is_fixed_height {
+                height // Use the given or intrinsic height directly
             } else {
                 // Fill available: reduce by margins to prevent overflow
                 (height - margin_top - margin_bottom).max(0)
-- 
2.43.0


From 6283c408ef87057483b640d43e09932e044f905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:08 +0000
Subject: [PATCH 68/83] fix: percentage heights and heights filling a row ended
 up below their min-height by the margins

---
 crates/textual/src/layouts/horizontal.rs | 35 ++++++++++++------------
 crates/textual/src/layouts/vertical.rs   |  8 +++---
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index eb348ba..d463655 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -263,6 +263,23 @@ impl Layout for HorizontalLayout {
                 available.height
             };
 
+            let margin_top = child_style.margin.top.value as i32;
+            let margin_bottom = child_style.margin.bottom.value as i32;
+
+            // For heights in cells or auto (intrinsic), margins are outside of the height.
+            // For other heights (fill/fr), reduce by vertical margins to fit within container.
+            let is_fixed_height = child_style
+                .height
+                .as_ref()
+                .map(|h| matches!(h.unit, Unit::Auto | Unit::Cells))
+                .unwrap_or(false);
+            let height = if is_fixed_height {
+                height // Use the given or intrinsic height directly
+            } else {
+                // Fill available: reduce by margins to prevent overflow
+                (height - margin_top - margin_bottom).max(0)
+            };
+
             // Apply max-height constraint
             let height = if let Some(max_h) = &child_style.max_height {
                 let max_height_value = match max_h.unit {
@@ -298,8 +315,6 @@ impl Layout for HorizontalLayout {
             // Get margins for positioning
             let margin_left = child_style.margin.left.value as i32;
             let margin_right = child_style.margin.right.value as i32;
-            let margin_top = child_style.margin.top.value as i32;
-            let margin_bottom = child_style.margin.bottom.value as i32;
 
             // CSS margin collapsing: use max of adjacent margins, not sum
             let effective_left_margin = if i == 0 {
@@ -310,27 +325,13 @@ impl Layout for HorizontalLayout {
 
             current_x += effective_left_margin;
 
-            // For heights in cells or auto (intrinsic), margins are outside of the height.
-            // For other heights (fill/fr), reduce by vertical margins to fit within container.
-            let is_fixed_height = child_style
-                .height
-                .as_ref()
-                .map(|h| matches!(h.unit, Unit::Auto | Unit::Cells))
-                .unwrap_or(false);
-            let adjusted_height = if is_fixed_height {
-                height // Use the given or intrinsic height directly
-            } else {
-                // Fill available: reduce by margins to prevent overflow
-                (height - margin_top - margin_bottom).max(0)
-            };
-
             placements.push(WidgetPlacement {
                 child_index,
                 region: Region {
                     x: current_x,
                     y: available.y + margin_top,
                     width,
-                    height: adjusted_height,
+                    height,
                 },
             });
 
diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index f49d3aa..c7a0b99 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -222,12 +222,12 @@ impl Layout for VerticalLayout {
                 Some(desired_size.height as f64)
             };
             if let Some(height) = fixed_height {
-                let height = constrain_height(height, child_style, available, viewport);
-                fixed_height_total += if reduced_by_margins(child_style) {
+                let height = if reduced_by_margins(child_style) {
                     (height - margin_top - margin_bottom).max(0.0)
                 } else {
                     height
                 };
+                fixed_height_total += constrain_height(height, child_style, available, viewport);
             }
         }
 
@@ -293,8 +293,6 @@ impl Layout for VerticalLayout {
                 desired_size.height as f64
             };
 
-            let box_height = constrain_height(box_height, child_style, available, viewport);
-
             // Get vertical margins
             let margin_top = child_style.margin.top.value as f64;
             let margin_bottom = child_style.margin.bottom.value as f64;
@@ -307,6 +305,8 @@ impl Layout for VerticalLayout {
                 box_height
             };
 
+            let box_height = constrain_height(box_height, child_style, available, viewport);
+
             // CSS margin collapsing
             let effective_top_margin = if i == 0 {
                 margin_top
-- 
2.43.0


From fcc27445c08fc246920013a61e5ccc90b67172dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 69/83] fix: auto heights of containers left no room for the
 lines of wrapping texts

---
 crates/textual/src/containers.rs              | 56 ++++++++++++++++++-
 crates/textual/src/containers/container.rs    | 15 +++++
 .../src/containers/horizontal_scroll.rs       |  4 ++
 crates/textual/src/containers/scrollable.rs   | 15 +++++
 .../textual/src/containers/vertical_scroll.rs |  4 ++
 crates/textual/src/macros.rs                  |  4 ++
 6 files changed, 97 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/containers.rs b/crates/textual/src/containers.rs
index 6e651e2..aa926a5 100644
--- a/crates/textual/src/containers.rs
+++ b/crates/textual/src/containers.rs
@@ -9,11 +9,12 @@ pub mod vertical_scroll;
 
 use crate::KeyCode;
 use crate::canvas::{Canvas, Region, Size};
+use crate::layouts::{LayoutChild, Viewport, arrange_children_with_layers};
 use crate::render_cache::RenderCache;
 use crate::widget::{SenderInfo, Widget};
 use crate::{MouseEvent, MouseEventKind};
 use tcss::ComputedStyle;
-use tcss::types::{Layout as LayoutDirection, Scalar, Unit};
+use tcss::types::{AlignHorizontal, AlignVertical, Layout as LayoutDirection, Scalar, Unit};
 
 /// Renders container chrome (background and border) and returns the inner region.
 ///
@@ -213,6 +214,59 @@ pub(crate) fn intrinsic_size<M>(
     Size::new(final_width, final_height)
 }
 
+/// The height that a container of `size` has when its height is auto and it is `width`
+/// cells wide: children may wrap and take more rows than they do side by side.
+pub(crate) fn intrinsic_height_for_width<M>(
+    children: &[Box<dyn Widget<M>>],
+    style: &ComputedStyle,
+    layout: LayoutDirection,
+    size: Size,
+    width: u16,
+    viewport: Viewport,
+) -> u16 {
+    let auto_height = style.height.as_ref().is_none_or(|h| h.unit == Unit::Auto);
+    if !auto_height || size.height == u16::MAX || layout == LayoutDirection::Grid {
+        return size.height;
+    }
+    let cache = RenderCache::new(style);
+    let (inner_width, inner_height) = cache.inner_size(width as usize, size.height as usize);
+    let region = Region::new(0, 0, inner_width as i32, inner_height as i32);
+
+    // Neither alignment nor offsets change the size.
+    let mut style = style.clone();
+    style.layout = layout;
+    style.align_horizontal = AlignHorizontal::Left;
+    style.align_vertical = AlignVertical::Top;
+    let layout_children: Vec<LayoutChild> = children
+        .iter()
+        .enumerate()
+        .filter(|(_, child)| child.participates_in_layout())
+        .map(|(index, child)| {
+            let mut style = child.get_style();
+            style.offset_x = None;
+            style.offset_y = None;
+            LayoutChild {
+                index,
+                style,
+                desired_size: child.desired_size(),
+                node: child,
+            }
+        })
+        .collect();
+    let placements = arrange_children_with_layers(&style, &layout_children, region, viewport);
+    let bottom = placements
+        .iter()
+        .map(|placement| {
+            let margin = children[placement.child_index].get_style().margin;
+            placement.region.y + placement.region.height + margin.bottom.value as i32
+        })
+        .max()
+        .unwrap_or(0)
+        .max(region.height);
+    let chrome = size.height as i32 - inner_height as i32;
+    (bottom + chrome).clamp(0, u16::MAX as i32 - 1) as u16
+}
+
 /// Computes the inner region for a container without rendering chrome.
 pub fn inner_region_for_container(region: Region, style: &ComputedStyle) -> Region {
     if region.width <= 0 || region.height <= 0 {
diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index a9f50ab..e375b4c 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -877,6 +877,21 @@ Container {
         Size::new(width, height)
     }
 
+    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+        let viewport = self.rendered_viewport.get().unwrap_or(Viewport {
+            width: self.viewport.width as i32,
+            height: self.viewport.height as i32,
+        });
+        crate::containers::intrinsic_height_for_width(
+            &self.children,
+            &self.style,
+            self.effective_layout(),
+            self.desired_size(),
+            width,
+            viewport,
+        )
+    }
+
     fn content_height_for_scroll(&self, available_width: u16, _available_height: u16) -> u16 {
         use tcss::types::Unit;
 
diff --git a/crates/textual/src/containers/horizontal_scroll.rs b/crates/textual/src/containers/horizontal_scroll.rs
index 2dd1945..a1f71d2 100644
--- a/crates/textual/src/containers/horizontal_scroll.rs
+++ b/crates/textual/src/containers/horizontal_scroll.rs
@@ -93,6 +93,10 @@ HorizontalScroll {
         self.inner.desired_size()
     }
 
+    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+        self.inner.intrinsic_height_for_width(width)
+    }
+
     fn get_meta(&self) -> WidgetMeta {
         WidgetMeta {
             type_name: "HorizontalScroll",
diff --git a/crates/textual/src/containers/scrollable.rs b/crates/textual/src/containers/scrollable.rs
index 6b1f956..bd4f977 100644
--- a/crates/textual/src/containers/scrollable.rs
+++ b/crates/textual/src/containers/scrollable.rs
@@ -518,6 +518,21 @@ ScrollableContainer {
         Size::new(width, height)
     }
 
+    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+        let viewport = self.rendered_viewport.get().unwrap_or(Viewport {
+            width: width as i32,
+            height: 24,
+        });
+        crate::containers::intrinsic_height_for_width(
+            &self.children,
+            &self.style,
+            self.style.layout,
+            self.desired_size(),
+            width,
+            viewport,
+        )
+    }
+
     fn render(&self, canvas: &mut Canvas, region: Region) {
         if region.width <= 0 || region.height <= 0 {
             return;
diff --git a/crates/textual/src/containers/vertical_scroll.rs b/crates/textual/src/containers/vertical_scroll.rs
index bd8cfa5..86d9cff 100644
--- a/crates/textual/src/containers/vertical_scroll.rs
+++ b/crates/textual/src/containers/vertical_scroll.rs
@@ -95,6 +95,10 @@ VerticalScroll {
         self.inner.desired_size()
     }
 
+    fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+        self.inner.intrinsic_height_for_width(width)
+    }
+
     fn get_meta(&self) -> WidgetMeta {
         WidgetMeta {
             type_name: "VerticalScroll",
diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index 04433e6..b726f9c 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -56,6 +56,10 @@ macro_rules! impl_widget_delegation {
                 self.$field.desired_size()
             }
 
+            fn intrinsic_height_for_width(&self, width: u16) -> u16 {
+                self.$field.intrinsic_height_for_width(width)
+            }
+
             fn get_meta(&self) -> ::tcss::WidgetMeta {
                 let mut meta = self.$field.get_meta();
                 meta.type_name = $name;
-- 
2.43.0


From 1b7884631c41376dbf84580ed3e586f06a856212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:01 +0000
Subject: [PATCH 70/83] fix: scrollbars of content that needs no scrolling were
 drawn with a thumb

---
 crates/textual/src/scrollbar.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/crates/textual/src/scrollbar.rs b/crates/textual/src/scrollbar.rs
index 90a632a..02514ec 100644
--- a/crates/textual/src/scrollbar.rs
+++ b/crates/textual/src/scrollbar.rs
@@ -102,12 +102,7 @@ impl ScrollBarRender {
         }
 
         // No thumb if content fits in viewport or thumb hidden
-        if !draw_thumb
-            || window_size <= 0.0
-            || size <= 0.0
-            || virtual_size <= 0.0
-            || virtual_size == size
-        {
+        if !draw_thumb || window_size <= 0.0 || size <= 0.0 || virtual_size <= window_size {
             return;
         }
 
@@ -230,12 +225,7 @@ impl ScrollBarRender {
         }
 
         // No thumb if content fits in viewport or thumb hidden
-        if !draw_thumb
-            || window_size <= 0.0
-            || size <= 0.0
-            || virtual_size <= 0.0
-            || virtual_size == size
-        {
+        if !draw_thumb || window_size <= 0.0 || size <= 0.0 || virtual_size <= window_size {
             return;
         }
 
@@ -330,7 +320,7 @@ impl ScrollBarRender {
         } else {
             0.0
         };
-        if window_size <= 0.0 || track_size == 0 || virtual_size == size || virtual_size <= 0.0 {
+        if window_size <= 0.0 || track_size == 0 {
             return (0, 0);
         }
 
-- 
2.43.0


From 692d093cce5bb87ea553b547a51b9407c93698a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:48 +0000
Subject: [PATCH 71/83] fix: containers with both scrollbars left the corner
 between them unpainted

---
 crates/textual/src/containers/container.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index e375b4c..4ea42b1 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -23,6 +23,7 @@ use crate::scroll::ScrollState;
 use crate::scrollbar::ScrollBarRender;
 use crate::segment::Style;
 use crate::widget::Widget;
+use crate::widget::scrollbar_corner::ScrollBarCorner;
 use crate::{KeyCode, MouseEvent, MouseEventKind};
 
 /// Cached layout computation result.
@@ -824,6 +825,20 @@ Container {
                 draw_thumb,
             );
         }
+
+        // 10. Fill the corner between the two scrollbars
+        if !is_hidden && self.render_vertical_scrollbar() && self.render_horizontal_scrollbar() {
+            let size = &self.style.scrollbar.size;
+            let corner_region = Region {
+                x: inner_region.x + inner_region.width - size.vertical as i32,
+                y: inner_region.y + inner_region.height - size.horizontal as i32,
+                width: size.vertical as i32,
+                height: size.horizontal as i32,
+            };
+            let mut corner = ScrollBarCorner::new(size.vertical, size.horizontal);
+            <ScrollBarCorner as Widget<M>>::set_style(&mut corner, self.style.clone());
+            <ScrollBarCorner as Widget<M>>::render(&corner, canvas, corner_region);
+        }
     }
 
     fn desired_size(&self) -> Size {
-- 
2.43.0


From 0a2638052f7a600f9bcc9003d79f94bd10732d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:33 +0000
Subject: [PATCH 72/83] fix: a stable scrollbar gutter of a container also kept
 a row free

---
 crates/textual/src/containers/container.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/containers/container.rs b/crates/textual/src/containers/container.rs
index 4ea42b1..558f71b 100644
--- a/crates/textual/src/containers/container.rs
+++ b/crates/textual/src/containers/container.rs
@@ -220,13 +220,16 @@ impl<M> Container<M> {
     /// Calculate content region with scrollbar space subtracted.
     fn content_region_for_scroll(&self, region: Region) -> Region {
         let style = &self.style.scrollbar;
-        let v_size = if self.show_vertical_scrollbar() || style.gutter == ScrollbarGutter::Stable {
+        // A stable gutter keeps space for a vertical scrollbar that may come, as in scrolling
+        // containers and the screen; it is never kept for a horizontal one
+        let v_size = if self.show_vertical_scrollbar()
+            || (style.gutter == ScrollbarGutter::Stable && self.style.overflow_y == Overflow::Auto)
+        {
             style.size.vertical as i32
         } else {
             0
         };
-        let h_size = if self.show_horizontal_scrollbar() || style.gutter == ScrollbarGutter::Stable
-        {
+        let h_size = if self.show_horizontal_scrollbar() {
             style.size.horizontal as i32
         } else {
             0
-- 
2.43.0


From 4b811cd0d4eafa85689ff3d62cc53d17524d4b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:27 +0000
Subject: [PATCH 73/83] fix: some mixed crosses and half lines were drawn with
 the mirrored character

---
 crates/textual/src/box_drawing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/textual/src/box_drawing.rs b/crates/textual/src/box_drawing.rs
index 13e9df5..b907407 100644
--- a/crates/textual/src/box_drawing.rs
+++ b/crates/textual/src/box_drawing.rs
@@ -114,8 +114,8 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     // Mixed cross junctions
     map.insert((1, 2, 1, 2), '┿'); // thin vertical, heavy horizontal
     map.insert((2, 1, 2, 1), '╂'); // heavy vertical, thin horizontal
-    map.insert((2, 2, 1, 2), '╈'); // heavy top/horizontal, thin bottom
-    map.insert((1, 2, 2, 2), '╇'); // thin top, heavy bottom/horizontal
+    map.insert((2, 2, 1, 2), '╇'); // heavy top/horizontal, thin bottom
+    map.insert((1, 2, 2, 2), '╈'); // thin top, heavy bottom/horizontal
     map.insert((2, 2, 2, 1), '╊'); // heavy top/bottom/right, thin left
     map.insert((2, 1, 2, 2), '╉'); // heavy top/bottom/left, thin right
 
@@ -130,12 +130,12 @@ static BOX_CHARACTERS: LazyLock<HashMap<Quad, char>> = LazyLock::new(|| {
     map.insert((2, 1, 0, 2), '┹'); // bottom T: heavy top/left, thin right
 
     // Half lines (for edge caps)
-    map.insert((0, 1, 0, 0), '╴'); // thin left half
-    map.insert((0, 0, 0, 1), '╶'); // thin right half
+    map.insert((0, 1, 0, 0), '╶'); // thin right half
+    map.insert((0, 0, 0, 1), '╴'); // thin left half
     map.insert((1, 0, 0, 0), '╵'); // thin top half
     map.insert((0, 0, 1, 0), '╷'); // thin bottom half
-    map.insert((0, 2, 0, 0), '╸'); // heavy left half
-    map.insert((0, 0, 0, 2), '╺'); // heavy right half
+    map.insert((0, 2, 0, 0), '╺'); // heavy right half
+    map.insert((0, 0, 0, 2), '╸'); // heavy left half
     map.insert((2, 0, 0, 0), '╹'); // heavy top half
     map.insert((0, 0, 2, 0), '╻'); // heavy bottom half
 
-- 
2.43.0


From 87b110ad41810e7644276c5f54623fbe48d21ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:47 +0000
Subject: [PATCH 74/83] fix: a placeholder's text was drawn over its padding
 and outside its box

---
 crates/textual/src/widget/placeholder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 27d73bc..e747472 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -368,6 +368,12 @@ Placeholder {
             if content_width <= 0 || content_height <= 0 {
                 return;
             }
+            canvas.push_clip(Region::new(
+                content_x,
+                content_y,
+                content_width,
+                content_height,
+            ));
             match self.variant {
                 PlaceholderVariant::Text => {
                     // Text variant: 1-cell padding on all sides, word wrap, block-centered
@@ -472,6 +478,7 @@ Placeholder {
                     }
                 }
             }
+            canvas.pop_clip();
         }
     }
 
-- 
2.43.0


From b6aacba9778030770ab51f9c89f15602cfc752ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:48 +0000
Subject: [PATCH 75/83] fix: a translucent placeholder background was applied
 twice behind the text

---
 crates/textual/src/widget/placeholder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index e747472..5cd136c 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -374,6 +374,7 @@ Placeholder {
                 content_width,
                 content_height,
             ));
+            // The background is already there, and may be translucent
             match self.variant {
                 PlaceholderVariant::Text => {
                     // Text variant: 1-cell padding on all sides, word wrap, block-centered
@@ -420,7 +421,7 @@ Placeholder {
                             y,
                             line,
                             Some(fg.clone()),
-                            Some(bg.clone()),
+                            None,
                             TextAttributes::default(),
                         );
                     }
@@ -436,7 +437,7 @@ Placeholder {
                         y,
                         content,
                         Some(fg),
-                        Some(bg),
+                        None,
                         TextAttributes {
                             bold: true,
                             ..Default::default()
@@ -472,7 +473,7 @@ Placeholder {
                             y,
                             line,
                             Some(fg.clone()),
-                            Some(bg.clone()),
+                            None,
                             TextAttributes::default(),
                         );
                     }
-- 
2.43.0


From 6290eb839259e5cce30c0c1326a111d761614d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:46 +0000
Subject: [PATCH 76/83] fix: an auto-sized placeholder had no room for all of
 its text

---
 crates/textual/src/widget/placeholder.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/textual/src/widget/placeholder.rs b/crates/textual/src/widget/placeholder.rs
index 5cd136c..9081d48 100644
--- a/crates/textual/src/widget/placeholder.rs
+++ b/crates/textual/src/widget/placeholder.rs
@@ -550,14 +550,22 @@ Placeholder {
         let padding_left = self.style.padding.left.value as u16;
         let padding_right = self.style.padding.right.value as u16;
 
-        let content_width = width.saturating_sub(padding_left + padding_right).max(1);
+        // The Text variant keeps one more cell free on every side (see render)
+        let text_padding = match self.variant {
+            PlaceholderVariant::Text => 1,
+            _ => 0,
+        };
+
+        let content_width = width
+            .saturating_sub(padding_left + padding_right + 2 * text_padding)
+            .max(1);
         let content = self
             .get_display_content(&Region::default())
             .unwrap_or_default();
         let lines = Self::word_wrap(&content, content_width as usize);
         let content_height = lines.len().max(1) as u16;
 
-        content_height + padding_top + padding_bottom
+        content_height + padding_top + padding_bottom + 2 * text_padding
     }
 
     fn get_meta(&self) -> WidgetMeta {
-- 
2.43.0


From 84706b0a3f0e057557d095308606b001b620cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:50 +0000
Subject: [PATCH 77/83] fix: a tall header stopped being tall when it was given
 classes

---
 crates/textual/src/widget/header.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/widget/header.rs b/crates/textual/src/widget/header.rs
index e23f7d6..bcd86da 100644
--- a/crates/textual/src/widget/header.rs
+++ b/crates/textual/src/widget/header.rs
@@ -636,7 +636,6 @@ pub struct Header<M: 'static> {
     inner: Container<M>,
     title: String,
     subtitle: Option<String>,
-    tall: bool,
     title_index: usize,
     _phantom: PhantomData<M>,
 }
@@ -661,7 +660,6 @@ impl<M: 'static> Header<M> {
             inner,
             title,
             subtitle: None,
-            tall: false,
             title_index: 1,
             _phantom: PhantomData,
         }
@@ -682,7 +680,12 @@ impl<M: 'static> Header<M> {
 
     /// Set CSS classes (space-separated).
     pub fn with_classes(mut self, classes: impl Into<String>) -> Self {
+        // Keep the tall style
+        let tall = self.is_tall();
         self.inner = self.inner.with_classes(classes);
+        if tall {
+            self.set_tall(true);
+        }
         self
     }
 
@@ -722,7 +725,7 @@ impl<M: 'static> Header<M> {
 
     /// Return whether the header is in tall mode.
     pub fn is_tall(&self) -> bool {
-        self.tall
+        self.inner.has_class("-tall")
     }
 
     fn refresh_title(&mut self) {
@@ -740,10 +743,6 @@ impl<M: 'static> Header<M> {
     }
 
     fn set_tall(&mut self, tall: bool) {
-        if self.tall == tall {
-            return;
-        }
-        self.tall = tall;
         if tall {
             self.inner.add_class("-tall");
         } else {
@@ -907,7 +906,12 @@ Header.-tall {
     }
 
     fn set_classes(&mut self, classes: &str) {
+        // Keep the tall style
+        let tall = self.is_tall();
         self.inner.set_classes(classes);
+        if tall {
+            self.set_tall(true);
+        }
     }
 
     fn classes(&self) -> Vec<String> {
-- 
2.43.0


From 4e25c44b2215bcc8b61e965b55e894ddb94f0e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 78/83] fix: two splats in a row did not compile in ui!

---
 crates/textual-macros/src/parse.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/textual-macros/src/parse.rs b/crates/textual-macros/src/parse.rs
index 9a86f72..07718aa 100644
--- a/crates/textual-macros/src/parse.rs
+++ b/crates/textual-macros/src/parse.rs
@@ -1,7 +1,7 @@
 //! DSL parsing for the ui! macro.
 
 use syn::{
-    Expr, Ident, Result, Token, braced, parenthesized,
+    Expr, ExprRange, Ident, RangeLimits, Result, Token, braced, parenthesized,
     parse::{Parse, ParseStream},
     token,
 };
@@ -41,15 +41,32 @@ pub struct NamedAttr {
 }
 
 /// Parse a child item - either a widget or splat expression (..expr).
-fn parse_child_item(input: ParseStream) -> Result<ChildItem> {
+fn parse_child_item(input: ParseStream, items: &mut Vec<ChildItem>) -> Result<()> {
     if input.peek(Token![..]) {
         // Splat: ..expr
         let _dotdot: Token![..] = input.parse()?;
         let expr: Expr = input.parse()?;
-        Ok(ChildItem::Splat(expr))
+        push_splats(expr, items);
     } else {
         // Regular widget
-        Ok(ChildItem::Widget(input.parse::<WidgetNode>()?))
+        items.push(ChildItem::Widget(input.parse::<WidgetNode>()?));
+    }
+    Ok(())
+}
+
+/// Two splats in a row (`..a ..b`) are parsed as the range `a..b`.
+fn push_splats(expr: Expr, items: &mut Vec<ChildItem>) {
+    match expr {
+        Expr::Range(ExprRange {
+            start: Some(start),
+            limits: RangeLimits::HalfOpen(_),
+            end: Some(end),
+            ..
+        }) => {
+            push_splats(*start, items);
+            push_splats(*end, items);
+        }
+        expr => items.push(ChildItem::Splat(expr)),
     }
 }
 
@@ -59,7 +76,7 @@ impl Parse for UiRoot {
 
         // Parse widgets and splats until input is exhausted
         while !input.is_empty() {
-            items.push(parse_child_item(input)?);
+            parse_child_item(input, &mut items)?;
         }
 
         if items.is_empty() {
@@ -93,7 +110,7 @@ impl Parse for WidgetNode {
             braced!(content in input);
             let mut child_items = Vec::new();
             while !content.is_empty() {
-                child_items.push(parse_child_item(&content)?);
+                parse_child_item(&content, &mut child_items)?;
             }
             children = Some(child_items);
         }
-- 
2.43.0


From 2cf81a9f891563b878a6e4afdc4327afbf1950f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 79/83] fix: a widget wrapped with impl_widget_delegation! or a
 Label lost its tooltip, actions and layout hooks

---
 crates/textual/src/macros.rs       | 26 +++++++++++++++++++++++++-
 crates/textual/src/widget/label.rs |  8 ++++++++
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/textual/src/macros.rs b/crates/textual/src/macros.rs
index b726f9c..1f287ab 100644
--- a/crates/textual/src/macros.rs
+++ b/crates/textual/src/macros.rs
@@ -47,7 +47,7 @@ macro_rules! impl_widget_delegation {
 
     // Full form with explicit type_name and default_css
     ($ty:ident<$m:ident> => $field:ident, type_name = $name:expr, default_css = $css:expr) => {
-        impl<$m> $crate::Widget<$m> for $ty<$m> {
+        impl<$m: 'static> $crate::Widget<$m> for $ty<$m> {
             fn render(&self, canvas: &mut $crate::Canvas, region: $crate::Region) {
                 self.$field.render(canvas, region)
             }
@@ -124,6 +124,10 @@ macro_rules! impl_widget_delegation {
                 self.$field.on_mouse_with_sender(event, region)
             }
 
+            fn blocks_mouse_events(&self) -> bool {
+                self.$field.blocks_mouse_events()
+            }
+
             fn set_hover(&mut self, is_hovered: bool) -> bool {
                 self.$field.set_hover(is_hovered)
             }
@@ -136,6 +140,10 @@ macro_rules! impl_widget_delegation {
                 self.$field.clear_hover()
             }
 
+            fn take_pending_action(&self) -> Option<String> {
+                self.$field.take_pending_action()
+            }
+
             fn is_focusable(&self) -> bool {
                 self.$field.is_focusable()
             }
@@ -144,6 +152,10 @@ macro_rules! impl_widget_delegation {
                 self.$field.is_visible()
             }
 
+            fn participates_in_layout(&self) -> bool {
+                self.$field.participates_in_layout()
+            }
+
             fn set_visible(&mut self, visible: bool) {
                 self.$field.set_visible(visible)
             }
@@ -176,6 +188,18 @@ macro_rules! impl_widget_delegation {
                 self.$field.focus_nth(n)
             }
 
+            fn tooltip(&self) -> Option<String> {
+                self.$field.tooltip()
+            }
+
+            fn set_tooltip(&mut self, tooltip: Option<String>) {
+                self.$field.set_tooltip(tooltip)
+            }
+
+            fn pre_layout(&mut self, layout: &mut dyn $crate::layouts::Layout) {
+                self.$field.pre_layout(layout)
+            }
+
             fn set_focus(&mut self, is_focused: bool) {
                 self.$field.set_focus(is_focused)
             }
diff --git a/crates/textual/src/widget/label.rs b/crates/textual/src/widget/label.rs
index a3d007d..0189c36 100644
--- a/crates/textual/src/widget/label.rs
+++ b/crates/textual/src/widget/label.rs
@@ -341,6 +341,14 @@ Label {
         self.inner.focus_nth(n)
     }
 
+    fn tooltip(&self) -> Option<String> {
+        self.inner.tooltip()
+    }
+
+    fn set_tooltip(&mut self, tooltip: Option<String>) {
+        self.inner.set_tooltip(tooltip)
+    }
+
     fn set_focus(&mut self, is_focused: bool) {
         self.inner.set_focus(is_focused)
     }
-- 
2.43.0


From 5c6a7d469cb670eadb77a9118b3d0b12772715cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:28 +0000
Subject: [PATCH 80/83] fix: a box sized auto around something that takes all
 there is was 65535 cells long or lost its margins

---
 crates/textual/src/layouts/grid.rs          |  5 ++++-
 crates/textual/src/layouts/horizontal.rs    |  9 ++++++++-
 crates/textual/src/layouts/mod.rs           |  9 +++++++--
 crates/textual/src/layouts/size_resolver.rs |  4 ++++
 crates/textual/src/layouts/vertical.rs      | 16 +++++++++++++---
 5 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/crates/textual/src/layouts/grid.rs b/crates/textual/src/layouts/grid.rs
index 815f1d6..f4670fb 100644
--- a/crates/textual/src/layouts/grid.rs
+++ b/crates/textual/src/layouts/grid.rs
@@ -736,7 +736,10 @@ impl Layout for GridLayout {
 
                             let child_height = if height_is_auto {
                                 // Auto height depends on width.
-                                child.node.intrinsic_height_for_width(child_width as u16) as i32
+                                match child.node.intrinsic_height_for_width(child_width as u16) {
+                                    u16::MAX => cell_region.height,
+                                    height => height as i32,
+                                }
                             } else {
                                 resolve_height_full(
                                     child_style,
diff --git a/crates/textual/src/layouts/horizontal.rs b/crates/textual/src/layouts/horizontal.rs
index d463655..f4e1fcc 100644
--- a/crates/textual/src/layouts/horizontal.rs
+++ b/crates/textual/src/layouts/horizontal.rs
@@ -236,7 +236,14 @@ impl Layout for HorizontalLayout {
                     Unit::Auto => {
                         // Auto means intrinsic height for the resolved width
                         let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
-                        child.node.intrinsic_height_for_width(width_u16) as i32
+                        match child.node.intrinsic_height_for_width(width_u16) {
+                            u16::MAX => {
+                                let margin = &child_style.margin;
+                                let margins = margin.top.value as i32 + margin.bottom.value as i32;
+                                (available.height - margins).max(0)
+                            }
+                            height => height as i32,
+                        }
                     }
                     Unit::Fraction => {
                         // fr fills available - no box-sizing adjustment
diff --git a/crates/textual/src/layouts/mod.rs b/crates/textual/src/layouts/mod.rs
index a51da81..435b05e 100644
--- a/crates/textual/src/layouts/mod.rs
+++ b/crates/textual/src/layouts/mod.rs
@@ -669,6 +669,11 @@ fn resolve_absolute_placement(
 
     let width_u16 = width.clamp(0, u16::MAX as i32) as u16;
 
+    let intrinsic_height = match child.node.intrinsic_height_for_width(width_u16) {
+        u16::MAX => available.height,
+        height => height as i32,
+    };
+
     let height = if let Some(h) = &style.height {
         let raw = match h.unit {
             Unit::Cells => h.value as i32,
@@ -678,7 +683,7 @@ fn resolve_absolute_placement(
             Unit::ViewWidth => (h.value * viewport.width as f64 / 100.0).round() as i32,
             Unit::ViewHeight => (h.value * viewport.height as f64 / 100.0).round() as i32,
             Unit::Fraction => available.height,
-            Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as i32,
+            Unit::Auto => intrinsic_height,
         };
         if h.unit == Unit::Auto {
             // The intrinsic height already includes border and padding
@@ -687,7 +692,7 @@ fn resolve_absolute_placement(
             size_resolver::apply_box_sizing_height(raw, style)
         }
     } else {
-        child.node.intrinsic_height_for_width(width_u16) as i32
+        intrinsic_height
     };
 
     let height = if let Some(max_h) = &style.max_height {
diff --git a/crates/textual/src/layouts/size_resolver.rs b/crates/textual/src/layouts/size_resolver.rs
index 01dfaca..39d0140 100644
--- a/crates/textual/src/layouts/size_resolver.rs
+++ b/crates/textual/src/layouts/size_resolver.rs
@@ -144,6 +144,8 @@ pub fn resolve_width_with_intrinsic(
         match width.unit {
             Unit::Cells => width.value as i32,
             Unit::Percent => (width.value * available_width as f64 / 100.0).round() as i32,
+            // Content of unbounded width takes what there is
+            Unit::Auto if intrinsic_width == u16::MAX => available_width,
             Unit::Auto => intrinsic_width as i32, // Use intrinsic, not fill!
             Unit::Fraction => available_width,    // fr units fill available space
             _ => width.value as i32,
@@ -227,6 +229,8 @@ pub fn resolve_height_full(
             Unit::Height => (height.value * available_height as f64 / 100.0).round() as i32,
             Unit::ViewWidth => (height.value * viewport_width as f64 / 100.0).round() as i32,
             Unit::ViewHeight => (height.value * viewport_height as f64 / 100.0).round() as i32,
+            // Content of unbounded height takes what there is
+            Unit::Auto if intrinsic_height == u16::MAX => available_height,
             Unit::Auto => intrinsic_height as i32,
             Unit::Fraction => available_height,
         }
diff --git a/crates/textual/src/layouts/vertical.rs b/crates/textual/src/layouts/vertical.rs
index c7a0b99..5b977f3 100644
--- a/crates/textual/src/layouts/vertical.rs
+++ b/crates/textual/src/layouts/vertical.rs
@@ -54,6 +54,8 @@ fn resolve_child_width(
         _ => base_width,
     };
     let should_reduce_by_margins = match &child_style.width {
+        // Content of unbounded width fills what there is
+        Some(w) if w.unit == Unit::Auto => desired_size.width == u16::MAX,
         Some(w) => matches!(
             w.unit,
             Unit::Percent
@@ -177,7 +179,7 @@ impl Layout for VerticalLayout {
             let margin_bottom = child_style.margin.bottom.value as f64;
             let child_width = resolve_child_width(child_style, desired_size, available, viewport);
             let width_u16 = child_width.clamp(0, u16::MAX as i32) as u16;
-            let intrinsic_height = child.node.intrinsic_height_for_width(width_u16) as f64;
+            let intrinsic_height = child.node.intrinsic_height_for_width(width_u16);
 
             // CSS margin collapsing
             let effective_top_margin = if i == 0 {
@@ -211,7 +213,12 @@ impl Layout for VerticalLayout {
                     Unit::ViewHeight => {
                         Some(height.value * viewport.height as f64 / 100.0 + chrome)
                     }
-                    Unit::Auto => Some(intrinsic_height),
+                    // Children of unbounded height - treat as 1fr
+                    Unit::Auto if intrinsic_height == u16::MAX => {
+                        total_fr += 1.0;
+                        None
+                    }
+                    Unit::Auto => Some(intrinsic_height as f64),
                 }
             } else if desired_size.height == u16::MAX {
                 // No CSS height but widget wants to fill - treat as 1fr
@@ -268,7 +275,10 @@ impl Layout for VerticalLayout {
                         // fr units use fraction_unit
                         h.value * fraction_unit
                     }
-                    Unit::Auto => child.node.intrinsic_height_for_width(width_u16) as f64,
+                    Unit::Auto => match child.node.intrinsic_height_for_width(width_u16) {
+                        u16::MAX => fraction_unit,
+                        height => height as f64,
+                    },
                     Unit::Cells => {
                         // Cells are exact integers
                         apply_box_sizing_height(h.value as i32, child_style) as f64
-- 
2.43.0


From ca5e2c86bb84692a2e371659656c1ad4270d2525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 81/83] fix: the command submitted with the palette's button
 only ran at the next event

---
 crates/textual/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 7de076a..55ff570 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -547,10 +547,19 @@ pub trait App {
                 self.bell();
             }
             "app.command_palette.submit" | "command_palette.submit" => {
-                let _ = ctx.query_one_as::<CommandPalette<Self::Message>, _, _>(
-                    "CommandPalette",
-                    |palette| palette.submit(),
-                );
+                // The submitted command is to run now: pending actions have been collected already
+                let action = ctx
+                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
+                        "CommandPalette",
+                        |palette| {
+                            palette.submit();
+                            Widget::<Self::Message>::take_pending_action(palette)
+                        },
+                    )
+                    .flatten();
+                if let Some(action) = action {
+                    self.dispatch_action(&action, ctx);
+                }
             }
             "app.command_palette" | "command_palette" => {
                 if Self::ENABLE_COMMAND_PALETTE {
-- 
2.43.0


From 8c3a96493ba11f2060d8fe62a5a4496cd1d47067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 82/83] fix: a search still running took the command palette's
 list back after a command was chosen

---
 crates/textual/src/widget/command_palette.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/textual/src/widget/command_palette.rs b/crates/textual/src/widget/command_palette.rs
index 39dcb64..26823c5 100644
--- a/crates/textual/src/widget/command_palette.rs
+++ b/crates/textual/src/widget/command_palette.rs
@@ -1541,6 +1541,8 @@ impl<M: 'static> CommandPalette<M> {
                 self.close_with_selected(true);
             }
         } else {
+            // What is still being searched for is not wanted any more
+            self.cancel_search();
             self.query = entry.text.clone();
             self.selected_action = entry.action;
             self.list_visible = false;
-- 
2.43.0


From 06efdd4da0d062d0cdf1543f85d737e41aa7365e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:06 +0000
Subject: [PATCH 83/83] fix: the focus did not come back when a message closed
 the command palette

---
 crates/textual/src/lib.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/crates/textual/src/lib.rs b/crates/textual/src/lib.rs
index 55ff570..dad5a1e 100644
--- a/crates/textual/src/lib.rs
+++ b/crates/textual/src/lib.rs
@@ -317,6 +317,17 @@ where
 {
     let mut needs_render = false;
 
+    // However the palette was closed, the focus goes back to the widget that had it
+    if let Some(restored) = tree
+        .query_one_as::<CommandPalette<M>, _, _>("CommandPalette", |palette| {
+            palette.take_restore_focus()
+        })
+        .flatten()
+    {
+        let _ = tree.set_focus_index(restored);
+        needs_render = true;
+    }
+
     if let Some(changed) = tree
         .query_one_as::<CommandPalette<M>, _, _>("CommandPalette", |palette| {
             palette.drain_updates()
@@ -1002,15 +1013,6 @@ pub trait App {
                                         self.dispatch_action(&action, &mut ctx);
                                     }
                                 }
-                                if let Some(restored) = tree
-                                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
-                                        "CommandPalette",
-                                        |palette| palette.take_restore_focus(),
-                                    )
-                                    .flatten()
-                                {
-                                    let _ = tree.set_focus_index(restored);
-                                }
                                 let _ = drain_command_palette(self, &mut tree, &tx);
                                 // Check if app wants tree rebuild (Elm-style)
                                 needs_recompose = self.needs_recompose();
@@ -1084,15 +1086,6 @@ pub trait App {
                                         self.dispatch_action(&action, &mut ctx);
                                     }
                                 }
-                                if let Some(restored) = tree
-                                    .query_one_as::<CommandPalette<Self::Message>, _, _>(
-                                        "CommandPalette",
-                                        |palette| palette.take_restore_focus(),
-                                    )
-                                    .flatten()
-                                {
-                                    let _ = tree.set_focus_index(restored);
-                                }
                                 let _ = drain_command_palette(self, &mut tree, &tx);
 
                                 // Tooltip handling: update pending tooltip on mouse move.
-- 
2.43.0

