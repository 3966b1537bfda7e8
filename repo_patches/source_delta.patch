From 215a4053a08f63beb21035e05fd27eba809c486b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:56 +0000
Subject: [PATCH 01/46] fix: LspFile maps positions on a last line without line
 break to the right byte

---
 crates/analyzer-core/src/lsp_file.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..13ff60f 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -80,6 +80,17 @@ impl LspFile {
 		slice.chars().count()
 	}
 
+	// byte position just after the last character of a line, not counting its line break
+	// (only the last line can be without one)
+	fn line_end(&self, line: usize) -> usize {
+		let last_byte = self.ranges[line];
+		if self.file.as_bytes()[last_byte] == b'\n' {
+			last_byte
+		} else {
+			last_byte + 1
+		}
+	}
+
 	pub fn lsp_to_byte(&self, lsp_pos: &Position) -> usize {
 		// O(1) time complexity
 		// file is empty
@@ -95,7 +106,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.file.slice(start_byte..self.line_end(lsp_pos.line)).unwrap_or("").chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -128,7 +139,7 @@ impl LspFile {
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.file.slice(byte_count..self.line_end(line)).unwrap_or("").chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
-- 
2.43.0


From 8cd45259cc43f3c382f4025fa664da5654d0b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 02/46] fix: Parser::apply_edit does not panic on an edit past
 the memoized columns

---
 crates/analyzer-core/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..f4a22cb 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -100,7 +100,11 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
 		// adjust the memo table: replace the affected range with empty entries
-		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
+		// (the table only reaches as far as the input has been matched)
+		if range.start < self.memo_table.len() {
+			let memoized = range.start..range.end.min(self.memo_table.len());
+			self.memo_table.splice(memoized, std::iter::repeat(Default::default()).take(r.len()));
+		}
 
 		// invalidate overlapping entries
 		for pos in 0..range.start {
-- 
2.43.0


From 9b48e324f47ebbd2cfd52111d4c927b9bcba4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 03/46] fix: Parser memoizes rules that examine no token
 without overflowing

---
 crates/analyzer-core/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index f4a22cb..de976e4 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -224,7 +224,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -236,7 +236,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From f6751137869dd8a6a876d02523d5342891ec5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:18 +0000
Subject: [PATCH 04/46] fix: a Content-Length beyond the stream is an error,
 not a failed allocation

---
 crates/analyzer-host/src/json_rpc.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..0965d09 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -4,7 +4,7 @@ use message::*;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::{
 	fmt::{self, Display},
-	io::{self, BufRead, Write},
+	io::{self, BufRead, Read, Write},
 };
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -114,9 +114,12 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 		}
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-	let mut buf = buf.into_bytes();
-	buf.resize(size, 0);
-	inp.read_exact(&mut buf)?;
+	// grow with what arrives: the stated length cannot be trusted
+	let mut buf = Vec::new();
+	inp.take(size as u64).read_to_end(&mut buf)?;
+	if buf.len() < size {
+		return Err(io::ErrorKind::UnexpectedEof.into());
+	}
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
 	// log::debug!("< {}", buf);?
 	Ok(Some(buf))
-- 
2.43.0


From 4659d3e84cc12a71bd80c51cbe4b56ea504a7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 05/46] fix: only one of several racing completions of a
 FutureCompletionSource succeeds

---
 crates/analyzer-abstractions/src/futures_extensions.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..da9532d 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -103,16 +103,15 @@ where
 
 	#[inline(always)]
 	fn set_inner_value(&self, result: Result<T, TError>) -> FutureCompletionSourceResult<()> {
-		let completed = self.state.completed.load(Ordering::Relaxed);
+		let mut writer = self.state.value.write().unwrap();
 
-		if completed {
+		// Checked while holding the lock: of several racing attempts only the first one completes.
+		if writer.is_some() {
 			return Err(FutureCompletionSourceError::Invalid);
 		}
 
 		// Store the result, set the `completed` state to true and then notify all those that are currently
 		// awaiting to resolve their 'Future'.
-		let mut writer = self.state.value.write().unwrap();
-
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 300995f13570fcfb3a65e0e9cad12f2c617be87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 06/46] fix: a completion between the check and the listener of
 a FutureCompletionSource's future is not missed

---
 crates/analyzer-abstractions/src/futures_extensions.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index da9532d..071ee35 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -74,7 +74,14 @@ where
 		}
 
 		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		let on_completed = self.state.on_completed.listen();
+
+		// The completion may have come before there was a listener to notify.
+		if let Poll::Ready(value) = self.state() {
+			return value;
+		}
+
+		on_completed.await; // Asynchronously wait for the on-completed event.
 
 		if let Poll::Ready(value) = self.state() {
 			return value;
-- 
2.43.0


From de6f19c1ebcd13f6793bcdab4686401c6237024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:04 +0000
Subject: [PATCH 07/46] fix: spawning or waking work while AsyncPool is stopped
 does not panic

---
 .../src/futures_extensions/async_extensions.rs              | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..478c87e 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -33,7 +33,8 @@ impl ArcWake for AsyncWork {
 		}
 		let cloned = arc_self.clone();
 
-		arc_self.sender.send_blocking(cloned).unwrap();
+		// The pool may be stopped in the meantime, in which case there is nothing left to wake.
+		let _ = arc_self.sender.send_blocking(cloned);
 	}
 }
 
@@ -86,6 +87,7 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
-		sender.send_blocking(work).unwrap();
+		// A stopped pool accepts no more work.
+		let _ = sender.send_blocking(work);
 	}
 }
-- 
2.43.0


From 34a3934e8baa7336661dd3fff0a8f93846c41d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 08/46] fix: integer literals are read with their own width,
 base and digits

A width that does not fit panicked, a width or base was taken from the
middle of the literal, and underscores between digits were rejected.
---
 crates/analyzer-core/src/lexer.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..e8abb41 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -160,7 +160,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			})
 			.unwrap_or(str);
 
-		lit.value = match i64::from_str_radix(str, lit.base as u32).ok() {
+		// underscores separate digits and have no meaning
+		lit.value = match i64::from_str_radix(&str.replace('_', ""), lit.base as u32).ok() {
 			Some(i) => i,
 			None => {
 				self.report(Severity::Error, "malformed integer literal");
@@ -357,7 +358,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
-		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
+		static ref BASE: Regex = Regex::new("^0([bBdDoOxX])").unwrap();
 	}
 
 	BASE.captures(str).map(|caps| {
@@ -375,19 +376,19 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 
 fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 	lazy_static! {
-		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
+		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
 
-	WIDTH.captures(str).map(|caps| {
+	WIDTH.captures(str).and_then(|caps| {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		let width = width.as_str().parse().ok()?;
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
 			_ => unreachable!(),
 		};
-		((width, signed), &str[sign.end()..])
+		Some(((width, signed), &str[sign.end()..]))
 	})
 }
-- 
2.43.0


From 80c72ca70b9c148d5ca473feb887944f31e312db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 09/46] fix: a line comment may end at the end of the text

---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index e8abb41..c5091e5 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -45,7 +45,7 @@ pub enum Token {
 	#[token(",")]
 	Comma,
 
-	#[regex("//[^\n]*\n")]
+	#[regex("//[^\n]*\n?")]
 	#[regex("/\\*", |lex| Lexer(lex).read_comment())]
 	Comment,
 
-- 
2.43.0


From 87559c7cbcf542be98586715beaa3990c6d22150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 10/46] fix: a directive's name is on the line of its #

A # at the end of a line made the next line's first word a directive.
---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index c5091e5..d7b1e57 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -126,7 +126,7 @@ pub enum Token {
 	#[token("(")]
 	OpenParen,
 
-	#[regex(r"#\s*\w+", |lex| Lexer(lex).read_directive())]
+	#[regex(r"#[ \t]*\w+", |lex| Lexer(lex).read_directive())]
 	PreprocessorDirective(PreprocessorDirective),
 
 	#[token(";")]
-- 
2.43.0


From e22bdb8f340b566bc557ed87271468872312600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 11/46] fix: a backslash in a macro escapes one character

Every macro whose text contained a backslash ended in a todo!() panic.
---
 crates/analyzer-core/src/lexer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index d7b1e57..d641d52 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -293,11 +293,17 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 			// FIXME: these escapes do not work for string literals
 			match (escape, ch) {
-				(true, Some(ch)) => rhs.push(ch),
+				(true, Some(ch)) => {
+					rhs.push(ch);
+					escape = false
+				}
 				(_, Some('\\')) => escape = true,
 				(_, Some('\n')) => break,
 				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
+				(true, None) => {
+					self.report(Severity::Error, "unfinished escape at the end of a macro");
+					return None;
+				}
 				(false, None) => break,
 			}
 		}
-- 
2.43.0


From be37c76793d173fa5e202c18316603105ee0b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 12/46] fix: #pragma does not panic

---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..e55c2ea 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -354,7 +354,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					// pragmas are for other tools, unknown ones are ignored
+					PreprocessorDirective::Pragma(_) => (),
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From 1afa51b1e8e7c1251ab8551eced5a3a70c79d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 13/46] fix: an include whose path cannot be resolved is not
 found, it does not panic

---
 crates/analyzer-core/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..7659b4a 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -49,7 +49,8 @@ pub trait Db: salsa::DbWithJar<Jar> {
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
 	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+		// a path that cannot be resolved is one that is not found
+		(self.resolver_fn)(&file_id.path(self), path).unwrap_or_else(|_| path.to_string())
 	}
 }
 
-- 
2.43.0


From 59557a76cc62176c174d82d05aa391a3275cfdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 14/46] fix: <= and >= are recognised in preprocessor
 expressions

The alternatives were tried in reverse, so "<" and ">" always won.
---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index e55c2ea..a991fcd 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -120,7 +120,8 @@ mod parser {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
-		for (sym, op) in variants {
+		// the variants are tried in their order, so wrap the last one first
+		for (sym, op) in variants.iter().rev() {
 			let sym: &'static str = sym;
 			let op = op.clone();
 			f = Rc::new(move |s| {
-- 
2.43.0


From 295e0a540a3a199f412ec0deb203a9e88fbc316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 15/46] fix: white space is allowed between defined and its
 parenthesis

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a991fcd..f13cf5e 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -107,7 +107,7 @@ mod parser {
 
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
-			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace0, tag("("))), ws(identifier), tag(")")),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
-- 
2.43.0


From 3aa4b8687b05c4d4cd3fc01ede630b46f262259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 16/46] fix: preprocessor expressions can be negated

The interpreter knew Not, the parser did not.
---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index f13cf5e..6a428fe 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -143,6 +143,7 @@ mod parser {
 		use PreprocessorExpression::*;
 		alt((
 			delimited(tag("("), exp12, tag(")")),
+			map(preceded(pair(tag("!"), multispace0), factor), |e| Not(e.into())),
 			map(terminated(defined, multispace0), |ident| Defined(ident.to_string())),
 			map(terminated(identifier, multispace0), |ident| Identifier(ident.to_string())),
 			map(terminated(integer, multispace0), IntLiteral),
-- 
2.43.0


From 62f5460b0314ddc76acb088c58ec80fd264cd821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 17/46] fix: arithmetic in preprocessor conditions follows C
 and does not panic

Overflow, division by zero and shifts out of range panicked, >> shifted the
wrong operand, && and || evaluated a right operand that does not matter.
---
 crates/analyzer-core/src/preprocessor.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 6a428fe..e313e2a 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -481,17 +481,24 @@ impl<'a> PreprocessorState<'a> {
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
 				let l = self.interpret_pp_expr(lhs)?;
+				// the right operand of && and || is evaluated only if it decides
+				match op {
+					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
+					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
+					_ => (),
+				}
 				let r = self.interpret_pp_expr(rhs)?;
 
+				// operations without a value (overflow, division by zero) give None
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
 					PreprocessorBinOp::Xor => l ^ r,
 					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
+					PreprocessorBinOp::Plus => l.checked_add(r)?,
+					PreprocessorBinOp::Minus => l.checked_sub(r)?,
+					PreprocessorBinOp::Times => l.checked_mul(r)?,
+					PreprocessorBinOp::Divide => l.checked_div(r)?,
+					PreprocessorBinOp::Modulo => l.checked_rem(r)?,
 					PreprocessorBinOp::Equals => (l == r) as i64,
 					PreprocessorBinOp::NotEquals => (l != r) as i64,
 					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
@@ -500,8 +507,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(r.try_into().ok()?)?,
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From 286333e7e1de81825586cb46ea2a1da16b5f6b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 18/46] fix: identifiers in preprocessor conditions stand for
 their value as in C

An identifier that is not defined is 0 and does not make the whole condition
false, and a macro that refers to itself does not overflow the stack.
---
 crates/analyzer-core/src/preprocessor.rs | 33 +++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index e313e2a..c2eabfc 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -468,26 +468,41 @@ impl<'a> PreprocessorState<'a> {
 	}
 
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.interpret_expanding(cond, &mut vec![])
+	}
+
+	/// Interprets an expression within the definitions of the macros `expanding`, which are not
+	/// expanded again.
+	fn interpret_expanding<'e>(
+		&'e self,
+		cond: &PreprocessorExpression,
+		expanding: &mut Vec<&'e str>,
+	) -> Option<PreprocessorValue> {
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
 			PreprocessorExpression::Identifier(name) => {
-				if let Some(rhs) = self.definitions.get(name) {
-					// TODO: avoid reparses?
-					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
-				} else {
-					None
+				match self.definitions.get_key_value(name) {
+					Some((name, rhs)) if !expanding.contains(&name.as_str()) => {
+						// TODO: avoid reparses?
+						let (_, expr) = expression(rhs).ok()?;
+						expanding.push(name);
+						let value = self.interpret_expanding(&expr, expanding);
+						expanding.pop();
+						value
+					}
+					// an identifier that is not a macro, or not any more, is 0
+					_ => Some(0),
 				}
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
+				let l = self.interpret_expanding(lhs, expanding)?;
 				// the right operand of && and || is evaluated only if it decides
 				match op {
 					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
 					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
 					_ => (),
 				}
-				let r = self.interpret_pp_expr(rhs)?;
+				let r = self.interpret_expanding(rhs, expanding)?;
 
 				// operations without a value (overflow, division by zero) give None
 				Some(match op {
@@ -511,7 +526,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
+			PreprocessorExpression::Not(inner) => Some((self.interpret_expanding(inner, expanding)? == 0) as i64),
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From c28b9519e442cc271b7120a9b576eac141cdc9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:14 +0000
Subject: [PATCH 19/46] fix: the tokens of an included file are preprocessed in
 their order

---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index c2eabfc..38d5de3 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -301,6 +301,7 @@ impl<'a> PreprocessorState<'a> {
 							input.reserve(input.len() + tokens.len());
 							tokens
 								.iter()
+								.rev()
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
 								.for_each(|x| input.push_front(x));
-- 
2.43.0


From 31cf0136fc0a780ba5ee4c2186b71556ed6cc7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 20/46] fix: only an include of a file that is being included
 is recursive

Including a file a second time was reported as recursive, and the file being
preprocessed could include itself once.
---
 crates/analyzer-core/src/preprocessor.rs | 30 +++++++++---------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 38d5de3..323138e 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -242,7 +242,8 @@ pub type ResolvedToken = (FileId, PreprocessorDirective, Span);
 pub struct PreprocessorState<'a> {
 	definitions: HashMap<String, String>,
 	pub errors: Vec<((FileId, Span), String)>, // TODO: we should do better than strings here
-	state: HashMap<FileId, VertexState>,
+	/// The files being included, each with the number of tokens that follow its own in the input.
+	open: Vec<(FileId, usize)>,
 	/// A stack of branches for conditional compilation.
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
@@ -252,12 +253,6 @@ pub struct PreprocessorState<'a> {
 
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
-enum VertexState {
-	Open,
-	Closed,
-}
-
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
 		to_id: Idlyzer,
@@ -266,7 +261,7 @@ impl<'a> PreprocessorState<'a> {
 		PreprocessorState {
 			definitions: Default::default(),
 			errors: vec![],
-			state: Default::default(),
+			open: vec![],
 			conditional_stack: vec![],
 			lex: Box::new(lex),
 			to_id: Box::new(to_id),
@@ -278,15 +273,12 @@ impl<'a> PreprocessorState<'a> {
 
 	pub fn preprocess(&mut self, input: &mut VecDeque<(FileId, Token, Span)>) -> Vec<(FileId, Token, Span)> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
-		let mut previous_file = None;
 
-		while let Some((id, tk, span)) = input.pop_front() {
-			if let Some(file) = previous_file {
-				if file != id {
-					self.state.insert(file, VertexState::Closed);
-				}
-			}
+		if let Some((id, _, _)) = input.front() {
+			self.open.push((*id, 0));
+		}
 
+		while let Some((id, tk, span)) = input.pop_front() {
 			match tk {
 				Token::PreprocessorDirective(directive) => match directive {
 					PreprocessorDirective::Include(_, path) => {
@@ -294,10 +286,12 @@ impl<'a> PreprocessorState<'a> {
 						let not_found_err = format!("Could not find {path}");
 
 						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
-						if self.state.get(&file_id).is_some() {
+						// files that end before this directive can be included again
+						self.open.retain(|(_, rest)| input.len() >= *rest);
+						if self.open.iter().any(|(file, _)| *file == file_id) {
 							self.error(id, span, recursive_err);
 						} else if let Some(tokens) = (self.lex)(file_id) as Option<&Vec<(Token, Span)>> {
-							self.state.insert(file_id, VertexState::Open);
+							self.open.push((file_id, input.len()));
 							input.reserve(input.len() + tokens.len());
 							tokens
 								.iter()
@@ -374,8 +368,6 @@ impl<'a> PreprocessorState<'a> {
 				},
 				_ => result.push((id, tk, span)),
 			}
-
-			previous_file = Some(id);
 		}
 
 		self.check_empty_cond_stack();
-- 
2.43.0


From 978996b566000794372e22b145c4f0de3f543e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:34 +0000
Subject: [PATCH 21/46] fix: an #elif after an #else, and one outside any #if,
 are reported as what they are

A second #else was not reported either if there was an #elif in between.
---
 crates/analyzer-core/src/preprocessor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 323138e..f752326 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -312,6 +312,9 @@ impl<'a> PreprocessorState<'a> {
 					}
 					ref dir @ PreprocessorDirective::ElseIf(ref cond) => {
 						if let Some((tk, mut branches, already_processed)) = self.conditional_stack.pop() {
+							if branches.iter().any(|(_, branch, _)| *branch == PreprocessorDirective::Else) {
+								self.error(id, span.clone(), "An #elif cannot follow an #else".to_string())
+							}
 							branches.push((id, dir.clone(), span));
 							let include_body = match () {
 								_ if already_processed => false, // a previous #if or #elif already matched
@@ -323,12 +326,12 @@ impl<'a> PreprocessorState<'a> {
 								self.skip_conditional_directive(input)
 							}
 						} else {
-							self.error(id, span, "An #elif cannot follow an #else".to_string())
+							self.error(id, span, "Dangling #elif".to_string())
 						}
 					}
 					dir @ PreprocessorDirective::Else => {
 						if let Some((tk, mut branches, already_processed)) = self.conditional_stack.pop() {
-							if let Some((_, PreprocessorDirective::Else, _)) = branches.last() {
+							if branches.iter().any(|(_, branch, _)| *branch == PreprocessorDirective::Else) {
 								self.error(id, span.clone(), "This conditional already has an #else".to_string())
 							}
 							branches.push((id, dir, span));
-- 
2.43.0


From bcb2d990b591f710eaef77a805b7887b97ff2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:44 +0000
Subject: [PATCH 22/46] fix: a request with invalid parameters is answered with
 an error

---
 crates/analyzer-host/src/lsp/dispatch_target.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..0b04e86 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,18 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(err) => {
+						error!(method = method, "Invalid parameters for request '{}': {}", method, err);
+
+						let message = "The parameters of the request are invalid.";
+						let response =
+							Response::new_error(request.id.clone(), ErrorCode::InvalidParams as i32, message);
+
+						return Ok((Some(Message::Response(response)), current_state));
+					}
+				};
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From 09d03c45b6b9a8ea55836efa783e269698d4de43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 23/46] fix: a failed initialize leaves nothing behind, so that
 it can be tried again

---
 .../src/lsp_impl/active_uninitialized.rs      | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..28dec4c 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -49,6 +49,17 @@ async fn on_initialize(
 	params: InitializeParams,
 	state: Arc<AsyncRwLock<State>>,
 ) -> HandlerResult<InitializeResult> {
+	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
+	// Nothing is initialized if the client does not support that capability: it may try again.
+	let watched_files_supported =
+		params.capabilities.workspace.map_or(false, |value| value.did_change_watched_files != None);
+
+	if params.workspace_folders.is_some() && !watched_files_supported {
+		return Err(
+			HandlerError::new(
+				"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."));
+	}
+
 	initialize_client_dependant_state(state.clone(), params.workspace_folders, params.capabilities.window).await;
 
 	let state = state.read().await;
@@ -58,22 +69,8 @@ async fn on_initialize(
 		state.set_trace_value(trace_value);
 	}
 
-	// If the server has been started without any workspace context, then simply return our 'default' capability.
-	if !state.has_workspaces() {
-		return Ok(create_initialize_result(false));
-	}
-
-	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
-	// If the client supports that capability, then start indexing
-	match params.capabilities.workspace {
-		Some(capabilities)
-			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),
-		_ => {
-			Err(
-				HandlerError::new(
-					"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
-		}
-	}
+	// If the server has been started without any workspace context, then this is simply our 'default' capability.
+	Ok(create_initialize_result(state.has_workspaces()))
 }
 
 /// Responds to an 'exit' notification from the LSP client.
-- 
2.43.0


From b4dd3230784d2d7236cd78943b201e23962f89fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:53 +0000
Subject: [PATCH 24/46] fix: the server ends when the client's messages do, it
 does not spin

---
 crates/analyzer-host/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..24b8b94 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -157,6 +157,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
-- 
2.43.0


From 90570a5d21752ce6b9052ef8a8f603f0c97e1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:49 +0000
Subject: [PATCH 25/46] fix: a message that arrives while the server stops does
 not panic

---
 crates/analyzer-host/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 24b8b94..f53b36e 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -99,10 +99,18 @@ impl AnalyzerHost {
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
-				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
-				},
+				Ok(message) => {
+					let forwarded = match message {
+						Message::Response(_) => responses_sender.send(message).await,
+						_ => requests_sender.send(message).await,
+					};
+
+					// The protocol machine stops listening once it has processed an 'exit' notification.
+					if let Err(err) = forwarded {
+						error!("Received a message after the server stopped: {}", err);
+						break;
+					}
+				}
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
 					break;
-- 
2.43.0


From c7f4b364dc6b072f760945f01af778a6a7269d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 26/46] fix: requests still awaited when the responses end are
 failed, not awaited forever

---
 crates/analyzer-host/src/lsp/request.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..2faaa31 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,6 +88,11 @@ impl RequestManager {
 			}
 		}
 
+		// Nothing can respond to the requests that are still awaited.
+		for (_, active_request) in self.awaiting_requests.write().await.drain() {
+			active_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
+		}
+
 		return Err(OperationCanceled);
 	}
 
@@ -180,7 +185,8 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
-		if let Err(_) = self.requests.send(Message::Request(request)).await {
+		// If the responses have ended then so has RequestManager::start().
+		if self.responses.is_closed() || self.requests.send(Message::Request(request)).await.is_err() {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
 			return Err(LspProtocolError::TransportError);
-- 
2.43.0


From 2773954d90bb0e709685937e10b30535e4500bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:42 +0000
Subject: [PATCH 27/46] fix: copies of the request manager do not reuse each
 other's request ids

---
 crates/analyzer-host/src/lsp/request.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index 2faaa31..595a264 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>,
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -211,12 +211,12 @@ impl RequestManager {
 }
 
 impl Clone for RequestManager {
-	/// Returns a copy of the [`RequestManager`].
+	/// Returns a copy of the [`RequestManager`]. Copies share the requests that are awaited, and so the ids of requests.
 	fn clone(&self) -> Self {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(),
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From fe3d76a9143c0e8db3a5ef3c4ce46fb26c3910ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:27 +0000
Subject: [PATCH 28/46] fix: without a file system of its own the server uses
 the client's

---
 crates/analyzer-host/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index f53b36e..60a71c8 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,7 +65,7 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system.clone(),
 		));
 
 		match join_all(
-- 
2.43.0


From 5a8547fb70ba3820c14109334a1d1ef058536df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:27 +0000
Subject: [PATCH 29/46] fix: workspaces are indexed when the client refuses
 progress

---
 crates/analyzer-host/src/lsp/workspace.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..b8ecff3 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -104,15 +104,27 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// Workspaces are indexed even if the client refuses to show the progress of it.
+		let progress = match progress.begin("Indexing").await {
+			Ok(progress) => Some(progress),
+			Err(err) => {
+				error!("Failed to report the progress of indexing: {}", err);
+
+				None
+			}
+		};
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				progress.report(&format!("{}", workspace)).await.unwrap_or_default();
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			progress.end(None).await.unwrap_or_default();
+		}
 	}
 }
 
-- 
2.43.0


From 7ff9e1b2ec47f4e2f2caa7a1150730263d6af4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 30/46] fix: a file belongs to the innermost folder that
 contains it, one outside every folder is served

---
 crates/analyzer-host/src/lsp/workspace.rs | 45 ++++++++++++++++-------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index b8ecff3..b41aad3 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// The 'catch-all' workspace for files that no workspace folder contains. It is not indexed.
+	catch_all: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -56,8 +59,12 @@ impl WorkspaceManager {
 			|folders| (true, folders),
 		);
 
+		let catch_all_folder = WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() };
+		let (_, catch_all) = to_workspace(file_system.clone(), catch_all_folder, background_load.clone());
+
 		Self {
 			has_workspaces,
+			catch_all,
 			workspaces: workspace_folders
 				.into_iter()
 				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
@@ -71,29 +78,41 @@ impl WorkspaceManager {
 	/// Retrieves a file from a workspace.
 	///
 	/// [`WorkspaceManager::get_file`] will always return a [`File`] for `uri`. It does this because requests for
-	/// files may be made in contexts in which no workspace folders were opened. If this is the case, then the file will
-	/// be retrieved relative to the 'catch-all' workspace which is not indexed.
+	/// files may be made in contexts in which no workspace folders were opened, or for files outside of them. If this is
+	/// the case, then the file will be retrieved relative to the 'catch-all' workspace which is not indexed. If workspace
+	/// folders are nested, then the file belongs to the innermost one.
 	///
 	/// The overall state of the file can be determined from its [`File::get_parsed_unit`] method which will
 	/// inform its final state.
 	pub fn get_file(&self, uri: Url) -> Arc<File> {
-		fn is_descendant_path(base: &Url, target: &Url) -> bool {
-			if let Some(relative) = base.make_relative(target) {
-				return !relative.starts_with("..");
+		/// The segments of the path of a folder, whether its URL ends with a '/' or not.
+		fn folder_segments(folder: &Url) -> Option<Vec<&str>> {
+			let mut segments = folder.path_segments()?.collect::<Vec<_>>();
+
+			if let Some(&"") = segments.last() {
+				segments.pop();
 			}
 
-			false
+			Some(segments)
 		}
 
-		// If not initialized with any workspace folders, then the path should always be a descendant of the
-		// 'catch-all' workspace.
-		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
-			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
+		fn is_descendant_path(folder: &Url, target: &Url) -> bool {
+			if folder.scheme() != target.scheme() || folder.authority() != target.authority() {
+				return false;
+			}
+
+			match (folder_segments(folder), target.path_segments()) {
+				(Some(folder), Some(target)) => target.collect::<Vec<_>>().starts_with(&folder),
+				_ => false,
 			}
 		}
+
+		(&self.workspaces)
+			.into_iter()
+			.filter(|(workspace_uri, _)| is_descendant_path(workspace_uri, &uri))
+			.max_by_key(|(workspace_uri, _)| folder_segments(workspace_uri).map_or(0, |segments| segments.len()))
+			.map_or(&self.catch_all, |(_, workspace)| workspace)
+			.get_file(uri)
 	}
 
 	/// Asynchronously indexes the contents of each [`Workspace`].
-- 
2.43.0


From 7331024b2f1232c828437e33466d0d1dc7831e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 31/46] fix: a save of a document that was never opened does
 not panic

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..b22aac5 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -213,9 +213,9 @@ async fn on_text_document_did_save(
 
 		info!("Syncing buffer on save.");
 		let file_id = analyzer.file_id(params.text_document.uri.as_str());
-		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
-		// TODO: report diagnostics, and process *after* the update below!
 		analyzer.update(file_id, &text);
+		let diagnostics = process_diagnostics(&analyzer, file_id, &text);
+		// TODO: report diagnostics
 		file.open_or_update(file_id);
 	}
 
-- 
2.43.0


From 27c1100ad21d35eff913e8bd0d00cda8d2beeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 32/46] fix: a file event of an unknown type does not end the
 server

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index b22aac5..7363066 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -275,7 +275,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(uri = event.uri.as_str(), "File change type not supported in 3.17 specification"),
 		}
 	}
 
-- 
2.43.0


From 4c19cd5a251cffd9eaea7dbb01d2661d51ede7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:56 +0000
Subject: [PATCH 33/46] fix: a file that could not be found is loaded once it
 is created

---
 .../src/lsp_impl/active_initialized.rs        | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 7363066..622f224 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -239,17 +239,17 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	match file.get_parsed_unit().await {
-		Ok(file_id) => {
-			let lock = state.write().await;
-			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
-			lock.analyzer.unwrap().update(file_id, &content);
-			info!("{} file updated from file system", uri.path());
-		}
-		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
-		}
+	// Let a load that is in progress complete first. That the file could not be found then doesn't matter now.
+	if let Err(err) = file.get_parsed_unit().await {
+		info!("{} file was not loaded before: {}", uri.path(), err);
 	}
+
+	let lock = state.write().await;
+	let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
+	let file_id = lock.analyzer.unwrap().file_id(uri.as_str());
+	lock.analyzer.unwrap().update(file_id, &content);
+	file.set_parsed_unit(file_id, None);
+	info!("{} file updated from file system", uri.path());
 }
 
 async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
-- 
2.43.0


From 8a7a2d5ea315f79da9d25c2abbbb66d01de0f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:25 +0000
Subject: [PATCH 34/46] fix: a file opened while it is looked for in vain stays
 open

---
 crates/analyzer-host/src/lsp_impl/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..2017dec 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -223,7 +223,9 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
-							None => file.set_index_error(IndexError::NotFound), // The file was not found
+							// The file was not found. That doesn't matter if it has been opened in the IDE in the meantime.
+							None if file.is_open_in_ide() => return,
+							None => file.set_index_error(IndexError::NotFound),
 						}
 
 						info!(file_uri = file_url.as_str(), "Finished background analyzing.");
-- 
2.43.0


From 16033640fcb530c7e226f29b4db7100a551c3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:43 +0000
Subject: [PATCH 35/46] fix: a load in progress does not bring back a file that
 was deleted

---
 .../src/lsp_impl/active_initialized.rs              | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 622f224..cbbf358 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -261,7 +261,18 @@ async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		return; // we don't need to query filesystem
 	}
 
-	state.write().await.analyzer.unwrap().delete(uri.as_str());
+	// A load that is in progress may have got hold of the contents before the file was deleted, and complete only now.
+	// Look at the file again, after that load.
+	let lock = state.write().await;
+
+	if let Some(content) = lock.file_system.file_contents(uri.clone()).await {
+		let file_id = lock.analyzer.unwrap().file_id(uri.as_str());
+		lock.analyzer.unwrap().update(file_id, &content);
+		file.set_parsed_unit(file_id, None);
+		return; // it has been created again
+	}
+
+	lock.analyzer.unwrap().delete(uri.as_str());
 	info!("{} file deleted from file system", uri.path());
 }
 
-- 
2.43.0


From c9f36f01f068654cf687da5abfcd03617b43208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:07 +0000
Subject: [PATCH 36/46] fix: an include whose path cannot be resolved does not
 end the server

---
 crates/analyzer-host/src/lsp_impl/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 2017dec..51afbf5 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -50,7 +50,12 @@ impl AnalyzerWrapper {
 				}
 			}
 		};
-		let require = move |file_path: &str| background_queue.enqueue(Url::parse(file_path).unwrap());
+		let require = move |file_path: &str| {
+			// A path that could not be resolved leads to no file.
+			if let Ok(file_url) = Url::parse(file_path) {
+				background_queue.enqueue(file_url);
+			}
+		};
 
 		Self {
 			inner: RefCell::new(analyzer_core::Analyzer::new(resolve_path, require)),
-- 
2.43.0


From a0d6e8207b29ca9d0a9f46438a86d43feebf7ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:34 +0000
Subject: [PATCH 37/46] fix: The console driver closes the input channel when
 the input ends

Nobody closed it, so the analyzer host kept waiting for messages (and the
server kept running) after its client was gone.
---
 crates/p4-analyzer/src/driver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index cda0124..be7a006 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -73,6 +73,9 @@ impl Driver {
 				break;
 			}
 		}
+
+		// No more messages will arrive: let the analyzer host know, otherwise it would wait for them indefinitely.
+		sender.close();
 	}
 
 	fn receiver_task(receiver: Receiver<Message>, output_source: DriverType) {
-- 
2.43.0


From 6efea3a986123be7355708c9590443d377dd10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:34 +0000
Subject: [PATCH 38/46] fix: Clearing the message buffer while the driver reads
 does not panic

---
 crates/p4-analyzer/src/driver/buffer_driver.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/p4-analyzer/src/driver/buffer_driver.rs b/crates/p4-analyzer/src/driver/buffer_driver.rs
index 16e4ef9..342ec67 100644
--- a/crates/p4-analyzer/src/driver/buffer_driver.rs
+++ b/crates/p4-analyzer/src/driver/buffer_driver.rs
@@ -63,8 +63,10 @@ impl BufferStruct {
 					// now wait for data lock because we're been give the all clear
 					let mut lock = self.data.write().unwrap();
 
-					let ret = Some(lock.input_queue.remove().unwrap());
-					return Ok(ret);
+					// the queue may have been cleared since its size was checked
+					if let Ok(message) = lock.input_queue.remove() {
+						return Ok(Some(message));
+					}
 				}
 				Err(_) => async_std::task::sleep(Duration::from_millis(1)).await, // couldn't get lock, so wait
 			}
-- 
2.43.0


From e546933e2ecbe1808293a3cf880e06529fa54c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:04 +0000
Subject: [PATCH 39/46] fix: The native file system survives folders, files and
 URIs it cannot read

URIs that are not of a local file, files that are not UTF-8 and folders that
cannot be listed ended the server or were printed to the standard output,
which carries the LSP messages; a folder whose name holds a glob character
was taken for a pattern, and folders were listed as files.
---
 crates/p4-analyzer/src/native_fs.rs | 57 ++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index e63d65e..d29c458 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -2,9 +2,10 @@ pub mod native_fs {
 	use analyzer_abstractions::{
 		fs::{AnyEnumerableFileSystem, EnumerableFileSystem},
 		lsp_types::{TextDocumentIdentifier, Url},
+		tracing::error,
 		BoxFuture,
 	};
-	use glob::glob;
+	use glob::{glob, Pattern};
 
 	pub struct NativeFs {}
 
@@ -20,18 +21,40 @@ pub mod native_fs {
 			file_pattern: String,
 		) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
 			async fn enumerate_folder(folder_uri: Url, file_pattern: String) -> Vec<TextDocumentIdentifier> {
-				let mut folder_uri = folder_uri.clone();
-				folder_uri.path_segments_mut().unwrap().push(&file_pattern);
+				let folder_path = match folder_uri.to_file_path() {
+					Ok(path) => path,
+					Err(_) => {
+						error!(folder_uri = folder_uri.as_str(), "Not a folder of the local file system.");
+						return vec![];
+					}
+				};
+				let folder_path = match folder_path.to_str() {
+					Some(path) => path,
+					None => {
+						error!(folder_uri = folder_uri.as_str(), "The path of the folder is not valid UTF-8.");
+						return vec![];
+					}
+				};
 
-				let glob_pattern = folder_uri.to_file_path().unwrap();
-				let glob_pattern = glob_pattern.to_str().unwrap();
+				// Only `file_pattern` is a pattern: the path of the folder is to be taken literally.
+				let glob_pattern = format!("{}/{}", Pattern::escape(folder_path.trim_end_matches('/')), file_pattern);
+
+				let files = match glob(&glob_pattern) {
+					Ok(files) => files,
+					Err(err) => {
+						error!(file_pattern = file_pattern.as_str(), "Failed to read glob pattern. {}", err);
+						return vec![];
+					}
+				};
 
 				let mut output = Vec::new();
 
-				for files in glob(glob_pattern).expect("Failed to read glob pattern") {
-					match files {
+				for file in files {
+					match file {
+						Ok(path) if path.is_dir() => {}
 						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
-						Err(e) => println!("{:?}", e),
+						// The standard output carries the messages for the LSP client, so nothing can be printed.
+						Err(err) => error!(folder_uri = folder_uri.as_str(), "Failed to enumerate folder. {}", err),
 					}
 				}
 
@@ -43,12 +66,20 @@ pub mod native_fs {
 
 		fn file_contents<'a>(&'a self, file_uri: Url) -> BoxFuture<'a, Option<String>> {
 			async fn file_contents(file_uri: Url) -> Option<String> {
-				let path = file_uri.to_file_path().unwrap();
-
-				let data = tokio::fs::read(path).await;
+				let path = match file_uri.to_file_path() {
+					Ok(path) => path,
+					Err(_) => {
+						error!(file_uri = file_uri.as_str(), "Not a file of the local file system.");
+						return None;
+					}
+				};
 
-				match data {
-					Ok(data) => Some(String::from_utf8(data).unwrap()),
+				match tokio::fs::read(path).await.map(String::from_utf8) {
+					Ok(Ok(contents)) => Some(contents),
+					Ok(Err(err)) => {
+						error!(file_uri = file_uri.as_str(), "Failed to retrieve file contents. {}", err);
+						None
+					}
 					Err(_) => None,
 				}
 			}
-- 
2.43.0


From 6527d44d248e694efa799317c6aa5086f5906504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:19 +0000
Subject: [PATCH 40/46] fix: Resolve the path of an include relative to the
 file it stands in

---
 crates/analyzer-core/src/lib.rs          |  8 ++++----
 crates/analyzer-core/src/preprocessor.rs | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7659b4a..c01b898 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -242,11 +242,11 @@ pub fn lex(db: &dyn crate::Db, file_id: FileId, buf: Buffer) -> LexedBuffer {
 
 #[salsa::tracked(return_ref)]
 pub fn preprocess(db: &dyn crate::Db, fs: Fs, file_id: FileId) -> Option<Vec<(FileId, Token, Span)>> {
-	let mut pp = PreprocessorState::new(
-		|path: &str| {
-			// Return a `FileId` with an absolute path resolved relative to the file being preprocessed. If the path
+	let mut pp = PreprocessorState::with_base(
+		|including, path: &str| {
+			// Return a `FileId` with an absolute path resolved relative to the file that includes it. If the path
 			// is already absolute then `resolve_path` will return it as is.
-			FileId::new(db, db.resolve_path(file_id, path))
+			FileId::new(db, db.resolve_path(including, path))
 		},
 		|file_id| {
 			let lexemes = fs.fs(db).get(&file_id).map(|&buf| {
diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index f752326..7eac53d 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -248,13 +248,24 @@ pub struct PreprocessorState<'a> {
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
 	lex: Box<LexFn<'a>>,
-	to_id: Box<dyn FnMut(&str) -> FileId + 'a>,
+	to_id: Box<dyn FnMut(FileId, &str) -> FileId + 'a>,
 }
 
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
 
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
+		mut to_id: Idlyzer,
+		lex: FLex,
+	) -> PreprocessorState<'a> {
+		Self::with_base(move |_, path| to_id(path), lex)
+	}
+
+	/// Like [`PreprocessorState::new`], but `to_id` is also given the file that includes the path.
+	pub fn with_base<
+		Idlyzer: FnMut(FileId, &str) -> FileId + 'a,
+		FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a,
+	>(
 		to_id: Idlyzer,
 		lex: FLex,
 	) -> PreprocessorState<'a> {
@@ -285,7 +296,7 @@ impl<'a> PreprocessorState<'a> {
 						let recursive_err = format!("Recursive import of {path}");
 						let not_found_err = format!("Could not find {path}");
 
-						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
+						let file_id = (self.to_id)(id, &path); // TODO: path resolution here or in to_id
 						// files that end before this directive can be included again
 						self.open.retain(|(_, rest)| input.len() >= *rest);
 						if self.open.iter().any(|(file, _)| *file == file_id) {
-- 
2.43.0


From bbdcf8f8f080b7bc60420d0b339a01e04bbe8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 41/46] fix: end the background work before the pool that runs
 it, so that a server that has ended can be dropped

---
 crates/analyzer-host/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 60a71c8..b43b5c6 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -173,6 +173,9 @@ impl AnalyzerHost {
 		self.sender.close();
 		self.receiver.close();
 		requests_receiver.close();
+
+		// The state's background work has to end while the pool can still run it.
+		self.protocol_machine.write().await.take();
 		AsyncPool::stop();
 
 		if cancel_token.is_canceled() {
-- 
2.43.0


From 7d19c4785e0f32e37c3c8b93bdbc9014143296c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 42/46] fix: write one document per file, even if several of
 the folders contain it

---
 crates/lsif-p4/src/lsif_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/lsif-p4/src/lsif_writer.rs b/crates/lsif-p4/src/lsif_writer.rs
index d15787c..311e951 100644
--- a/crates/lsif-p4/src/lsif_writer.rs
+++ b/crates/lsif-p4/src/lsif_writer.rs
@@ -59,6 +59,11 @@ impl LsifWriter {
 	}
 
 	pub fn document(&mut self, url: &Url) -> i32 {
+		// A file below several of the given folders is still a single document.
+		if let Some(id) = self.data.files.get(url) {
+			return *id;
+		}
+
 		let new_id = self.get_id();
 		let id = Self::i32_to_enum(new_id);
 
-- 
2.43.0


From 1c9fff07c3cca447f136b274d1f6f71e3184cc20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:55:42 +0000
Subject: [PATCH 43/46] fix: ask the client for the documents that are opened
 and closed

---
 crates/analyzer-host/src/lsp_impl/active_uninitialized.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 28dec4c..4c8ebb1 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -112,6 +112,7 @@ fn create_initialize_result(include_workspace_folders: bool) -> InitializeResult
 	InitializeResult {
 		capabilities: ServerCapabilities {
 			text_document_sync: Some(TextDocumentSyncCapability::Options(TextDocumentSyncOptions {
+				open_close: Some(true),
 				save: Some(TextDocumentSyncSaveOptions::SaveOptions(SaveOptions {
 					// FIXME: temporary solution
 					include_text: Some(true),
-- 
2.43.0


From 5a2a45a91d66d7781979724b6a523bb94ea53d77 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:55:42 +0000
Subject: [PATCH 44/46] fix: take the whole chunk, whichever part of its memory
 it shows

---
 packages/p4-analyzer/src/server/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8708962..a853550 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -77,7 +77,7 @@ export default class {
 			this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);
 		}
 
-		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset, chunk.byteOffset, chunk.byteLength);
+		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
 		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
 
-- 
2.43.0


From b8f2f2b509845c1a6bd67d6d0384cd6eb5d927de Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:55:42 +0000
Subject: [PATCH 45/46] fix: look for headers only in what has been received

---
 packages/p4-analyzer/src/server/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index a853550..8c20d5e 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -79,7 +79,7 @@ export default class {
 
 		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
-		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
+		const splitOffset = this.requestBuffer.subarray(0, this.requestBufferOffset).indexOf(BODY_SPLIT_CHARS);
 
 		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
 
-- 
2.43.0


From bff13d14648ff5ed5aa9eec2355df16602c44996 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 06:55:42 +0000
Subject: [PATCH 46/46] fix: forward every message of a chunk, and keep what
 follows them

---
 packages/p4-analyzer/src/server/index.ts | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8c20d5e..8afdc6c 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -79,9 +79,18 @@ export default class {
 
 		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
+		while (this.readRequestMessage()); // The chunk may complete more than one message.
+	}
+
+	/**
+	 * Reads the first message out of the _running_ `Buffer`.
+	 *
+	 * @returns `true` if there was a full message; otherwise, `false`.
+	 */
+	private readRequestMessage(): boolean {
 		const splitOffset = this.requestBuffer.subarray(0, this.requestBufferOffset).indexOf(BODY_SPLIT_CHARS);
 
-		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
+		if (splitOffset < 0) return false; // Still reading the headers. Continue until we get them.
 
 		const headers = this.requestBuffer.subarray(0, splitOffset).toString();
 		const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
@@ -90,19 +99,21 @@ export default class {
 
 		const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
 
-		if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
+		if (this.requestBufferOffset < minRequiredOffset) return false; // Still reading the expected body. Continue until we get it.
 
 		// We have now received at least one full message. Pull it out and reset the request buffer to continue reading
 		// the next one.
 		const requestMessageBuffer = Buffer.alloc(contentLength);
 
 		this.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
-		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset);
-		this.requestBufferOffset = 0;
+		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset, this.requestBufferOffset);
+		this.requestBufferOffset -= minRequiredOffset; // What follows the message is the start of the next one.
 
 		this.requestMessageBufferQueue.push(requestMessageBuffer);
 
 		setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+
+		return true;
 	}
 
 	/**
-- 
2.43.0

