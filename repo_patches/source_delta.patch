From 085b5a011167660cf276fd28533f9ed06af391c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:38 +0000
Subject: [PATCH 01/45] fix: add() loses or misplaces elements when the sets
 overlap

When the merged sets shared an element, the elements of the second set that
follow the last element of the first one were dropped, or inserted at an index
computed from the wrong set, so `find(".x, p")` could miss matches.
---
 src/mesdoc/interface/elements.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index b37d7df..1f61928 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2672,6 +2672,12 @@ impl<'a> Elements<'a> {
 					// move forward both
 					sec_left_index += 1;
 					fir_left_index += 1;
+					// the first is exhausted, the rest of the second are all after it
+					if fir_left_index > fir_right_index {
+						for index in sec_left_index..=sec_right_index {
+							mids.push((index, fir_left_index));
+						}
+					}
 				}
 				Ordering::Greater => {
 					// second left is behind first left
@@ -2723,7 +2729,7 @@ impl<'a> Elements<'a> {
 						}
 						Ordering::Equal => {
 							// equal to first right, now all the second after current is behind first right
-							let cur_fir_index = sec_right_index + 1;
+							let cur_fir_index = fir_right_index + 1;
 							for index in sec_left_index + 1..=sec_right_index {
 								mids.push((index, cur_fir_index));
 							}
-- 
2.43.0


From 7daf60b81afe228a6f29bf8f880c1afdc7222989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:43 +0000
Subject: [PATCH 02/45] fix: last() panics on an empty set

---
 src/mesdoc/interface/elements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 1f61928..0f0a620 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2521,7 +2521,7 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn last(&self) -> Elements<'a> {
-		self.eq(self.length() - 1)
+		self.eq(self.length().saturating_sub(1))
 	}
 
 	/// Get a subset specified by a range of indices.
-- 
2.43.0


From 52fafbb5c0007b9df91131e7ee2f8357042ba5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:50 +0000
Subject: [PATCH 03/45] fix: an invalid selector panics when the set is empty

---
 src/mesdoc/interface/elements.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 0f0a620..e40842c 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -124,11 +124,7 @@ impl<'a> Elements<'a> {
 	}
 
 	pub(crate) fn trigger_method_throw_error(&self, method: &str, error: BoxDynError) {
-		if let Some(doc) = &self
-			.get(0)
-			.expect("Use index 0 when length > 0")
-			.owner_document()
-		{
+		if let Some(doc) = &self.get(0).and_then(|ele| ele.owner_document()) {
 			doc.trigger_error(Box::new(IError::MethodOnInvalidSelector {
 				method: String::from(method),
 				error: error.to_string(),
-- 
2.43.0


From 950da2704e74f82d8471772c8acc45a9139c7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:55 +0000
Subject: [PATCH 04/45] fix: slice() panics on a reversed or maximal range

---
 src/mesdoc/interface/elements.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index e40842c..d625648 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2580,12 +2580,16 @@ impl<'a> Elements<'a> {
 				}
 			}
 			Bound::Included(&cur_end) => {
-				let cur_end = cur_end + 1;
+				let cur_end = cur_end.saturating_add(1);
 				if cur_end < end {
 					end = cur_end;
 				}
 			}
 		}
+		// the range is reversed, nothing is selected
+		if start > end {
+			return Elements::new();
+		}
 		let mut result = Elements::with_capacity(end - start);
 		let eles = self.get_ref();
 		for ele in &eles[start..end] {
-- 
2.43.0


From caae9de0111ed347a49709c5d8f9985ce911d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:01 +0000
Subject: [PATCH 05/45] fix: closest, *_until and siblings ignore the head of a
 complex selector

These methods match with handles which do not support the lookup optimization,
but parsed their selector with it, so `closest("div .c")` matched any `.c`.
---
 src/mesdoc/interface/elements.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index d625648..75685d7 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -516,13 +516,14 @@ impl<'a> Elements<'a> {
 		contains: bool,
 		comb: Combinator,
 	) -> Elements<'a> {
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = &selector {
 			let segment = Selector::make_comb_all(comb);
 			let next_selector = Selector::from_segment(segment);
 			let mut result = Elements::with_capacity(DEF_NODES_LEN);
 			let (next_ok, filter) = if !filter.is_empty() {
-				let filter = filter.parse::<Selector>();
+				let filter = Selector::from_str(filter, false);
 				if let Ok(filter) = filter {
 					(true, Some(filter))
 				} else {
@@ -1521,12 +1522,11 @@ impl<'a> Elements<'a> {
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
 			// self
-			let sib_selector = selector.parse::<Selector>();
+			let sib_selector = Selector::from_str(selector, false);
 			if let Ok(sib_selector) = sib_selector {
 				// clone the selector to a child selector
-				child_selector = selector
-					.parse::<Selector>()
-					.expect("The selector has detected");
+				child_selector =
+					Selector::from_str(selector, false).expect("The selector has detected");
 				child_selector.head_combinator(child_comb);
 				// use siblings selector
 				siblings_selector = sib_selector;
@@ -1719,7 +1719,8 @@ impl<'a> Elements<'a> {
 		}
 		// find the nearst node
 		const METHOD: &str = "closest";
-		let selector = selector.parse::<Selector>();
+		// filter handles don't use lookup
+		let selector = Selector::from_str(selector, false);
 		if let Ok(selector) = selector {
 			let total = self.length();
 			let mut result = Elements::with_capacity(total);
-- 
2.43.0


From f5b4afc8dd4692389109f33fcbff5b35378cfeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:53 +0000
Subject: [PATCH 06/45] fix: combinators return unordered or repeated elements
 for nested sets

The children, siblings or parents of a set which contains nested elements were
concatenated in the order of the set, so `find("div > p")` was not in document
order and later steps, which rely on that order, lost matches or panicked.
---
 src/mesdoc/interface/elements.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 75685d7..9a60521 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -903,6 +903,10 @@ impl<'a> Elements<'a> {
 				result = matcher.apply(elements, None);
 			}
 		};
+		// nested or adjacent elements may produce unordered or repeated results
+		if elements.length() > 1 && !matches!(cur_comb, ChildrenAll | ParentAll | Chain) {
+			result.sort_and_unique();
+		}
 		result
 	}
 
@@ -1557,7 +1561,7 @@ impl<'a> Elements<'a> {
 			result.get_mut_ref().extend(finded);
 		}
 		// sort the result
-		result.sort();
+		result.sort_and_unique();
 		result
 	}
 
-- 
2.43.0


From e6cd109d3093c1f307f15fd4822f36bd3c8cb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:59 +0000
Subject: [PATCH 07/45] fix: prev_until and next_until skip all but one of the
 sibling elements

Each element has its own stop element, so the result of one sibling does not
cover the others.
---
 src/mesdoc/interface/elements.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9a60521..774b334 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1366,14 +1366,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn prev_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		let uniques = self.unique_sibling_last();
 		let mut result =
-			uniques.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
-		// should reverse the result when length > 1
-		// because the prevs executed from last to first
-		if result.length() > 1 {
-			result.get_mut_ref().reverse();
-		}
+			self.select_with_comb_until("prev_until", selector, filter, contains, Combinator::Prev);
+		// should sort the result, because the prevs executed from last to first
+		// and the prevs of siblings may be repeated
+		result.sort_and_unique();
 		result
 	}
 
@@ -1478,9 +1475,11 @@ impl<'a> Elements<'a> {
 	/// }
 	/// ```
 	pub fn next_until(&self, selector: &str, filter: &str, contains: bool) -> Elements<'a> {
-		// unique, keep the first sibling node
-		let uniques = self.unique_sibling_first();
-		uniques.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next)
+		let mut result =
+			self.select_with_comb_until("next_until", selector, filter, contains, Combinator::Next);
+		// the nexts of siblings may be repeated
+		result.sort_and_unique();
+		result
 	}
 
 	/// Get the siblings of each element in Elements, when the selector is not empty, will filtered by the selector.
-- 
2.43.0


From c5082f9d7c6e162ac19d41cc0417ba4a47d3e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:04 +0000
Subject: [PATCH 08/45] fix: remove_class and toggle_class panic on unordered
 or repeated names

The indexs to remove must be ascending and unique, and all the occurrences of a
name have to be removed.
---
 src/mesdoc/interface/elements.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 774b334..2eb2238 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3448,8 +3448,8 @@ impl<'a> Elements<'a> {
 				if let Some(IAttrValue::Value(cls, _)) = class_value {
 					let mut orig_class_list = get_class_list(&cls);
 					let mut removed_indexs: Vec<usize> = Vec::with_capacity(class_list.len());
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
+					for (index, name) in orig_class_list.iter().enumerate() {
+						if class_list.contains(name) {
 							removed_indexs.push(index);
 						}
 					}
@@ -3504,10 +3504,13 @@ impl<'a> Elements<'a> {
 					let mut orig_class_list = get_class_list(&cls);
 					let mut removed_indexs: Vec<usize> = Vec::with_capacity(total);
 					let mut added_class_list: Vec<Vec<char>> = Vec::with_capacity(total);
-					for class_name in &class_list {
-						if let Some(index) = orig_class_list.iter().position(|name| name == class_name) {
+					for (index, name) in orig_class_list.iter().enumerate() {
+						if class_list.contains(name) {
 							removed_indexs.push(index);
-						} else {
+						}
+					}
+					for class_name in &class_list {
+						if !orig_class_list.contains(class_name) && !added_class_list.contains(class_name) {
 							added_class_list.push(class_name.clone());
 						}
 					}
-- 
2.43.0


From 2dddfdbd81163a569c07d56e183388e4b49d9581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:09 +0000
Subject: [PATCH 09/45] fix: :last-child and :last-of-type panic for an element
 without childs

---
 src/mesdoc/rules/pseudo.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 0a3dbda..f30d7f8 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -172,6 +172,9 @@ fn make_asc_or_desc_nth_child_specified(asc: bool, index: isize) -> MatchSpecifi
 		} else {
 			Box::new(move |ele, mut callback| {
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
@@ -528,6 +531,9 @@ fn make_asc_or_desc_nth_of_type_specified(asc: bool, index: isize) -> MatchSpeci
 				let mut node_indexs: Vec<usize> = Vec::with_capacity(DEF_NODES_LEN);
 				// total
 				let total = ele.child_nodes_length();
+				if total == 0 {
+					return;
+				}
 				let mut matched: VecDeque<bool> = VecDeque::with_capacity(total);
 				// loop from last node to first node
 				// gather the matched info
-- 
2.43.0


From 0fe3f83ac590b972cda6fd27556bd220621cacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:01 +0000
Subject: [PATCH 10/45] fix: unfinished selectors panic and nested ones are
 rejected

A selector which ends too early, e.g. `.` or `:not(p`, panicked while the rules
were locked, so that every later selector panicked too. A nested pseudo selector
was accepted only at the end, e.g. `:not(:not(p).a)` was not.
---
 src/mesdoc/selector/mod.rs     | 9 +++++++--
 src/mesdoc/selector/pattern.rs | 9 ++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index c5588ad..b1234ae 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -347,6 +347,7 @@ impl Selector {
 							level + 1,
 						)?;
 						index += nest_count;
+						finded = true;
 					}
 					break;
 				}
@@ -374,10 +375,14 @@ impl Selector {
 						}
 					}
 				}
-				break;
+				return Ok((index, matched));
 			}
 		}
-		Ok((index, matched))
+		// the nested selector is not closed
+		Err(Error::InvalidSelector {
+			context: chars.iter().collect::<String>(),
+			reason: format!("Nested selector is not closed at index {}", index),
+		})
 	}
 }
 
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index 452a789..ddfca33 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -44,10 +44,9 @@ pub trait Pattern: Send + Sync + Debug {
 
 impl Pattern for char {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
-		let ch = chars[0];
-		if *self == ch {
+		if chars.first() == Some(self) {
 			return Some(Matched {
-				chars: vec![ch],
+				chars: vec![*self],
 				..Default::default()
 			});
 		}
@@ -92,9 +91,9 @@ pub struct Identity;
 impl Pattern for Identity {
 	fn matched(&self, chars: &[char]) -> Option<Matched> {
 		let mut result: Vec<char> = Vec::with_capacity(5);
-		let first = chars[0];
+		let first = chars.first()?;
 		let name: &str = "identity";
-		if !(first.is_ascii_alphabetic() || first == '_') {
+		if !(first.is_ascii_alphabetic() || *first == '_') {
 			return None;
 		}
 		// allow translate character '\': fix issue #2
-- 
2.43.0


From 7f2813e72a8c875188fd6d1ce35dc1b1fe336f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:06 +0000
Subject: [PATCH 11/45] fix: nth selectors panic on large numbers

---
 src/mesdoc/rules/pseudo.rs     |  6 +-----
 src/mesdoc/selector/pattern.rs | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index f30d7f8..51a00b5 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -16,11 +16,7 @@ use std::{collections::HashMap, ops::Range};
 const PRIORITY: u32 = PRIORITY_PSEUDO_SELECTOR;
 
 fn nth_index_to_number(index: &Option<String>) -> isize {
-	index
-		.as_ref()
-		.expect("Nth's n and index must have one")
-		.parse::<isize>()
-		.expect("Nth's index is not ok")
+	Nth::parse_number(index.as_ref().expect("Nth's n and index must have one"))
 }
 
 /// Pseudo selector ":root"
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index ddfca33..b964523 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -259,6 +259,14 @@ impl Nth {
 		}
 		None
 	}
+	// parse the number, the too large one is out of any index, so just limit it
+	pub fn parse_number(number: &str) -> isize {
+		const LIMIT: isize = i32::MAX as isize;
+		number
+			.parse::<isize>()
+			.map(|number| number.max(-LIMIT).min(LIMIT))
+			.unwrap_or(if number.starts_with('-') { -LIMIT } else { LIMIT })
+	}
 	// get indexs allowed
 	pub fn get_allowed_indexs(
 		n: &Option<String>,
@@ -267,10 +275,10 @@ impl Nth {
 	) -> Vec<usize> {
 		// has n
 		if let Some(n) = n {
-			let n = n.parse::<isize>().unwrap();
+			let n = Nth::parse_number(n);
 			let index = index
 				.as_ref()
-				.map(|index| index.parse::<isize>().unwrap())
+				.map(|index| Nth::parse_number(index))
 				.unwrap_or(0);
 			// n == 0
 			if n == 0 {
@@ -330,11 +338,11 @@ impl Nth {
 			return allow_indexs;
 		}
 		// only index
-		let index = index
-			.as_ref()
-			.expect("Nth must have 'index' value when 'n' is not setted.")
-			.parse::<isize>()
-			.expect("Nth's index is not a correct number");
+		let index = Nth::parse_number(
+			index
+				.as_ref()
+				.expect("Nth must have 'index' value when 'n' is not setted."),
+		);
 		if index <= 0 || index > (total as isize) {
 			return vec![];
 		}
-- 
2.43.0


From 960615a58ba78840280e089e1cfaffb60073f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:02 +0000
Subject: [PATCH 12/45] fix: nth selectors compute indexs out of the childs

The floor and ceil of a quotient between -1 and 1 were rounded to zero, so that
`:nth-child(3n-1)` panicked.
---
 src/mesdoc/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/utils.rs b/src/mesdoc/utils.rs
index 608f430..906a90e 100644
--- a/src/mesdoc/utils.rs
+++ b/src/mesdoc/utils.rs
@@ -86,13 +86,13 @@ pub fn divide_isize(a: isize, b: isize, round: RoundType) -> isize {
 	match round {
 		Floor => {
 			// -∞ -> 0
-			if res < 0 && remainder != 0 {
+			if remainder != 0 && (a < 0) != (b < 0) {
 				res -= 1;
 			}
 		}
 		Ceil => {
 			// 0 -> ∞
-			if res > 0 && remainder != 0 {
+			if remainder != 0 && (a < 0) == (b < 0) {
 				res += 1;
 			}
 		}
-- 
2.43.0


From 58eda733dd09448033f9e8764f217824cbbff83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:33 +0000
Subject: [PATCH 13/45] fix: remove_attribute keeps the attribute when the name
 is not lowercase

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b07cf4d..7f51ffe 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -744,7 +744,10 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// set attr data as null data
 				meta.borrow_mut().attrs[index] = Attr::default();
 				// remove name from names map
-				meta.borrow_mut().lc_name_map.remove(name);
+				meta
+					.borrow_mut()
+					.lc_name_map
+					.remove(&name.to_ascii_lowercase());
 			}
 		}
 	}
-- 
2.43.0


From 43969f6c829ff9097f42f4c2a45aefc379619710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:38 +0000
Subject: [PATCH 14/45] fix: set_attribute keeps the quote of the old value

The new value was rendered with the quote of the old one, or without any, so
that the html of the element was broken, e.g. `a='it's'`.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7f51ffe..d3554fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -710,7 +710,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 			};
 			// find the attribute, just set the value
 			if let Some(index) = find_index {
-				meta.borrow_mut().attrs[index].value = value;
+				let attr = &mut meta.borrow_mut().attrs[index];
+				// the quote must be suitable for the new value
+				attr.quote = if value.is_some() { Some(quote) } else { None };
+				attr.need_quote = need_quote;
+				attr.value = value;
 				return;
 			}
 			// new attribute, add it to the attrs and add a lowercase name to lc_name_map
-- 
2.43.0


From 762446064641aebe4f9529b0781c180c633b0d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:43 +0000
Subject: [PATCH 15/45] fix: reading the attributes of the root node panics

---
 src/lib.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d3554fb..11dafd0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -611,10 +611,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 	fn get_attribute(&self, name: &str) -> Option<IAttrValue> {
 		// use lowercase to get attribute: issue: #2
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		// the abstract root node has no meta
+		let meta = node.meta.as_ref()?;
 		// if has meta, then compare with lowercase
 		let lc_name_map = &meta.borrow().lc_name_map;
 		if !lc_name_map.is_empty() {
@@ -634,10 +632,11 @@ impl IElementTrait for Rc<RefCell<Node>> {
 
 	fn get_attributes(&self) -> Vec<(String, IAttrValue)> {
 		let node = &self.borrow();
-		let meta = node
-			.meta
-			.as_ref()
-			.expect("Element node must have a meta field.");
+		// the abstract root node has no meta
+		let meta = match node.meta.as_ref() {
+			Some(meta) => meta,
+			None => return vec![],
+		};
 		let attrs = &meta.borrow().attrs;
 		let attr_map = meta
 			.borrow()
-- 
2.43.0


From e7edd4964ddb8e8c5d86f0216f90d8c9dbccf353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:51 +0000
Subject: [PATCH 16/45] fix: removed and replaced nodes keep their old parent

A node taken out of the tree by remove, set_text, set_html or replace_with
still pointed to its old parent, so removing or moving it again removed
another child of that parent.
---
 src/lib.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 11dafd0..5bb862f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -123,6 +123,13 @@ fn reset_next_siblings_index(start_index: usize, childs: &[RefNode]) {
 	}
 }
 
+// the nodes taken out of the tree don't have a parent any more
+fn detach_nodes(nodes: Option<Vec<RefNode>>) {
+	for node in nodes.into_iter().flatten() {
+		node.borrow_mut().parent = None;
+	}
+}
+
 fn remove_not_allowed_nodes(tag_name: &[char], nodes: &mut Vec<RefNode>) -> bool {
 	let mut not_allowed_indexs: Vec<usize> = Vec::with_capacity(nodes.len());
 	let orig_len = nodes.len();
@@ -266,14 +273,18 @@ impl INodeTrait for Rc<RefCell<Node>> {
 						// set text node parent
 						text_node.parent = Some(Rc::downgrade(self));
 						// set childs
-						node.childs = Some(vec![Rc::new(RefCell::new(text_node))]);
+						detach_nodes(
+							node
+								.childs
+								.replace(vec![Rc::new(RefCell::new(text_node))]),
+						);
 					} else {
 						node.content = Some(content.chars().collect::<Vec<char>>());
 					}
 				} else {
 					// empty content
 					if no_content_tag {
-						node.childs = None;
+						detach_nodes(node.childs.take());
 					} else {
 						node.content = None;
 					}
@@ -363,7 +374,11 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(0, &nodes);
 						}
 						// set childs as new nodes
-						(*target.borrow_mut()).childs = if has_nodes { Some(nodes) } else { None };
+						let childs = if has_nodes { Some(nodes) } else { None };
+						detach_nodes(std::mem::replace(
+							&mut (*target.borrow_mut()).childs,
+							childs,
+						));
 					} else if let Some(childs) = &mut target.borrow_mut().childs {
 						let index = self.index();
 						// not last node, whenever nodes is empty or not, reset next childs indexs
@@ -381,12 +396,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 							// then just remove self
 							childs.remove(index);
 						}
+						self.borrow_mut().parent = None;
 					} else {
 						// text node's parent can't be empty
 					}
 				} else {
 					// empty html, just set childs to none
-					target.borrow_mut().childs = None;
+					detach_nodes(target.borrow_mut().childs.take());
 				}
 			}
 		}
@@ -398,7 +414,8 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		/// Remove a text node.
 		fn remove(self: Box<Self>) {
 			let index = self.index();
-			if let Some(parent) = &self.borrow_mut().parent {
+			let parent = self.borrow_mut().parent.take();
+			if let Some(parent) = &parent {
 				if let Some(parent) = parent.upgrade() {
 					if let Some(childs) = &mut parent.borrow_mut().childs {
 						// remove the text node
@@ -800,7 +817,7 @@ impl IElementTrait for Rc<RefCell<Node>> {
 							reset_next_siblings_index(index, &childs[index + 1..]);
 						}
 						// remove child
-						childs.remove(index);
+						childs.remove(index).borrow_mut().parent = None;
 					}
 				}
 			}
@@ -984,6 +1001,8 @@ impl IElementTrait for Rc<RefCell<Node>> {
 						}
 					}
 				}
+				// the replaced node is out of the tree now
+				self.borrow_mut().parent = None;
 				if let Some(replace_ele) = replace_ele {
 					*self = replace_ele;
 				}
-- 
2.43.0


From 11d9974951418f9daadcd190dae0bf2776d4f86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:09 +0000
Subject: [PATCH 17/45] fix: set_html panics for a text node in the root level

---
 src/lib.rs | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5bb862f..d5a13a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -326,15 +326,13 @@ impl INodeTrait for Rc<RefCell<Node>> {
 			_ => None,
 		};
 		if let Some(target) = &target {
-			if check_if_content_tag(
-				&target
-					.borrow()
-					.meta
-					.as_ref()
-					.expect("A tag use `set_html` must have a tag name.")
-					.borrow()
-					.name,
-			) {
+			// the parent of a text node may be the abstract root, which has no tag name
+			let tag_name = target
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or(vec![], |meta| meta.borrow().name.clone());
+			if check_if_content_tag(&tag_name) {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
@@ -351,16 +349,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				.unwrap();
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
-					let has_not_allowed = remove_not_allowed_nodes(
-						&target
-							.borrow()
-							.meta
-							.as_ref()
-							.expect("A tag use `set_html` must have a tag name.")
-							.borrow()
-							.name,
-						&mut nodes,
-					);
+					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
 					let has_nodes = !nodes.is_empty();
 					if has_nodes {
 						// set nodes parent as target
-- 
2.43.0


From 056beca4b83308bb58cc09aec575c1f91cf536c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:49 +0000
Subject: [PATCH 18/45] fix: set_html with an empty html on a text node removes
 all its siblings

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d5a13a7..4841acb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -389,6 +389,14 @@ impl INodeTrait for Rc<RefCell<Node>> {
 					} else {
 						// text node's parent can't be empty
 					}
+				} else if !is_element {
+					// empty html, just remove the text node itself
+					if let Some(childs) = &mut target.borrow_mut().childs {
+						let index = self.index();
+						childs.remove(index);
+						reset_next_siblings_index(index, &childs[index..]);
+					}
+					self.borrow_mut().parent = None;
 				} else {
 					// empty html, just set childs to none
 					detach_nodes(target.borrow_mut().childs.take());
-- 
2.43.0


From d6ce76e75a31a3808ab95c81faf3209608e9d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:54 +0000
Subject: [PATCH 19/45] fix: set_text adds a text node to a void element

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4841acb..ee4d504 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -259,7 +259,16 @@ impl INodeTrait for Rc<RefCell<Node>> {
 		let node_type = self.node_type();
 		match node_type {
 			INodeType::Element => {
-				let no_content_tag = !check_if_content_tag(&self.tag_names());
+				let tag_name = self.tag_names();
+				let no_content_tag = !check_if_content_tag(&tag_name);
+				if no_content_tag && !content.is_empty() && !allow_insert(&tag_name, NodeType::Text) {
+					Dom::halt(
+						self,
+						"set_text",
+						"Can't set the text of a tag that has no contents",
+					);
+					return;
+				}
 				let mut node = self.borrow_mut();
 				if !content.is_empty() {
 					if no_content_tag {
-- 
2.43.0


From 232640eff2cc5984b237367aa9353041396bc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:00 +0000
Subject: [PATCH 20/45] fix: clone panics when the tree has been changed

---
 src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ee4d504..dfbfbf6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -170,7 +170,27 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl standard semantics `clone_node` method
 	fn copy_node<'b>(&self) -> BoxDynNode<'b> {
-		Box::new(self.borrow().clone_node())
+		// clone the node itself and the childs one by one
+		// because the positions of the nodes in a changed tree are not in order
+		fn copy(node: &RefNode) -> RefNode {
+			let childs = node.borrow_mut().childs.take();
+			let copied = node.borrow().clone_node();
+			copied.borrow_mut().childs = childs.as_ref().map(|childs| {
+				childs
+					.iter()
+					.enumerate()
+					.map(|(index, child)| {
+						let child = copy(child);
+						child.borrow_mut().parent = Some(Rc::downgrade(&copied));
+						child.borrow_mut().index = index;
+						child
+					})
+					.collect()
+			});
+			node.borrow_mut().childs = childs;
+			copied
+		}
+		Box::new(copy(self))
 	}
 
 	/// impl `typed`
-- 
2.43.0


From 29d249feed4233dfb34857495f3c8667c71f2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:00 +0000
Subject: [PATCH 21/45] fix: append and before reverse the order of the
 inserted elements

---
 src/mesdoc/interface/elements.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 2eb2238..839d851 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3675,6 +3675,13 @@ impl<'a> Elements<'a> {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
 			for ele in self.get_mut_ref() {
+				// insert one by one, keep the order of the elements
+				if matches!(position, InsertPosition::BeforeEnd | InsertPosition::BeforeBegin) {
+					for inserted in dest.get_ref() {
+						ele.insert_adjacent(position, inserted);
+					}
+					continue;
+				}
 				for inserted in dest.get_ref().iter().rev() {
 					ele.insert_adjacent(position, inserted);
 				}
-- 
2.43.0


From a0f32ccb9e73b08fad5328765c3cc9b5d27ca500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:33 +0000
Subject: [PATCH 22/45] fix: a node is lost when the target of the insertion
 can't have it

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index dfbfbf6..6d60f65 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -859,8 +859,21 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				return;
 			}
 			let node_type = node.node_type();
+			let is_sibling = matches!(position, InsertPosition::BeforeBegin | InsertPosition::AfterEnd);
+			// a sibling must have a parent
+			if is_sibling && self.parent().is_none() {
+				Dom::halt(self, action, &format!("Can't {} a node without a parent", action));
+				return;
+			}
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			if let Ok(dom) = specified.downcast::<RefNode>() {
+				// the tag can't have the node as a child, don't remove it from the old place
+				let is_fragement = matches!(node_type, INodeType::DocumentFragement);
+				let is_allowed = is_sibling || allow_insert(&self.tag_names(), dom.borrow().node_type);
+				if !is_fragement && !is_allowed {
+					Dom::halt(self, action, &format!("Can't {} the tag with that node", action));
+					return;
+				}
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
-- 
2.43.0


From db58e013461cb7c8981cacf9995481a987791aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:56 +0000
Subject: [PATCH 23/45] fix: the nodes of an inserted document fragement have
 several parents

The nodes stayed in the fragement, and were shared by all the targets.
---
 src/lib.rs                       | 19 +++++++++++++------
 src/mesdoc/interface/elements.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6d60f65..c704e82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -877,11 +877,17 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let mut nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
-						} else {
-							vec![]
+						// move the allowed childs, a node can't be a child of two parents
+						let tag_name = self.tag_names();
+						let childs = dom.borrow_mut().childs.take().unwrap_or_default();
+						let (nodes, others): (Vec<RefNode>, Vec<RefNode>) = childs
+							.into_iter()
+							.partition(|child| is_sibling || allow_insert(&tag_name, child.borrow().node_type));
+						if !others.is_empty() {
+							reset_next_siblings_index(0, &others);
+							dom.borrow_mut().childs = Some(others);
 						}
+						nodes
 					}
 					_ => {
 						// remove current node from parent's childs
@@ -994,11 +1000,12 @@ impl IElementTrait for Rc<RefCell<Node>> {
 				// get the nodes
 				let nodes = match node_type {
 					INodeType::DocumentFragement => {
-						if let Some(childs) = &dom.borrow().childs {
+						// move the childs, a node can't be a child of two parents
+						if let Some(childs) = dom.borrow_mut().childs.take() {
 							if childs.len() == 1 {
 								replace_ele = Some(Rc::clone(&childs[0]));
 							}
-							childs.iter().map(Rc::clone).collect::<Vec<RefNode>>()
+							childs
 						} else {
 							vec![]
 						}
diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 839d851..69f9729 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3,7 +3,7 @@ cfg_feat_text! {
 	use super::{BoxDynText, Texts};
 }
 cfg_feat_insertion! {
-	use super::InsertPosition;
+	use super::{INodeType, InsertPosition};
 }
 use super::{BoxDynElement, IAttrValue, IElementTrait, IFormValue, MaybeDoc};
 use crate::mesdoc::error::BoxDynError;
@@ -3674,7 +3674,11 @@ impl<'a> Elements<'a> {
 	cfg_feat_insertion! {
 		// `insert`
 		fn insert(&mut self, dest: &Elements, position: &InsertPosition) {
-			for ele in self.get_mut_ref() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				// the nodes of a document fragement are moved to the last one, others get the copies
+				let copies = Elements::copy_fragements(dest, index + 1 < total);
+				let dest = copies.as_ref().unwrap_or(dest);
 				// insert one by one, keep the order of the elements
 				if matches!(position, InsertPosition::BeforeEnd | InsertPosition::BeforeBegin) {
 					for inserted in dest.get_ref() {
@@ -3687,9 +3691,26 @@ impl<'a> Elements<'a> {
 				}
 			}
 		}
+		// copy the document fragements, keep the other elements
+		fn copy_fragements<'b>(dest: &Elements, need_copy: bool) -> Option<Elements<'b>> {
+			let is_fragement = |ele: &BoxDynElement| matches!(ele.node_type(), INodeType::DocumentFragement);
+			if !need_copy || !dest.get_ref().iter().any(is_fragement) {
+				return None;
+			}
+			let nodes = dest
+				.get_ref()
+				.iter()
+				.map(|ele| if is_fragement(ele) { ele.copied() } else { ele.cloned() })
+				.collect();
+			Some(Elements::with_nodes(nodes))
+		}
 		// `replace`
 		fn replace(&mut self, dest: &Elements){
-			for ele in self.get_mut_ref() {
+			let total = self.length();
+			for (index, ele) in self.get_mut_ref().iter_mut().enumerate() {
+				// the nodes of a document fragement are moved to the last one, others get the copies
+				let copies = Elements::copy_fragements(dest, index + 1 < total);
+				let dest = copies.as_ref().unwrap_or(dest);
 				for inserted in dest.get_ref().iter().rev() {
 					ele.replace_with(inserted);
 				}
-- 
2.43.0


From ef70522e84ac7d793c63d31453a655c9e9cf2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:09 +0000
Subject: [PATCH 24/45] fix: replace_with breaks the tree when replacing with
 itself, an ancestor or without a parent

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c704e82..c311752 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -993,6 +993,16 @@ impl IElementTrait for Rc<RefCell<Node>> {
 		}
 		// replace with
 		fn replace_with(&mut self, node: &BoxDynElement){
+			// base validate
+			let action = "replace with";
+			if !Dom::validate_dom_change(self, node, action) {
+				return;
+			}
+			// the replaced node must have a parent
+			if self.parent().is_none() {
+				Dom::halt(self, action, &format!("Can't {} a node without a parent", action));
+				return;
+			}
 			let node_type = node.node_type();
 			let specified: Box<dyn Any> = node.cloned().to_node();
 			let mut replace_ele: Option<RefNode> = None;
@@ -1053,7 +1063,6 @@ impl IElementTrait for Rc<RefCell<Node>> {
 					*self = replace_ele;
 				}
 			} else {
-				let action = "replace with";
 				Dom::halt(
 					self,
 					action,
-- 
2.43.0


From 76ad28bffbb1599ad2cd0cd1ce30921e2474975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:10 +0000
Subject: [PATCH 25/45] fix: replace_with several elements keeps only one of
 them

---
 src/mesdoc/interface/elements.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 69f9729..2618b1c 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -3711,8 +3711,12 @@ impl<'a> Elements<'a> {
 				// the nodes of a document fragement are moved to the last one, others get the copies
 				let copies = Elements::copy_fragements(dest, index + 1 < total);
 				let dest = copies.as_ref().unwrap_or(dest);
-				for inserted in dest.get_ref().iter().rev() {
-					ele.replace_with(inserted);
+				// insert all before the element, the last one replaces it
+				if let Some((last, prevs)) = dest.get_ref().split_last() {
+					for inserted in prevs {
+						ele.insert_adjacent(&InsertPosition::BeforeBegin, inserted);
+					}
+					ele.replace_with(last);
 				}
 			}
 		}
-- 
2.43.0


From dd67defd7b963c6fdb2f6eb4b52520c92b42915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:21 +0000
Subject: [PATCH 26/45] fix: moved nodes keep the document of their old tree

---
 src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c311752..9a2ade3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -237,7 +237,21 @@ impl INodeTrait for Rc<RefCell<Node>> {
 
 	/// impl `owner_document`
 	fn owner_document(&self) -> MaybeDoc {
-		if let Some(root) = &self.borrow().root {
+		// a moved node belongs to the document of the tree that it's in now
+		let mut top = Rc::clone(self);
+		loop {
+			let parent = top.borrow().parent.as_ref().and_then(|node| node.upgrade());
+			match parent {
+				Some(parent) => top = parent,
+				None => break,
+			}
+		}
+		let root = if top.is_root_element() {
+			Some(Rc::downgrade(&top))
+		} else {
+			top.borrow().root.clone()
+		};
+		if let Some(root) = &root {
 			if let Some(root) = &root.upgrade() {
 				if let Some(doc) = &root.borrow().document {
 					if let Some(ref_doc) = &doc.upgrade() {
-- 
2.43.0


From a63411eb3222f3f80d5756bbdda663b05f010d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:23 +0000
Subject: [PATCH 27/45] fix: get_element_by_id uses the ids at the time the
 document is parsed

---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9a2ade3..abc428b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1209,8 +1209,22 @@ impl Document {
 impl IDocumentTrait for Document {
 	// get element by id
 	fn get_element_by_id<'b>(&self, id: &str) -> Option<BoxDynElement<'b>> {
-		if let Some(node) = self.doc.get_element_by_id(id) {
-			return Some(Box::new(Rc::clone(&node)));
+		// find in the current tree, the ids may be changed after the document is parsed
+		fn find_by_id(node: &RefNode, id: &str) -> Option<RefNode> {
+			if let Some(childs) = &node.borrow().childs {
+				for child in childs {
+					if matches!(child.get_attribute("id"), Some(IAttrValue::Value(value, _)) if value == id) {
+						return Some(Rc::clone(child));
+					}
+					if let Some(node) = find_by_id(child, id) {
+						return Some(node);
+					}
+				}
+			}
+			None
+		}
+		if let Some(node) = find_by_id(&self.doc.get_root_node(), id) {
+			return Some(Box::new(node));
 		}
 		None
 	}
-- 
2.43.0


From 69eed0006cf321c3daa2af485ad92a024f98958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:25 +0000
Subject: [PATCH 28/45] fix: the id selector uses the ids at the time the
 document is parsed

It missed the ids set later, kept matching the removed or changed ones, and
ignored the nodes moved from another document.
---
 src/mesdoc/rules/id.rs | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/mesdoc/rules/id.rs b/src/mesdoc/rules/id.rs
index 13cf2b7..c7798fa 100644
--- a/src/mesdoc/rules/id.rs
+++ b/src/mesdoc/rules/id.rs
@@ -2,7 +2,7 @@ use crate::mesdoc::selector::rule::{Matcher, Rule, RuleItem};
 use crate::mesdoc::selector::MatchedQueue;
 use crate::mesdoc::{
 	constants::{NAME_SELECTOR_ID, PRIORITY_ID_SELECTOR},
-	interface::Elements,
+	interface::IAttrValue,
 };
 
 pub fn init(rules: &mut Vec<RuleItem>) {
@@ -11,36 +11,12 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 		context: "#{identity}",
 		rule: Rule {
 			priority: PRIORITY_ID_SELECTOR,
-			in_cache: true,
+			in_cache: false,
 			handle: Box::new(|data: MatchedQueue| {
 				let id = data[1].chars.iter().collect::<String>();
 				Matcher {
-					all_handle: Some(Box::new(move |eles: &Elements, use_cache: Option<bool>| {
-						let use_cache = use_cache.is_some();
-						let mut result = Elements::with_capacity(1);
-						if !eles.is_empty() {
-							let first_ele = eles
-								.get_ref()
-								.get(0)
-								.expect("The elements must have at least one element.");
-							if let Some(doc) = &first_ele.owner_document() {
-								if let Some(id_element) = doc.get_element_by_id(&id) {
-									if use_cache {
-										// just add, will checked if the element contains the id element
-										result.push(id_element);
-									} else {
-										// filter methods, will filtered in elements
-										for ele in eles.get_ref() {
-											if ele.is(&id_element) {
-												result.push(id_element);
-												break;
-											}
-										}
-									}
-								}
-							}
-						}
-						result
+					one_handle: Some(Box::new(move |ele, _| -> bool {
+						matches!(ele.get_attribute("id"), Some(IAttrValue::Value(value, _)) if value == id)
 					})),
 					..Default::default()
 				}
-- 
2.43.0


From 11285058c7805818dd3b29c55831d9d0b19d1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:43 +0000
Subject: [PATCH 29/45] fix: find panics for a set of elements in different
 trees

Such as the clones of several elements.
---
 src/mesdoc/interface/elements.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 2618b1c..0ce3b66 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -40,6 +40,18 @@ fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
 	indexs
 }
 
+// check if the ancestor is really an ancestor of the element
+fn is_ancestor_of(ancestor: &BoxDynElement, ele: &BoxDynElement) -> bool {
+	let mut cur = ele.parent();
+	while let Some(parent) = cur {
+		if parent.is(ancestor) {
+			return true;
+		}
+		cur = parent.parent();
+	}
+	false
+}
+
 // compare indexs
 fn compare_indexs(a: &VecDeque<usize>, b: &VecDeque<usize>) -> Ordering {
 	let a_total = a.len();
@@ -452,13 +464,18 @@ impl<'a> Elements<'a> {
 			let cur_len = ancestors.len();
 			if cur_len > 0 {
 				// just check the last ancestor
-				let (top_ele_indexs, _) = &ancestors[cur_len - 1];
+				let (top_ele_indexs, top_ele) = &ancestors[cur_len - 1];
 				match relation_of(&ele_indexs, top_ele_indexs) {
 					ElementRelation::Feauture => {
 						ancestors.push((ele_indexs, ele));
 					}
-					ElementRelation::Descendant => {}
-					_ => unreachable!("The elements call `unique_parents` is not ordered"),
+					// the elements may be in different trees, the indexs are not enough
+					ElementRelation::Descendant if is_ancestor_of(top_ele, ele) => {}
+					_ => {
+						if !ele.is(top_ele) {
+							ancestors.push((ele_indexs, ele));
+						}
+					}
 				}
 			} else {
 				ancestors.push((ele_indexs, ele));
-- 
2.43.0


From 964f171764a8d16dfaed2d90fe8abcd94ba69fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:02 +0000
Subject: [PATCH 30/45] fix: filter methods don't match complex selectors in a
 detached tree

---
 src/mesdoc/interface/elements.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 0ce3b66..91da248 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -973,7 +973,12 @@ impl<'a> Elements<'a> {
 						Some(Elements::with_node(&root_element))
 					});
 					// get root elements
-					let root_eles = root.as_ref().expect("root element must have");
+					// the head can be matched anywhere, also in a tree without the root element
+					let no_scope = Elements::new();
+					let root_eles = match query[0][0].1 {
+						Combinator::ChildrenAll => &no_scope,
+						_ => root.as_ref().expect("root element must have"),
+					};
 					// find elements from root_eles by selector
 					let lookup = Some(&query[..query_num - 1]);
 					let mut lasts = Elements::with_capacity(filtered.length());
@@ -1908,6 +1913,10 @@ impl<'a> Elements<'a> {
 				elements = finded;
 			}
 		}
+		// no scope, the head of the lookup can be any element in the tree
+		if lookup.is_some() && self.is_empty() {
+			return true;
+		}
 		use Combinator::*;
 		match lookup_comb {
 			Parent => {
-- 
2.43.0


From e6168012739853a8aceadc12f772ecb6772d13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:12 +0000
Subject: [PATCH 31/45] fix: :checked matches the default option when an option
 in a previous optgroup is selected

---
 src/mesdoc/rules/pseudo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 51a00b5..48e8748 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -959,7 +959,9 @@ fn pseudo_checked(rules: &mut Vec<RuleItem>) {
 								// check if is the first option, condition 3
 								let mut prev = ele.previous_element_sibling();
 								while let Some(prev_ele) = &prev {
-									if is_equal_chars(&prev_ele.tag_names(), &option_tag) {
+									if is_equal_chars(&prev_ele.tag_names(), &option_tag)
+										|| check_selected_option(prev_ele, &option_tag)
+									{
 										return false;
 									}
 									prev = prev_ele.previous_element_sibling();
-- 
2.43.0


From 851d5b211257f20a35138cb54abce708c8a401b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:41 +0000
Subject: [PATCH 32/45] fix: Texts::filter_by panics when a content tag is
 among the texts

---
 src/mesdoc/interface/texts.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mesdoc/interface/texts.rs b/src/mesdoc/interface/texts.rs
index 93ffc4b..9dafb19 100644
--- a/src/mesdoc/interface/texts.rs
+++ b/src/mesdoc/interface/texts.rs
@@ -1,5 +1,5 @@
 
-use super::BoxDynText;
+use super::{BoxDynText, IEnumTyped};
 
 pub struct Texts<'a> {
 	nodes: Vec<BoxDynText<'a>>,
@@ -54,13 +54,14 @@ impl<'a> Texts<'a> {
 		let mut result: Texts = Texts::with_capacity(self.length());
 		for (index, ele) in self.get_ref().iter().enumerate() {
 			if handle(index, ele) {
-				result.get_mut_ref().push(
-					ele
-						.clone_node()
-						.typed()
-						.into_text()
-						.expect("Text ele must can use 'into_text'."),
-				);
+				// a content tag such as `script` is also a text
+				let text = match ele.clone_node().typed() {
+					IEnumTyped::Element(ele) => ele.into_text().ok(),
+					typed => typed.into_text(),
+				};
+				result
+					.get_mut_ref()
+					.push(text.expect("Text ele must can use 'into_text'."));
 			}
 		}
 		result
-- 
2.43.0


From f0acea67b6d74bcc37b54918a4f0e526d7525af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:46 +0000
Subject: [PATCH 33/45] fix: slice ignores an excluded start bound

---
 src/mesdoc/interface/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 91da248..1901560 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -2596,8 +2596,8 @@ impl<'a> Elements<'a> {
 					return Elements::new();
 				}
 			}
-			_ => {
-				// start bound not have exclude
+			Bound::Excluded(&cur_start) => {
+				start = cur_start.saturating_add(1);
 			}
 		};
 		match range.end_bound() {
-- 
2.43.0


From 8dc14bd832c69b04d93c493d61d93805010c5e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:52 +0000
Subject: [PATCH 34/45] fix: entities added to a blank text node are not
 decoded by text()

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index abc428b..3b777d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -340,6 +340,7 @@ impl INodeTrait for Rc<RefCell<Node>> {
           );
 				} else {
 					// replace the text content
+					set_as_text(self);
 					self.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 				}
 			}
@@ -449,6 +450,14 @@ impl INodeTrait for Rc<RefCell<Node>> {
 	}
 }
 
+// spaces between tags become an ordinary text once they get other contents
+fn set_as_text(node: &RefNode) {
+	let mut node = node.borrow_mut();
+	if node.node_type == NodeType::SpacesBetweenTag {
+		node.node_type = NodeType::Text;
+	}
+}
+
 impl ITextTrait for Rc<RefCell<Node>> {
 	cfg_feat_text! {
 		/// Remove a text node.
@@ -470,6 +479,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// append text
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
+			set_as_text(self);
 			if let Some(content) = &mut self.borrow_mut().content {
 				content.extend(chars);
 			} else {
@@ -480,6 +490,7 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
+			set_as_text(self);
 			if let Some(content) = &mut self.borrow_mut().content {
 				content.splice(0..0, chars);
 			} else {
-- 
2.43.0


From 352cdf83584286276722c7d4b0a9be6ccbef488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:45 +0000
Subject: [PATCH 35/45] fix: append_text and prepend_text panic on an empty
 script

---
 src/lib.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b777d1..525405b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -480,22 +480,22 @@ impl ITextTrait for Rc<RefCell<Node>> {
 		fn append_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
 			set_as_text(self);
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.extend(chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			self
+				.borrow_mut()
+				.content
+				.get_or_insert_with(Vec::new)
+				.extend(chars);
 		}
 
 		// prepend text
 		fn prepend_text(&mut self, content: &str) {
 			let chars = content.chars().collect::<Vec<char>>();
 			set_as_text(self);
-			if let Some(content) = &mut self.borrow_mut().content {
-				content.splice(0..0, chars);
-			} else {
-				self.borrow_mut().content = Some(chars);
-			}
+			self
+				.borrow_mut()
+				.content
+				.get_or_insert_with(Vec::new)
+				.splice(0..0, chars);
 		}
 	}
 }
-- 
2.43.0


From 4beacdec0b46c838b6ed6aa51da3e552a1dd4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:35 +0000
Subject: [PATCH 36/45] fix: set_html panics when the html can't be parsed

---
 src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 525405b..46bef10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -380,17 +380,24 @@ impl INodeTrait for Rc<RefCell<Node>> {
 				// content tag, just set html as content, no need encode
 				target.borrow_mut().content = Some(content.chars().collect::<Vec<char>>());
 			} else {
-				let doc_holder = Doc::parse(
+				let doc_holder = match Doc::parse(
 					content,
 					ParseOptions {
+						auto_fix_unclosed_tag: true,
 						auto_fix_unexpected_endtag: true,
 						auto_fix_unescaped_lt: true,
 						allow_self_closing: true,
 						allow_attr_key_starts_with_equal_sign: true,
 						..Default::default()
 					},
-				)
-				.unwrap();
+				) {
+					Ok(doc_holder) => doc_holder,
+					Err(error) => {
+						// not able to parse the html, keep the contents
+						Dom::halt(self, "set_html", &error.to_string());
+						return;
+					}
+				};
 				if let Some(nodes) = &mut doc_holder.get_root_node().borrow_mut().childs {
 					let mut nodes = nodes.split_off(0);
 					let has_not_allowed = remove_not_allowed_nodes(&tag_name, &mut nodes);
-- 
2.43.0


From 04a78ea758bfcacdd75325537e17bc6529514176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:18 +0000
Subject: [PATCH 37/45] fix: reject selectors with an invalid nested selector

':not(..z)' and ':has(.)' passed the parser, the wrong nested selector was
only noticed when there was an element to match, and then ':not' selected
everything.
---
 src/mesdoc/selector/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index b1234ae..e0bae4c 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -98,6 +98,7 @@ impl Selector {
 			let mut prev_in = PrevInSelector::Begin;
 			let mut last_in = prev_in;
 			let mut groups: SelectorGroups = Vec::new();
+			let mut nested_selectors: Vec<String> = Vec::new();
 			let splitter = SPLITTER.lock().unwrap();
 			let rules = RULES.lock().unwrap();
 			Selector::add_group(&mut groups);
@@ -172,6 +173,9 @@ impl Selector {
 								0,
 							)?;
 							index += len;
+							if let Some(nested) = nested_matched.first() {
+								nested_selectors.push(nested.chars.iter().collect());
+							}
 							matched.extend(nested_matched);
 							Selector::add_group_item(&mut groups, (r.make(matched), comb), is_new_item);
 							finded = true;
@@ -197,6 +201,12 @@ impl Selector {
 					reason: String::from("Wrong selector rule at last"),
 				});
 			}
+			// the nested selectors must be valid too, release the locks before parse them
+			drop(rules);
+			drop(splitter);
+			for nested in &nested_selectors {
+				Selector::from_str(nested, false)?;
+			}
 			// optimize groups to query process
 			selector.optimize(groups, use_lookup);
 		}
-- 
2.43.0


From 240ea1ae7356d07b7f67a328c03fc70df70e9be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:23 +0000
Subject: [PATCH 38/45] hook: the locks report what happens to them with --cfg
 visdom_verif

---
 src/lib.rs                     |   3 +
 src/mesdoc/mod.rs              |   3 +
 src/mesdoc/selector/mod.rs     |  12 ++-
 src/mesdoc/selector/pattern.rs |   9 +-
 src/mesdoc/selector/rule.rs    |   9 +-
 src/verif.rs                   | 145 +++++++++++++++++++++++++++++++++
 6 files changed, 175 insertions(+), 6 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 46bef10..5db6d39 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,9 +9,12 @@
 //! - Useful API methods: e.g. `find`, `filter`, `has`, `is`, `not`, `add`, `closest`, `map` and so on.
 //! - Content mutations: `set_html`, `set_text` can also called by text nodes, external methods such as `append_text`、`prepend_text` are supported.
 //! - Well tested: the unit tests have covered most cases, but if you meet any bugs or questions, welcome to submit issues or PR to us.
+#![allow(unknown_lints, unexpected_cfgs)]
 #[macro_use]
 mod macros;
 mod mesdoc;
+#[cfg(visdom_verif)]
+pub mod verif;
 // feature="text"
 cfg_feat_text! {
 	use mesdoc::interface::Texts;
diff --git a/src/mesdoc/mod.rs b/src/mesdoc/mod.rs
index 2b65dbc..40298df 100644
--- a/src/mesdoc/mod.rs
+++ b/src/mesdoc/mod.rs
@@ -1,3 +1,6 @@
+#[cfg(visdom_verif)]
+use crate::verif::Once;
+#[cfg(not(visdom_verif))]
 use std::sync::Once;
 static INIT_LIB: Once = Once::new();
 // export rules
diff --git a/src/mesdoc/selector/mod.rs b/src/mesdoc/selector/mod.rs
index e0bae4c..b3b39ae 100644
--- a/src/mesdoc/selector/mod.rs
+++ b/src/mesdoc/selector/mod.rs
@@ -2,14 +2,18 @@ pub mod pattern;
 pub mod rule;
 use self::{pattern::BoxDynPattern, rule::Matcher};
 use crate::mesdoc::{constants::NAME_SELECTOR_ALL, error::Error};
+#[cfg(visdom_verif)]
+use crate::verif::lazy_static;
+#[cfg(visdom_verif)]
+use crate::verif::Mutex;
+#[cfg(not(visdom_verif))]
 use lazy_static::lazy_static;
 pub use pattern::MatchedQueue;
 use pattern::{exec, Matched};
 use rule::{Rule, RULES};
-use std::{
-	str::FromStr,
-	sync::{Arc, Mutex},
-};
+#[cfg(not(visdom_verif))]
+use std::sync::Mutex;
+use std::{str::FromStr, sync::Arc};
 
 lazy_static! {
 	static ref SPLITTER: Mutex<Vec<BoxDynPattern>> =
diff --git a/src/mesdoc/selector/pattern.rs b/src/mesdoc/selector/pattern.rs
index b964523..56bdca1 100644
--- a/src/mesdoc/selector/pattern.rs
+++ b/src/mesdoc/selector/pattern.rs
@@ -1,8 +1,15 @@
 use crate::mesdoc::utils::{divide_isize, is_char_available_in_key, RoundType};
+#[cfg(visdom_verif)]
+use crate::verif::lazy_static;
+#[cfg(visdom_verif)]
+use crate::verif::Mutex;
+#[cfg(not(visdom_verif))]
 use lazy_static::lazy_static;
 use regex::Regex;
 use std::borrow::Cow;
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(visdom_verif))]
+use std::sync::Mutex;
 use std::{collections::HashMap, fmt::Debug, usize};
 
 pub type FromParamsFn = Box<dyn Fn(&str, &str) -> Result<BoxDynPattern, String> + Send + 'static>;
diff --git a/src/mesdoc/selector/rule.rs b/src/mesdoc/selector/rule.rs
index 0093a50..9eea208 100644
--- a/src/mesdoc/selector/rule.rs
+++ b/src/mesdoc/selector/rule.rs
@@ -4,9 +4,16 @@ use crate::mesdoc::{
 	constants::PRIORITY_PSEUDO_SELECTOR,
 	interface::{Elements, IElementTrait},
 };
+#[cfg(visdom_verif)]
+use crate::verif::lazy_static;
+#[cfg(visdom_verif)]
+use crate::verif::Mutex;
+#[cfg(not(visdom_verif))]
 use lazy_static::lazy_static;
 use std::fmt;
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
+#[cfg(not(visdom_verif))]
+use std::sync::Mutex;
 lazy_static! {
 	pub static ref RULES: Mutex<Vec<(&'static str, Arc<Rule>)>> = Mutex::new(Vec::with_capacity(20));
 }
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..e62ed2e
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,145 @@
+//! Only with `--cfg visdom_verif`: the locks of the library report what happens to them.
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockResult};
+
+/// what happens, and the lock it happens to: `want`, `lock`, `unlock` of a mutex; `begin`, `end` of what is
+/// done once, `pass` when it has been done before
+pub type Report = fn(&'static str, usize);
+static REPORT: OnceLock<Report> = OnceLock::new();
+
+pub fn report_to(report: Report) {
+	let _ = REPORT.set(report);
+}
+
+fn report(what: &'static str, lock: usize) {
+	if let Some(report) = REPORT.get() {
+		report(what, lock);
+	}
+}
+
+/// a mutex
+#[derive(Debug, Default)]
+pub struct Mutex<T: ?Sized> {
+	inner: std::sync::Mutex<T>,
+}
+
+pub struct Guard<'a, T: ?Sized> {
+	inner: Option<std::sync::MutexGuard<'a, T>>,
+	id: usize,
+}
+
+impl<T> Mutex<T> {
+	pub const fn new(value: T) -> Self {
+		Mutex {
+			inner: std::sync::Mutex::new(value),
+		}
+	}
+}
+
+impl<T: ?Sized> Mutex<T> {
+	fn id(&self) -> usize {
+		self as *const Self as *const u8 as usize
+	}
+
+	pub fn lock(&self) -> LockResult<Guard<'_, T>> {
+		report("want", self.id());
+		let inner = self.inner.lock();
+		report("lock", self.id());
+		let guard = |inner| Guard {
+			inner: Some(inner),
+			id: self.id(),
+		};
+		inner
+			.map(guard)
+			.map_err(|e| PoisonError::new(guard(e.into_inner())))
+	}
+
+	pub fn try_lock(&self) -> TryLockResult<std::sync::MutexGuard<'_, T>> {
+		self.inner.try_lock()
+	}
+}
+
+impl<T: ?Sized> Deref for Guard<'_, T> {
+	type Target = T;
+	fn deref(&self) -> &T {
+		self.inner.as_ref().unwrap()
+	}
+}
+
+impl<T: ?Sized> DerefMut for Guard<'_, T> {
+	fn deref_mut(&mut self) -> &mut T {
+		self.inner.as_mut().unwrap()
+	}
+}
+
+impl<T: ?Sized> Drop for Guard<'_, T> {
+	fn drop(&mut self) {
+		report("unlock", self.id);
+		drop(self.inner.take());
+	}
+}
+
+/// what is done once
+#[derive(Debug)]
+pub struct Once {
+	inner: std::sync::Once,
+}
+
+impl Once {
+	#[allow(clippy::new_without_default)]
+	pub const fn new() -> Self {
+		Once {
+			inner: std::sync::Once::new(),
+		}
+	}
+
+	pub fn call_once<F: FnOnce()>(&self, f: F) {
+		let id = self as *const Self as usize;
+		report("want", id);
+		let mut first = false;
+		self.inner.call_once(|| {
+			first = true;
+			report("begin", id);
+			f();
+		});
+		report(if first { "end" } else { "pass" }, id);
+	}
+
+	pub fn is_completed(&self) -> bool {
+		self.inner.is_completed()
+	}
+}
+
+/// what is made at its first use
+pub struct Lazy<T> {
+	once: Once,
+	value: OnceLock<T>,
+	make: fn() -> T,
+}
+
+impl<T> Lazy<T> {
+	pub const fn new(make: fn() -> T) -> Self {
+		Lazy {
+			once: Once::new(),
+			value: OnceLock::new(),
+			make,
+		}
+	}
+}
+
+impl<T> Deref for Lazy<T> {
+	type Target = T;
+	fn deref(&self) -> &T {
+		self.once.call_once(|| {
+			let _ = self.value.set((self.make)());
+		});
+		self.value.get().unwrap()
+	}
+}
+
+macro_rules! lazy_static {
+	($($(#[$m:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr;)*) => {
+		$($(#[$m])* $v static $n: crate::verif::Lazy<$t> = crate::verif::Lazy::new(|| $e);)*
+	};
+}
+pub(crate) use lazy_static;
-- 
2.43.0


From 639b36f748162ee1262548604bbc7bb638022f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:23 +0000
Subject: [PATCH 39/45] fix: siblings dropped a blank escaped at the selector's
 end

---
 src/mesdoc/interface/elements.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 1901560..90ce7d6 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -1541,8 +1541,7 @@ impl<'a> Elements<'a> {
 		let siblings_comb = Combinator::Siblings;
 		let mut child_selector: Selector;
 		let child_comb = Combinator::Children;
-		let selector = selector.trim();
-		if selector.is_empty() {
+		if selector.trim().is_empty() {
 			siblings_selector = Selector::from_segment(Selector::make_comb_all(siblings_comb));
 			child_selector = Selector::from_segment(Selector::make_comb_all(child_comb));
 		} else {
-- 
2.43.0


From f7dd554a8afd8eaaa0156255717612df140999fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:03 +0000
Subject: [PATCH 40/45] fix: filter, not and is_all with several selectors on
 elements out of document order

---
 src/mesdoc/interface/elements.rs | 34 +++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 90ce7d6..9ea1d82 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -998,7 +998,7 @@ impl<'a> Elements<'a> {
 						break;
 					}
 					_ => {
-						result = result.add(filtered);
+						result = self.merge_subsets(result, filtered);
 					}
 				}
 			}
@@ -1009,13 +1009,14 @@ impl<'a> Elements<'a> {
 			}
 			FilterType::Not => {
 				// Exclude `filtered` from self
-				if result.is_empty() {
-					// no element matched the not selector
-					result = self.cloned();
-				} else {
-					// filtered by not in
-					result = self.not_in(&result);
+				let mut excludes = result.get_ref().iter().peekable();
+				let mut lasts = Elements::with_capacity(total);
+				for ele in eles {
+					if excludes.next_if(|cur| ele.is(cur)).is_none() {
+						lasts.push(ele.cloned());
+					}
 				}
+				result = lasts;
 			}
 			_ => {
 				// FilterType::Is: just return 'all_matched'
@@ -1025,6 +1026,25 @@ impl<'a> Elements<'a> {
 		(result, all_matched)
 	}
 
+	// merge two subsets of the elements, both keep the order of the elements
+	// the elements may be out of the document order, or in different documents
+	fn merge_subsets(&self, first: Elements<'a>, second: Elements<'a>) -> Elements<'a> {
+		if first.is_empty() {
+			return second;
+		}
+		let mut result = Elements::with_capacity(self.length());
+		let mut firsts = first.get_ref().iter().peekable();
+		let mut seconds = second.get_ref().iter().peekable();
+		for ele in self.get_ref() {
+			let in_first = firsts.next_if(|cur| ele.is(cur)).is_some();
+			let in_second = seconds.next_if(|cur| ele.is(cur)).is_some();
+			if in_first || in_second {
+				result.push(ele.cloned());
+			}
+		}
+		result
+	}
+
 	// filter in type
 	fn filter_in_handle(&self, search: &Elements, filter_type: FilterType) -> (Elements<'a>, bool) {
 		let eles = self.get_ref();
-- 
2.43.0


From f6fe30e1de7a9c64354ff296f714fc9ad0aa19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:04 +0000
Subject: [PATCH 41/45] fix: structural pseudo-classes on elements out of
 document order

---
 src/mesdoc/rules/pseudo.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mesdoc/rules/pseudo.rs b/src/mesdoc/rules/pseudo.rs
index 48e8748..12c961e 100644
--- a/src/mesdoc/rules/pseudo.rs
+++ b/src/mesdoc/rules/pseudo.rs
@@ -111,13 +111,14 @@ where
 		allow_indexs: None,
 		parent: None,
 	};
+	let mut prev_index = 0;
 	for (index, ele) in eles.get_ref().iter().enumerate() {
 		if let Some(parent) = ele.parent() {
 			let mut is_first = false;
 			let mut in_next_group = false;
 			if let Some(prev_parent) = &data.parent {
-				if parent.is(prev_parent) {
-					// sibling node, just add
+				if parent.is(prev_parent) && ele.index() > prev_index {
+					// a later sibling node, just add
 					data.range.end = index + 1;
 				} else {
 					// not sibling
@@ -138,6 +139,12 @@ where
 				data.allow_indexs = allow_indexs_fn(parent.children().length());
 				data.parent = Some(parent);
 			}
+			prev_index = ele.index();
+		} else if data.parent.is_some() {
+			// no parent, not sibling
+			cb(&mut data);
+			data.parent = None;
+			data.range = 0..0;
 		}
 	}
 	if !data.range.is_empty() {
-- 
2.43.0


From 3cd65738d16eb58039c4719854633c27e3bb5e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 42/45] fix: queries on elements that are no longer in document
 order

---
 src/mesdoc/interface/elements.rs | 46 +++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 9ea1d82..5a7a2b0 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -373,6 +373,9 @@ impl<'a> Elements<'a> {
 impl<'a> Elements<'a> {
 	// keep one sibling, first<asc:true> or last<asc:false>
 	fn unique_sibling(&self, asc: bool) -> Elements<'a> {
+		if !self.is_sorted() {
+			return self.sorted().unique_sibling(asc);
+		}
 		let total = self.length();
 		let mut parents_indexs: HashSet<VecDeque<usize>> = HashSet::with_capacity(total);
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
@@ -495,10 +498,30 @@ impl<'a> Elements<'a> {
 			compare_indexs(&a_index, &b_index)
 		});
 	}
+	// check if the elements are in document order
+	// they may be not when the document has been changed after they were selected
+	fn is_sorted(&self) -> bool {
+		let mut prev_indexs: Option<VecDeque<usize>> = None;
+		self.length() < 2
+			|| self.get_ref().iter().all(|ele| {
+				let indexs = get_tree_indexs(ele);
+				let sorted = prev_indexs.as_ref().map_or(true, |prev| {
+					compare_indexs(prev, &indexs) != Ordering::Greater
+				});
+				prev_indexs = Some(indexs);
+				sorted
+			})
+	}
 	// unique
 	fn unique(&mut self) {
 		self.get_mut_ref().dedup_by(|a, b| a.is(b));
 	}
+	// the same elements in document order
+	fn sorted(&self) -> Elements<'a> {
+		let mut result = self.cloned();
+		result.sort_and_unique();
+		result
+	}
 	// sort then unique
 	fn sort_and_unique(&mut self) {
 		self.sort();
@@ -1051,6 +1074,8 @@ impl<'a> Elements<'a> {
 		let total = eles.len();
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
+		// when both are in document order, just search forward
+		let in_order = self.is_sorted() && search.is_sorted();
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
@@ -1058,7 +1083,7 @@ impl<'a> Elements<'a> {
 				for ele in eles {
 					if let Some(index) = search.index_of(ele, start_index) {
 						// also in search, include
-						start_index = index + 1;
+						start_index = if in_order { index + 1 } else { 0 };
 						result.push(ele.cloned());
 						if start_index >= search_total {
 							break;
@@ -1071,7 +1096,7 @@ impl<'a> Elements<'a> {
 				for ele in eles {
 					if let Some(index) = search.index_of(ele, start_index) {
 						// also in search, exclude
-						start_index = index + 1;
+						start_index = if in_order { index + 1 } else { 0 };
 					} else {
 						result.push(ele.cloned());
 					}
@@ -1092,7 +1117,7 @@ impl<'a> Elements<'a> {
 					for ele in eles {
 						if let Some(index) = search.index_of(ele, start_index) {
 							// also in search, exclude
-							start_index = index + 1;
+							start_index = if in_order { index + 1 } else { 0 };
 						} else {
 							is_all_matched = false;
 							break;
@@ -1804,7 +1829,9 @@ impl<'a> Elements<'a> {
 						}
 					}
 				}
-				// need sort and unique
+			}
+			// need sort and unique
+			if total > 1 {
 				result.sort_and_unique();
 			}
 			result
@@ -1815,6 +1842,10 @@ impl<'a> Elements<'a> {
 	}
 	// for `find` and `select_with_comb`
 	fn find_selector(&self, selector: &Selector) -> Elements<'a> {
+		// the rules depend on the document order
+		if !self.is_sorted() {
+			return self.sorted().find_selector(selector);
+		}
 		let mut result = Elements::with_capacity(DEF_NODES_LEN);
 		if !self.is_empty() {
 			for p in &selector.process {
@@ -2687,6 +2718,13 @@ impl<'a> Elements<'a> {
 		if eles.is_empty() {
 			return self.cloned();
 		}
+		// the elements can't be merged by order
+		if !self.is_sorted() || !eles.is_sorted() {
+			let mut result = self.cloned();
+			result.get_mut_ref().extend(eles);
+			result.sort_and_unique();
+			return result;
+		}
 		let first_eles = self;
 		let second_eles = &eles;
 		// compare first and second
-- 
2.43.0


From bd3301bac34e7f4d348be984def12a69017918a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 43/45] fix: filter_in, not_in and is_all_in on elements at the
 same position of different trees

---
 src/mesdoc/interface/elements.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 5a7a2b0..690fc59 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -501,13 +501,23 @@ impl<'a> Elements<'a> {
 	// check if the elements are in document order
 	// they may be not when the document has been changed after they were selected
 	fn is_sorted(&self) -> bool {
+		self.is_sorted_by(|order| order != Ordering::Greater)
+	}
+	// elements of different trees may be at the same position, so their order tells nothing
+	fn is_strict_sorted(&self) -> bool {
+		self.is_sorted_by(|order| order == Ordering::Less)
+	}
+	fn is_sorted_by<F>(&self, is_ordered: F) -> bool
+	where
+		F: Fn(Ordering) -> bool,
+	{
 		let mut prev_indexs: Option<VecDeque<usize>> = None;
 		self.length() < 2
 			|| self.get_ref().iter().all(|ele| {
 				let indexs = get_tree_indexs(ele);
-				let sorted = prev_indexs.as_ref().map_or(true, |prev| {
-					compare_indexs(prev, &indexs) != Ordering::Greater
-				});
+				let sorted = prev_indexs
+					.as_ref()
+					.map_or(true, |prev| is_ordered(compare_indexs(prev, &indexs)));
 				prev_indexs = Some(indexs);
 				sorted
 			})
@@ -1075,7 +1085,7 @@ impl<'a> Elements<'a> {
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
 		// when both are in document order, just search forward
-		let in_order = self.is_sorted() && search.is_sorted();
+		let in_order = self.is_strict_sorted() && search.is_strict_sorted();
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
-- 
2.43.0


From c6f95d74477ba68b67f693e8bae5d39cd09ffc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:09 +0000
Subject: [PATCH 44/45] fix: attribute selectors with an empty value matched
 elements without the attribute

---
 src/mesdoc/rules/attr.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesdoc/rules/attr.rs b/src/mesdoc/rules/attr.rs
index 717364e..efad246 100644
--- a/src/mesdoc/rules/attr.rs
+++ b/src/mesdoc/rules/attr.rs
@@ -51,7 +51,8 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 								let attr_value: String = format!("{}-", attr_value);
 								v.starts_with(&attr_value)
 							}
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 						// in a value list that splitted by whitespaces
 						"~" => Box::new(move |val: &Option<IAttrValue>| match val {
@@ -69,12 +70,14 @@ pub fn init(rules: &mut Vec<RuleItem>) {
 						// has a attribute and who's value not equal to setted value
 						"!" => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => attr_value != *v,
-							_ => !attr_value.is_empty(),
+							Some(IAttrValue::True) => !attr_value.is_empty(),
+							None => true,
 						}),
 						// equal to value
 						_ => Box::new(move |val: &Option<IAttrValue>| match val {
 							Some(IAttrValue::Value(v, _)) => *v == attr_value,
-							_ => attr_value.is_empty(),
+							Some(IAttrValue::True) => attr_value.is_empty(),
+							None => false,
 						}),
 					}
 				}
-- 
2.43.0


From 99c9136637f0b643769676058ae86831f861e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:22 +0000
Subject: [PATCH 45/45] fix: queries on sets with elements of several trees

---
 src/mesdoc/interface/elements.rs | 92 ++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 28 deletions(-)

diff --git a/src/mesdoc/interface/elements.rs b/src/mesdoc/interface/elements.rs
index 690fc59..3ea4220 100644
--- a/src/mesdoc/interface/elements.rs
+++ b/src/mesdoc/interface/elements.rs
@@ -40,6 +40,15 @@ fn get_tree_indexs(ele: &BoxDynElement) -> VecDeque<usize> {
 	indexs
 }
 
+// get the top element of the tree
+fn get_tree_top<'a>(ele: &BoxDynElement<'a>) -> BoxDynElement<'a> {
+	let mut top = ele.cloned();
+	while let Some(parent) = top.parent() {
+		top = parent;
+	}
+	top
+}
+
 // check if the ancestor is really an ancestor of the element
 fn is_ancestor_of(ancestor: &BoxDynElement, ele: &BoxDynElement) -> bool {
 	let mut cur = ele.parent();
@@ -381,7 +390,7 @@ impl<'a> Elements<'a> {
 		let mut uniques: Vec<BoxDynElement> = Vec::with_capacity(total);
 		let mut prev_parent: Option<BoxDynElement> = None;
 		let mut has_root = false;
-		let mut handle = |ele: &BoxDynElement| {
+		let mut handle = |ele: &BoxDynElement, mut indexs: VecDeque<usize>| {
 			if let Some(parent) = ele.parent() {
 				if let Some(prev_parent) = &prev_parent {
 					if parent.is(prev_parent) {
@@ -389,7 +398,7 @@ impl<'a> Elements<'a> {
 					}
 				}
 				// parents
-				let indexs = get_tree_indexs(&parent);
+				indexs.pop_back();
 				// set prev parent
 				prev_parent = Some(parent);
 				// new parent
@@ -404,12 +413,12 @@ impl<'a> Elements<'a> {
 		};
 		// just keep one sibling node
 		if asc {
-			for ele in self.get_ref() {
-				handle(ele);
+			for (ele, indexs) in self.get_ref().iter().zip(self.get_indexs()) {
+				handle(ele, indexs);
 			}
 		} else {
-			for ele in self.get_ref().iter().rev() {
-				handle(ele)
+			for (ele, indexs) in self.get_ref().iter().zip(self.get_indexs()).rev() {
+				handle(ele, indexs)
 			}
 			// reverse, keep the order
 			uniques.reverse();
@@ -433,10 +442,10 @@ impl<'a> Elements<'a> {
 		let mut uniques: Vec<(BoxDynElement, bool)> = Vec::with_capacity(total);
 		let mut parents: HashMap<usize, BoxDynElement> = HashMap::with_capacity(total);
 		// just keep one sibling node
-		for ele in self.get_ref() {
+		for (ele, mut indexs) in self.get_ref().iter().zip(self.get_indexs()) {
 			if let Some(parent) = ele.parent() {
 				// parent indexs
-				let indexs = get_tree_indexs(&parent);
+				indexs.pop_back();
 				if let Some((index, changed)) = parents_indexs.get_mut(&indexs) {
 					if !*changed {
 						let index = *index;
@@ -462,8 +471,7 @@ impl<'a> Elements<'a> {
 	fn unique_parents(&self) -> Elements<'a> {
 		// keep only top parent
 		let mut ancestors: Vec<(VecDeque<usize>, &BoxDynElement)> = Vec::with_capacity(self.length());
-		for ele in self.get_ref() {
-			let ele_indexs = get_tree_indexs(ele);
+		for (ele, ele_indexs) in self.get_ref().iter().zip(self.get_indexs()) {
 			let cur_len = ancestors.len();
 			if cur_len > 0 {
 				// just check the last ancestor
@@ -490,20 +498,43 @@ impl<'a> Elements<'a> {
 		}
 		result
 	}
-	// sort
+	// the indexs of each element, begin with the number of the tree that it's in
+	// because the indexs are only comparable in the same tree
+	fn get_indexs(&self) -> Vec<VecDeque<usize>> {
+		let mut tops: Vec<BoxDynElement> = Vec::with_capacity(1);
+		self
+			.get_ref()
+			.iter()
+			.map(|ele| {
+				let top = get_tree_top(ele);
+				let number = tops
+					.iter()
+					.position(|cur| cur.is(&top))
+					.unwrap_or(tops.len());
+				if number == tops.len() {
+					tops.push(top);
+				}
+				let mut indexs = get_tree_indexs(ele);
+				indexs.push_front(number);
+				indexs
+			})
+			.collect()
+	}
+	// sort, tree by tree
 	fn sort(&mut self) {
-		self.get_mut_ref().sort_by(|a, b| {
-			let a_index = get_tree_indexs(a);
-			let b_index = get_tree_indexs(b);
-			compare_indexs(&a_index, &b_index)
-		});
+		let indexs = self.get_indexs();
+		let nodes = self.get_mut_ref();
+		let mut orders: Vec<(VecDeque<usize>, BoxDynElement<'a>)> =
+			indexs.into_iter().zip(nodes.drain(..)).collect();
+		orders.sort_by(|(a_index, _), (b_index, _)| compare_indexs(a_index, b_index));
+		nodes.extend(orders.into_iter().map(|(_, ele)| ele));
 	}
 	// check if the elements are in document order
 	// they may be not when the document has been changed after they were selected
 	fn is_sorted(&self) -> bool {
 		self.is_sorted_by(|order| order != Ordering::Greater)
 	}
-	// elements of different trees may be at the same position, so their order tells nothing
+	// in document order, and no element appears twice
 	fn is_strict_sorted(&self) -> bool {
 		self.is_sorted_by(|order| order == Ordering::Less)
 	}
@@ -511,16 +542,20 @@ impl<'a> Elements<'a> {
 	where
 		F: Fn(Ordering) -> bool,
 	{
-		let mut prev_indexs: Option<VecDeque<usize>> = None;
 		self.length() < 2
-			|| self.get_ref().iter().all(|ele| {
-				let indexs = get_tree_indexs(ele);
-				let sorted = prev_indexs
-					.as_ref()
-					.map_or(true, |prev| is_ordered(compare_indexs(prev, &indexs)));
-				prev_indexs = Some(indexs);
-				sorted
-			})
+			|| self
+				.get_indexs()
+				.windows(2)
+				.all(|indexs| is_ordered(compare_indexs(&indexs[0], &indexs[1])))
+	}
+	// check if all the elements of the two sets are in the same tree
+	fn is_same_tree(&self, eles: &Elements) -> bool {
+		if let Some(first) = self.get_ref().first() {
+			let top = get_tree_top(first);
+			let in_tree = |ele: &BoxDynElement| get_tree_top(ele).is(&top);
+			return self.get_ref().iter().all(in_tree) && eles.get_ref().iter().all(in_tree);
+		}
+		true
 	}
 	// unique
 	fn unique(&mut self) {
@@ -1085,7 +1120,8 @@ impl<'a> Elements<'a> {
 		let mut result = Elements::with_capacity(total);
 		let mut all_matched = false;
 		// when both are in document order, just search forward
-		let in_order = self.is_strict_sorted() && search.is_strict_sorted();
+		let in_order =
+			self.is_same_tree(search) && self.is_strict_sorted() && search.is_strict_sorted();
 		match filter_type {
 			FilterType::Filter => {
 				let mut start_index = 0;
@@ -2729,7 +2765,7 @@ impl<'a> Elements<'a> {
 			return self.cloned();
 		}
 		// the elements can't be merged by order
-		if !self.is_sorted() || !eles.is_sorted() {
+		if !self.is_same_tree(&eles) || !self.is_sorted() || !eles.is_sorted() {
 			let mut result = self.cloned();
 			result.get_mut_ref().extend(eles);
 			result.sort_and_unique();
-- 
2.43.0

