#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json: one place for what is claimed"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E, L, P = "src/mesdoc/interface/elements.rs", "src/lib.rs", "src/mesdoc/rules/pseudo.rs"
SM, SP, SR, U = "src/mesdoc/selector/mod.rs", "src/mesdoc/selector/pattern.rs", "src/mesdoc/selector/rule.rs", "src/mesdoc/utils.rs"
EL, TX, AT = "src/mesdoc/interface/element.rs", "src/mesdoc/interface/texts.rs", "src/mesdoc/rules/attr.rs"
ID, CL, NM, ND, DC = "src/mesdoc/rules/id.rs", "src/mesdoc/rules/class.rs", "src/mesdoc/rules/name.rs", "src/mesdoc/interface/node.rs", "src/mesdoc/interface/document.rs"
props = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    props.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}})

prop("C01", "find returns exactly the elements the selector denotes",
 "For every document, every set of start elements and every selector made of compounds joined by descendant, child, adjacent and following-sibling combinators and by commas, find returns every element below (or, after a leading sibling combinator, beside) a start element that the selector reaches from it, and no other. A comma list returns the union of its alternatives, and a leading combinator relates its first compound to the start elements themselves.",
 ["inputs"], "all documents, start sets and selectors",
 "The tests ask a few dozen selectors on a few fixed pages; which elements match is decided by a search over ancestors and siblings with backtracking and shortcuts that depend on the shape of both the tree and the selector.",
 [E, SM, U], [("select_with_comb, search by combinator, shortcuts for the last or the first compound", E), ("query segments and their order", SM)], ["Elements::find"])
prop("C02", "Every answer is duplicate-free and in document order",
 "Whatever query produced it (find, filters, every traversal method, closest, add), the resulting set contains no element twice and lists its elements in document order. This holds for overlapping or nested start sets, comma lists in any order and after any changes to the tree.",
 ["inputs", "histories"], "all start sets, selectors and trees, also changed ones",
 "Order and uniqueness are kept by several hand-written merge and dedup steps, each valid only under assumptions on its inputs; the tests mostly compare lengths on small sets.",
 [E, U], [("sort_by document position, add, unique_all / is_same merging", E), ("compare_indexs, get_tree_indexs", U)], ["every Elements-returning method"])
prop("C03", "Positional pseudo-classes count element siblings exactly",
 "nth-child, nth-last-child, nth-of-type and nth-last-of-type match an element with a parent exactly when its 1-based position among its element siblings (of its tag), counted from the front or the back, equals a*n+b for some n >= 0; for any integers a and b and for odd, even and plain numbers. first-, last-, only-child and -of-type agree with them, text and comments never count, and the answer is the same in find, filter and is.",
 ["inputs"], "all sibling lists and all a, b",
 "The index arithmetic has a separate branch for each sign of a and b and a separate bulk implementation for whole sets; the tests sample a few formulas on one list.",
 [P, U], [("nth matchers, allow list and per-element apply", P), ("get_all_nth_index / divide helpers", U)], ["Elements::find", "Elements::filter", "Elements::is"])
prop("C04", "Tag, id, class and attribute selectors match by their definition",
 "A tag selector compares names without case, an id selector compares the whole id, a class selector tests membership in the white-space separated class list, and [a], [a=v], [a!=v], [a^=v], [a$=v], [a*=v], [a~=v], [a|=v] test the attribute's current value by their usual definitions (an empty operand of ^= $= *= ~= matches nothing; attribute names are compared without case). A compound matches when all its parts do.",
 ["inputs"], "all attribute values, operands and compounds",
 "Each operator has its own string code; the tests use a handful of values and hardly any empty, repeated or boundary ones.",
 [AT, ID, CL, NM, "src/mesdoc/rules/all.rs", SR], [("attribute rule closures", AT), ("class list split", CL), ("id lookup shortcut", ID), ("compound matching", SR)], ["Elements::find", "Elements::filter"])
prop("C05", "Content and state pseudo-classes match by their definition",
 ":empty matches elements that hold no element and no text (comments aside); :contains(t) matches when the element's text contains t; :has(s) when a descendant matches s; :not(s) when the element does not match s; :root only the top html element of a document; :header, :input and :submit by tag and type. Nested :not and :has compose, with any selector inside, comma lists included.",
 ["inputs"], "all trees and nested selectors",
 "The nested selectors are evaluated by a different route from top-level ones; the tests nest one level on fixed pages.",
 [P], [("pseudo rule registrations", P)], ["Elements::find", "Elements::filter"])
prop("C06", "filter, not, is, is_all, has and closest agree with matching",
 "filter(s) keeps exactly the elements of the set that match s anywhere in their own tree and not(s) exactly the rest, both in the set's order; is(s) is true when filter(s) is not empty and is_all(s) when the set is not empty and filter(s) is the whole set; has(s) keeps those with a matching descendant; closest(s) gives for each element the nearest matching element among itself and its ancestors. The same holds for elements in detached trees.",
 ["inputs", "histories"], "all sets, selectors and trees, attached or detached",
 "Each of these methods has its own implementation with its own shortcuts (a multi-part selector is searched from the root); agreement is never tested as such.",
 [E], [("filter/is/not via select from the root, closest loop, has", E)], ["Elements::filter", "not", "is", "is_all", "has", "closest"])
prop("C07", "Traversal methods return exactly the related elements",
 "children, parent, parents, prev, prev_all, next, next_all and siblings return, for any set of start elements, exactly the element relatives of that name (restricted to those the optional selector reaches), and prev_until, next_until, parents_until stop at the first element that matches, include it only on request and keep only those that match the filter. The element-level methods (next, previous, siblings, children, child nodes, parent, index, tag name) agree with the tree.",
 ["inputs", "histories"], "all start sets (overlapping, siblings, nested) and selectors, on fresh and changed trees",
 "The methods share dedup and early-exit code whose correctness depends on how the start elements lie to each other; the tests start from one element or one list.",
 [E, EL, L], [("prevs/nexts/parents/siblings with dedup of start elements", E), ("sibling walks by child index", EL), ("child_nodes_item_since_by", L)], ["Elements traversal methods", "IElementTrait"])
prop("C08", "Set operations follow set algebra",
 "add is the union in document order (tree by tree); filter_in, not_in and has_in are intersection, difference and the elements with a descendant in the other set; is_in and is_all_in are overlap and inclusion; contains(e, combinator) tests the relation. eq, get, first, last, length, is_empty and slice with any kind of range bounds select by position, and positions outside the set give nothing.",
 ["inputs"], "all pairs of sets, of one tree or several, all indexes and ranges",
 "add and the _in methods walk both sets in parallel relying on their order; the tests pass a few disjoint or identical pairs.",
 [E], [("add, filter_in/not_in/has_in, contains, slice", E)], ["Elements::add, *_in, eq, get, slice"])
prop("C09", "The tree stays well-formed under every history of changes",
 "After any sequence of insertions, replacements, removals, set_text, set_html, text-node edits and clones, including refused ones, every node has at most one parent, is in that parent's child list exactly once at the index it reports, no node is its own ancestor, and void elements, text and comments have no children. No such sequence panics.",
 ["histories"], "all sequences of changes on all trees",
 "The tests make one or two changes and look at the html; a stale parent, index or shared child list shows only in a later step.",
 [L, E], [("insert_adjacent, replace_with, remove_child, set_text, set_html maintain parent, child list and index", L), ("bulk insertion over sets", E)], ["node parent/children/index through the public node fields"])
prop("C10", "Inserted content lands exactly where asked, in order, once",
 "append, prepend, before, after (and append_to, prepend_to, insert_before, insert_after) put the inserted elements at the place asked, in their own order, and move them: they disappear from where they were, in the same or another document, and nothing else changes. With several targets the elements end up at the last one; the content of a loaded fragment is copied for all targets but the last.",
 ["inputs", "histories"], "all positions, targets and inserted sets, adjacent, nested or in other documents",
 "Moving within one child list shifts the indexes the insertion is computed from; the tests insert fresh content once.",
 [L, E], [("insert_adjacent index computation and reset_next_siblings_index", L), ("insert/copy for several targets", E)], ["Elements::append, prepend, before, after and reverses"])
prop("C11", "remove, empty and replace_with take out exactly what they name",
 "remove detaches exactly the elements of the set, keeping each one's own subtree, and empty takes out all children of each element; nothing else moves. replace_with puts the new content, in order, at the place of each replaced element and detaches that element; detached elements have no parent and can be inserted again.",
 ["inputs", "histories"], "all sets (siblings, nested, repeated removal) on all trees",
 "Removal adjusts the indexes of what follows; errors show only with several removals in one parent or nested ones, which the tests do not sample.",
 [L, E], [("remove_child, replace_with, set_text(\"\")", L), ("Elements::remove, empty, replace_with", E)], ["Elements::remove", "empty", "replace_with"])
prop("C12", "A refused insertion changes nothing and is reported",
 "Inserting an element into or beside itself or inside its own subtree, a whole document into an element, beside an element that has no parent, or into an element that cannot hold it is refused: the tree stays exactly as it was, nothing is lost from where it was, and the document's error handler is called. Acceptable targets of the same call are still served.",
 ["inputs", "histories"], "all refused combinations on all trees",
 "The tests have one or two refused calls and check only that they do not succeed; a half-done move loses nodes.",
 [L], [("validate_dom_change, remove_not_allowed_nodes, halt", L)], ["tree after a refused call", "error handler of load_catch"])
prop("C13", "Attributes behave as a map with case-insensitive names",
 "After set_attr the attribute has the value given (or none) whatever case the name is written in, after remove_attr it is gone; every other attribute keeps its value and order, and attr, has_attr, get_attributes, selectors and the serialised html all show the same map. Any value is kept, quotes included.",
 ["inputs", "histories"], "all sequences of set and remove with any names and values",
 "Names are kept in a side index next to the attribute list; only sequences with removal and re-adding show it drifting.",
 [L, EL], [("set_attribute, remove_attribute, get_attribute(s) over attrs and lc_name_map", L)], ["attr, has_attr, get_attributes, outer_html"])
prop("C14", "Class operations treat the class attribute as a set of words",
 "add_class, remove_class and toggle_class with one or several white-space separated words give exactly the union, the difference and the symmetric difference with the words the element had, for every element of the set; other attributes and elements are untouched. has_class and class selectors see the result.",
 ["inputs", "histories"], "all class values, arguments and sequences",
 "The tests use one or two classes with single blanks; repeated, prefix-related, blank or missing class values are not sampled.",
 [E], [("add_class, remove_class, toggle_class, has_class", E), ("split_class / retain helpers", U)], ["has_class, attr(\"class\"), .class selectors"])
prop("C15", "Text set is text read, and can never become markup",
 "After set_text(t) an element that can hold text has exactly the text t, for every string t (markup characters and character references included), and its html read again gives that same text and no new elements. text() of an element is the concatenation of the decoded text nodes below it in document order.",
 ["inputs"], "all strings and all trees",
 "The tests use plain words; escaping errors show only for particular characters and sequences.",
 [L, E, ND], [("set_text encodes, text_contents decodes", L)], ["set_text, text, html, outer_html"])
prop("C16", "Html written out denotes the tree, and set_html builds it",
 "html, outer_html, htmls and outer_htmls of any element, after any changes, read back to the same tree (attributes, text, comments, raw text) up to merged adjacent text; set_html(h) replaces the content by exactly the tree that h denotes.",
 ["inputs", "histories"], "all trees and html fragments",
 "The tests compare strings for a few fixed fragments, mostly unchanged ones.",
 [L], [("inner_html, outer_html, set_html", L)], ["html, outer_html, set_html"])
prop("C17", "Text-node operations touch exactly the text nodes they name",
 "texts(depth), texts_by and texts_by_rec give the text nodes (and raw-text elements) below the elements in document order, down to the given depth, not entering elements the caller excludes; setting, appending, prepending, replacing by html and removing a text node changes that node alone and is seen by text() and html().",
 ["inputs", "histories"], "all trees, depths, exclusions and edits",
 "The tests have few text nodes per element and one depth; edits that replace a node in the middle of a list are not sampled.",
 [L, TX, E], [("texts_by_rec loop, set_text/append_text/prepend_text/set_html/remove on text nodes", L), ("Texts", TX)], ["Elements::texts*, Texts, ITextTrait"])
prop("C18", "A copy is equal to the original and independent of it",
 "Copying an element (copied, copy_node, clone of a set) gives a detached tree equal to the original, made of new nodes only, with the original unchanged; later changes to either never show in the other.",
 ["inputs", "histories"], "all trees and all later changes",
 "Sharing of attributes or children between copy and original shows only when one of them is changed afterwards in the right place.",
 [L, E, EL], [("copy_node deep copy", L), ("Elements::clone", E)], ["copied, copy_node, Elements::clone"])
prop("C19", "Form values and :checked follow the form controls' state",
 "val() of an input or option is its value attribute, of a textarea its text, of a select the value of its first selected option (or of its first direct option when none is selected), of a multiple select the list of all selected ones, options inside optgroup included. :checked matches checked checkboxes and radios, selected options, and the default option of a single select with none selected; both follow attribute changes.",
 ["inputs", "histories"], "all form trees and attribute changes",
 "The combinations of multiple, selected, optgroup and order are sampled once each.",
 [L, P], [("value()", L), (":checked rule", P)], ["val, :checked"])
prop("C20", "No selector string can crash or corrupt a query",
 "For any string used as a selector in any method, valid or not, the call returns without panicking and without changing the tree; the answer has no repeated and no foreign elements. A string that is not a selector gives an empty answer and calls the document's error handler.",
 ["inputs"], "all strings",
 "The tests try a few malformed selectors; the tokenizer and the pseudo-class argument parsers index into character buffers.",
 [SM, SP, SR, E], [("Selector::from_str, pattern matchers, rule params", SM), ("error reporting in Elements", E)], ["any method taking a selector", "load_catch's handler"])
prop("C21", "Queries are pure and documents do not affect each other",
 "No query (selecting, reading text, html, attributes, values) changes any tree, and asking the same question again gives the same answer. Loading, querying or changing one document never affects another one, except by moving nodes between them explicitly.",
 ["inputs", "histories"], "all queries, repeated, with several documents loaded",
 "Interior mutability and global caches are behind shared references; the tests ask once and load one document.",
 [E, L, SM, "src/mesdoc/rules/mod.rs"], [("RefCell nodes borrowed by queries; global rule table", L)], ["every query"])
prop("C22", "Document helpers give the document's own elements, currently",
 "title, head, body, document_element, get_element_by_id, get_root_node, source_code and owner_document / root_element of any element answer from the document's current tree: the first such element in document order, nothing when there is none, also after changes.",
 ["inputs", "histories"], "all documents and all changes before the question",
 "The tests ask on freshly loaded, complete pages.",
 [DC, L], [("IDocumentTrait defaults", DC), ("get_element_by_id, source_code, owner_document", L)], ["Elements::document, IDocumentTrait"])
prop("C23", "After any changes, queries answer from the current tree",
 "After any history of changes, every selector query, traversal and text read answers as it would on a freshly built document with the same tree: moved, new and removed elements, changed attributes, ids and classes are seen immediately, in attached and in detached trees.",
 ["histories"], "all histories of changes followed by any query",
 "Indexes, id tables and owner links are kept next to the tree; the tests rarely query after more than one change.",
 [L, E, ID], [("index fields, owner document and id lookup kept up to date", L)], ["queries after changes"])
prop("C24", "All spellings of a selector mean the same; malformed ones are rejected",
 "White space around combinators, commas and inside brackets and parentheses, quote styles in attribute values, letter case of tags and attribute names, and the different ways to write an nth formula do not change what a selector selects. A string with a missing part, an unknown pseudo-class, an unclosed bracket or parenthesis or stray characters selects nothing and is reported, also when it is nested in :not or :has.",
 ["inputs"], "all spellings of all selectors, all malformed strings",
 "Each syntactic form is recognised by its own pattern code; the tests write almost everything one way.",
 [SP, SM, SR, P], [("patterns: identity, attr key, quoted, nth, regexp", SP), ("rule templates", SR)], ["find and other methods with a selector"])
prop("C25", "Documents used in separate threads do not disturb each other",
 "Threads that each load, query and change their own documents get exactly the answers they would get alone, whatever the interleaving, including when the library's first use happens in several threads at once.",
 ["schedules", "inputs"], "all interleavings of threads with their own documents",
 "One test spawns threads for a single query; global tables are initialised once, on first use.",
 ["src/mesdoc/mod.rs", SR, P, "src/mesdoc/rules/mod.rs", L], [("Once-guarded init of the global rule table behind a lock", "src/mesdoc/mod.rs")], ["answers per thread"])
prop("C26", "Iteration visits each element once, in order, with its index",
 "for_each and each call the function for each element in order with indexes 0, 1, 2, ... and stop right after it returns false; map, into_iter and get_ref give all elements in order; filter_by and not_by call it once per element and keep or drop exactly those it accepts; is_by and is_all_by are the existential and the universal test.",
 ["inputs"], "all sets and all functions",
 "The tests count calls on one list.",
 [E, TX], [("for_each, each, map, filter_by, not_by, is_by, is_all_by, IntoIterator", E)], ["Elements and Texts iteration"])
prop("C27", "Loading gives the tree the html denotes; bad html never crashes",
 "Loading well-formed html, in any concrete syntax (letter case of names, quote styles, optional blanks, void elements with or without a slash), gives exactly the tree it denotes, with consistent parents and indexes. Html with unclosed, unexpected or broken tags is either repaired into a well-formed tree or refused with a reported error, never a panic.",
 ["inputs"], "all html strings",
 "The tests load fixed pages.",
 [L], [("Vis::load_catch, options, init of the document", L)], ["Vis::load, load_catch, load_options"])

NOTE = ("TLC checks the property's laws on the specification over a complete bounded universe; every behaviour of that universe is replayed into the real code "
        "and, with seeded random episodes outside the bounds, judged by TLC step by step against the specification (answers, errors, whole observed tree). "
        "Sound on the executions observed; not a proof beyond the bounds. Trusts rphtml on well-formed html, the projection in harness/src/world.rs, and TLC.")
NOTE_R = ("Seeded executions of the real code in several threads, and many processes whose threads use the library for the first time at once, each judged by TLC step by step "
          "against the specification (answers, errors, whole observed tree). What the threads do with the library's locks is recorded and TLC explores every interleaving of any three "
          "(thorough: four) recorded runs for threads that wait for each other (spec/Locks.tla); a predicted circle is reported when it can be brought about in the code. Sound on the "
          "executions observed. Trusts rphtml on well-formed html, the projection in harness/src/world.rs, and TLC.")
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
               "technique": "TLA+ specification checked with TLC, bound to the code by replaying its behaviours and validating recorded traces",
               "level": "model_checking", "level_note": NOTE_R if p["id"] == "C25" else NOTE} for p in props]
    m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet && (RUSTFLAGS='--cfg visdom_verif' CARGO_TARGET_DIR=target-locks cargo build --offline --quiet || true)",
         "hooks": {"guard": "cfg(visdom_verif)", "enable": "RUSTFLAGS='--cfg visdom_verif' CARGO_TARGET_DIR=target-locks cargo build --offline (check.py build(True), for C25 only)",
                   "source_commits": ["240ea1ae7356d07b7f67a328c03fc70df70e9be5"]}, "checks": checks, "not_applicable": [],
         "notes": "One hook in /repo: the locks report what happens to them (used by C25). The observed trees are reachable through the public node types. The other changes in /repo are fix: commits (known/findings.jsonl)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
