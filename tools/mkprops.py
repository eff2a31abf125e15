import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Built trees are lossless and shaped exactly by the builder calls",
 "For every properly paired sequence of token, start-node, checkpoint, start-node-at-checkpoint and finish-node calls, the finished tree has exactly the nodes, tokens, kinds, order and nesting those calls describe, and its text is the concatenation of the texts added. The result does not depend on whether the builder owns its cache or reuses one that already holds arbitrary other trees.",
 ["histories","inputs"],"every paired sequence of builder calls (checkpoints taken anywhere and used at most while still valid), every choice of kinds and texts, every prior history of the node cache",
 "The suite builds a handful of fixed flat trees; nesting through checkpoints, wide nodes, empty nodes and a cache with previous contents are never checked against an expected tree.",
 ["src/green/builder.rs","src/green/node_cache.rs","src/green/node.rs","src/green/token.rs","src/cow_mut.rs"],
 [("stack of open nodes and of finished children, node made from the tail of the child stack","src/green/builder.rs"),("look-up-or-build of tokens and nodes","src/green/node_cache.rs")],
 [("parents","open nodes with the position of their first child","src/green/builder.rs"),("children","finished, not yet adopted elements","src/green/builder.rs")],["GreenNodeBuilder::finish"])
p("C02","Cache sharing is effective and never merges different content",
 "Within one node cache, however many builders use it and however large it grows, tokens of equal kind and text are one shared allocation, and so are nodes of equal kind with equal children when they and all nodes below them have at most three children. Elements that differ in kind, text or structure are never shared, and equality and hashing of green elements agree exactly with structural equality, however the elements were made.",
 ["histories","inputs"],"every history of one cache across builders, including growth of its tables, and every pair of elements made through it, through another cache, or by hand",
 "No test looks at sharing; a cache that stops deduplicating after a table grows, or that merges two different elements, passes everything.",
 ["src/green/node_cache.rs","src/green/node.rs","src/green/token.rs","src/arc.rs"],
 [("hash-consing with hand-computed hashes and pointer-equal children","src/green/node_cache.rs"),("three-children limit and zero hash marking uncached subtrees","src/green/node_cache.rs")],
 [("nodes, tokens","interned elements","src/green/node_cache.rs")],["addresses of green elements reached from finished trees","==, Hash"])
p("C03","Green edits substitute exactly and disturb no existing tree",
 "Replacing, inserting, removing or splicing children of an immutable node, and replacing a node or token in the context of its tree, yield a tree equal to the original except for exactly the requested substitution, with every length and offset recomputed. Every tree, snapshot and element obtained earlier keeps its content, and unchanged children are shared rather than copied.",
 ["histories","inputs"],"every tree, every position and range, every replacement, and every later sequence of such edits on the results",
 "No existing test calls any of these operations.",
 ["src/green/node.rs","src/cursor.rs","src/api.rs","src/green/element.rs"],
 [("rebuild one node from owned children","src/green/node.rs replace_child/insert_child/remove_child/splice_children"),("rebuild the path to the root","src/cursor.rs replace_with")],
 None,["returned green trees","children() of green nodes"])
p("C04","Every element reports its exact place in the text",
 "At any moment, in immutable and in mutable trees, before and after any sequence of edits, the text range of an element starts where the text of everything before it in its tree ends and is as long in bytes as its own text, so that children tile their parent in order. Its kind, text and index among its siblings are those of the element at that place.",
 ["histories","inputs"],"every tree (including empty tokens, childless nodes and multi-byte text), every element, every way of reaching it, every sequence of edits before",
 "Ranges are only used indirectly in one example; cached, incrementally updated and recomputed offsets are never compared with the text.",
 ["src/cursor.rs","src/green/node.rs","src/api.rs","src/sll.rs"],
 [("absolute offset stored in immutable cursors, recomputed through parents in mutable ones","src/cursor.rs"),("relative offsets stored in parents","src/green/node.rs"),("sibling indices adjusted on every edit","src/sll.rs")],
 [("offset, index","place of a cursor","src/cursor.rs")],["text_range, index, kind, text of nodes, tokens and elements"])
p("C05","Navigation agrees with the tree structure",
 "From any element of any tree, stepping to the parent, to the first or last child, to the next or previous sibling, with or without tokens and with or without a kind filter, to the first or last token below it, and to the next or previous token of the tree reaches exactly the element that the structure of the tree puts there, or nothing when there is none. This holds for childless nodes and empty tokens as well, and in mutable trees after any edits.",
 ["inputs","histories"],"every tree, every element, every step, every sequence of steps and edits",
 "The tests step through a few well-formed trees; swapping first and last child in the public API leaves all of them passing.",
 ["src/cursor.rs","src/api.rs"],
 [("scan of the parent's children from the element's index","src/cursor.rs next_sibling, prev_sibling and relatives"),("first_token, last_token, next_token, prev_token","src/cursor.rs")],
 None,["results of the navigation calls of nodes, tokens and elements in the raw and the typed API"])
p("C06","Traversals and child iterators visit each element once, in order",
 "Preorder walks produce a properly nested enter and leave event for every element of the subtree in document order and nothing outside it, and skipping a subtree after its enter event omits exactly the descendants of that element. Iterators over children, siblings, ancestors and descendants, with or without tokens or a kind filter, yield each matching element exactly once in order, continue from where they are when cloned, filtered or kept while their earlier results live or die, and then stay exhausted.",
 ["inputs","histories"],"every tree, every start element, every pattern of skips, every interleaving of advancing, cloning and filtering iterators with keeping or dropping what they returned",
 "Iterators are only run to completion over a few small trees; skipping, cloning, filtering half-way, reversed iteration and in-place reuse of dropped results are not exercised.",
 ["src/cursor.rs","src/api.rs","src/green/node.rs"],
 [("walk state with one event of look-ahead","src/cursor.rs Preorder, PreorderWithTokens"),("child iterators that reuse an unshared element in place","src/cursor.rs to_next_sibling, SyntaxNodeChildren, SyntaxElementChildren")],
 None,["events and elements yielded"])
p("C07","Position queries find the element at a position",
 "For every offset within a node, the token query returns the one non-empty token strictly containing it, or both non-empty neighbours when it falls between two, or the single one at an edge, or none when the node has no text. For every range within a node, the covering query returns an element that contains the range none of whose children does (for an empty range, one such element), and the child query returns a child containing the range exactly when there is one.",
 ["inputs"],"every tree including empty tokens and childless nodes anywhere, every node, every offset and range within it, in immutable and mutable trees",
 "No test calls any of the position queries.",
 ["src/cursor.rs","src/green/node.rs","src/api.rs","src/utility_types.rs"],
 [("filtering children by range and recursing","src/cursor.rs token_at_offset"),("binary search over relative child ranges","src/green/node.rs child_at_range")],
 None,["token_at_offset, covering_element, child_or_token_at_range, TokenAtOffset helpers"])
p("C08","Edits of a mutable tree do what was asked, seen through every handle",
 "Detaching an element makes it, with its whole subtree, the root of its own tree and closes the gap it leaves; splicing deletes exactly the children in the given range and inserts the given elements in order at its start, taking each out of wherever it was. Every handle obtained before keeps denoting the same element and reports its place in the new tree, whichever handles happen to be alive, and detaching the current element while looping over the children visits every child.",
 ["histories","inputs"],"every tree, every sequence of detach and splice operations (moves within a tree and between trees, tokens and nodes), every set of live handles, every loop over children that detaches any of them",
 "No test mutates a tree.",
 ["src/cursor.rs","src/sll.rs","src/api.rs","src/utility_types.rs"],
 [("re-spinning the path to the root with a new green tree","src/cursor.rs respine"),("linked list of live siblings whose indices are adjusted","src/sll.rs"),("detach, attach_child, splice_children","src/cursor.rs")],
 [("parent, index, first, next, prev, green","live cursor objects and their links","src/cursor.rs")],["all accessors of all live handles after each operation"])
p("C09","Mutable and immutable copies never affect each other",
 "An immutable tree, a green snapshot, an independent subtree copy and any other tree made from the same green tree never change, whatever is done to a mutable copy, and edits of one mutable tree never show in another. A mutable copy of an element denotes the same element at the same place in an equal tree, and whether a tree is mutable never changes and always decides whether editing it is accepted.",
 ["histories"],"every interleaving of making copies and snapshots at any element, in any order and number, with edits of any of the mutable ones",
 "No test makes a mutable copy other than of one childless root.",
 ["src/cursor.rs","src/api.rs","src/ast.rs","src/green/node.rs"],
 [("green trees are never written after construction","src/green/node.rs"),("clone_for_update copies the cursor path, clone_subtree and green take snapshots","src/cursor.rs"),("mutability flag checked on edits","src/cursor.rs")],
 None,["content of all live trees and snapshots after each operation"])
p("C10","Equality and hashing of handles follow element identity",
 "Two handles denoting the same element of the same tree always compare equal and hash equally, however and whenever each was obtained, also after edits; handles denoting different elements of one tree compare unequal, except possibly when both are empty, have equal content and lie at the same offset. Handles to an element and to an equal but differently placed element are unequal.",
 ["histories","inputs"],"every pair of live handles, every way of obtaining them, every sequence of edits in between",
 "No test compares handles, let alone ones obtained by different routes or across edits.",
 ["src/cursor.rs","src/api.rs"],
 [("equality and hash by green address and absolute offset","src/cursor.rs"),("one cursor object per element in mutable trees","src/cursor.rs NodeData::new, src/sll.rs link")],
 None,["==, Hash of nodes, tokens and elements"])
p("C11","Every tree object is released exactly once, when nothing reaches it",
 "For every history of creating, cloning, navigating, editing and dropping handles, iterators, snapshots, builders and caches, in any order, memory holds exactly the cursor objects of live handles and of their ancestors, and exactly the green elements reachable from them, from snapshots and from caches. Nothing is released while still reachable, nothing is released twice, and after the last handle goes nothing is left.",
 ["histories"],"every history and every order of drops, over immutable and mutable trees with shared subtrees",
 "Tests never observe memory; a leak, or a use after release that happens to read intact memory, passes.",
 ["src/cursor.rs","src/arc.rs","src/green/node.rs","src/green/token.rs","src/sll.rs"],
 [("reference counts of cursors, counting handles and live children","src/cursor.rs inc_rc, dec_rc, free"),("ownership of green elements by parents, roots and snapshots","src/cursor.rs, src/arc.rs"),("transfer of green ownership on detach and attach","src/cursor.rs")],
 [("rc","handles plus live children","src/cursor.rs"),("count","owners of a green element","src/arc.rs")],["a tracking allocator in the harness"])
p("C12","Green trees may be shared and dropped by threads in any schedule",
 "Green nodes and tokens can be cloned, read, moved and dropped by any number of threads in any interleaving: content never changes, each is released exactly once after its last owner, and every access by any thread happens before the release. Cursor handles cannot leave their thread.",
 ["schedules"],"every interleaving of the atomic steps of clone, read and drop by several threads, under the guarantees of the memory orderings the code requests",
 "The only test checks at compile time that green types may be sent; no schedule is ever run, and wrong orderings or non-atomic updates go unnoticed on any single run.",
 ["src/arc.rs","src/green/node.rs","src/green/token.rs","src/cursor.rs"],
 [("atomic reference count with release decrement and acquire before release of memory","src/arc.rs Clone, Drop"),("Send and Sync of green types only","src/arc.rs, src/cursor.rs")],
 [("count","number of owners","src/arc.rs")],["atomic operations on the count, release of memory"],"cfg rowan_sched_hooks: the atomics used for the count are replaced by ones that report to a scheduler")
p("C13","Text views behave like the string they stand for",
 "A view of the text of any node, or of any slice of one, behaves like the corresponding substring: length, emptiness, containment and position of a character, character at an offset, slicing with every form of range (and not beyond the view), visiting chunks, conversion to a string and comparison with strings and with other views. In particular comparison ignores how the text is divided into tokens.",
 ["inputs"],"every division of every text into tokens, nodes and empty tokens, every slice at character boundaries, every pair of views",
 "One test compares a dozen pairs of whole-tree views; slices, searches and offsets are not tested.",
 ["src/syntax_text.rs"],
 [("chunks clipped to the range","src/syntax_text.rs tokens_with_ranges"),("chunkwise comparison","src/syntax_text.rs zip_texts")],
 None,["all methods of text views"])
p("C14","Node pointers resolve to the node they were made from",
 "A pointer made from any node of an immutable tree resolves, in that tree or in any equal one, to a node of the same kind and range, and to that very node unless another node of the same kind has the same range. Resolving in a tree without such a node, or from a node that is not a root, gives nothing; typed pointers and their casts agree with the untyped ones and with what the typed node accepts.",
 ["inputs"],"every tree including childless nodes, every node, every pair of trees",
 "The two tests only check that mutable trees are refused.",
 ["src/ast.rs","src/green/node.rs","src/cursor.rs"],
 [("kind and range, resolved by descending through the children covering the range","src/ast.rs try_to_node")],
 None,["SyntaxNodePtr, AstPtr"])
p("C15","The typed layer is exactly the raw layer with kinds translated",
 "For every language definition, each operation of the typed tree API returns what the corresponding raw operation returns with kinds translated, and kind filters see translated kinds. Typed child, children and token look-ups return exactly the first, all, and the first matching children in order, and typed nodes copied for update or as a subtree keep their type and content.",
 ["inputs","histories"],"every tree, every element, every operation, every kind translation and every set of kinds a typed node accepts",
 "The tests use a language whose translation is the identity and never cast.",
 ["src/api.rs","src/ast.rs","src/utility_types.rs"],
 [("forwarding and wrapping","src/api.rs"),("cast and find","src/ast.rs support")],
 None,["typed API"])
p("C16","Display, debug and serialised forms reproduce the tree",
 "The display form of any green or syntax element is exactly its text. The debug forms state its kind, range and (abbreviated) text, the pretty debug form and the serialised form contain every element of the subtree once, in order and at its depth, all of them work for any kinds and texts, in immutable and mutable trees, and when the writer fails part of the way they report that after having written a beginning of the form. Lengths that the serialised form announces are those it has.",
 ["inputs"],"every tree, every element, every text including multi-byte text longer than the abbreviation limit",
 "No test prints or serialises a tree with more than one element.",
 ["src/api.rs","src/cursor.rs","src/green/node.rs","src/green/token.rs","src/serde_impls.rs","src/utility_types.rs"],
 [("formatting by walking the tree","src/api.rs, src/cursor.rs"),("serialisation by recursion","src/serde_impls.rs")],
 None,["Display, Debug, Serialize"])
p("C17","Misuse is refused and leaves everything usable",
 "Calls whose preconditions do not hold (editing an immutable tree, inserting outside a node's children, inserting a node below itself, stale checkpoints, finishing a node that was not started or a tree that does not have exactly one root node, replacing by another kind, token and covering queries at positions outside a node, pointers with mutable trees, slices beyond a text view, child lists of a wrong announced length) are refused by a panic instead of returning, hanging or corrupting. After such a panic is caught, every handle, tree, snapshot and cache that existed before is intact: untouched ones are unchanged, and ones being edited are in the state reached by the completed steps.",
 ["fault_sequences","histories","inputs"],"every misuse at every point of every history, followed by any continuation on the surviving handles",
 "Only two such panics are tested and nothing is used after them.",
 ["src/cursor.rs","src/green/builder.rs","src/green/node.rs","src/arc.rs","src/ast.rs"],
 [("assertions before changes","src/cursor.rs, src/green/builder.rs, src/ast.rs"),("length checks while filling a node","src/arc.rs from_header_and_iter")],
 None,["panics, and all observers afterwards"])
p("C18","Client code may run in the middle of an operation",
 "The library calls code of its client: kind filters, kind conversions, casts of typed nodes, closures over text chunks, the writers and serializers it formats to, and the iterators whose elements it inserts. Such code may itself use the library - read, format, clone and drop handles (also the last one), detach and insert elements of the very tree at hand - and it may panic. What happens is then exactly what the completed steps and the client's code did, nothing else: a panic passes through, a query leaves everything as it was and all handles, trees and snapshots stay usable and editable, children that an iterator gives lazily are inserted one after the other (an interrupted insertion inserted a first part of them). Client code that does not edit changes no result; under code that edits, only elements that are in a tree are given. Nothing is leaked, released early or used after release.",
 ["fault_sequences","histories","inputs"],"every operation that calls client code, at every call of it, doing anything the library allows or panicking, in any state of the trees and handles",
 "Only detaching inside a loop over children is tested; no filter, writer, cast or iterator of the tests does anything to the tree, and none panics.",
 ["src/cursor.rs","src/api.rs","src/syntax_text.rs","src/ast.rs","src/serde_impls.rs","src/green/node.rs"],
 [("steps past an element before yielding it, looks children up anew after each filter call","src/cursor.rs find_by_kind, child iterators"),("attaches children one by one with all checks beforehand","src/cursor.rs splice_children, attach_child"),("queries without hidden state","src/syntax_text.rs, src/api.rs")],
 None,["results, panics, writers, all observers afterwards, block counts"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); 
print(len(P))
