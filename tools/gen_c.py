"""Source of the cinereus part of properties.jsonl and MANIFEST.json (see gen.py)."""
M="cinereus/src/matching.rs"; W="cinereus/src/chawathe.rs"; T="cinereus/src/tree.rs"; L="cinereus/src/lib.rs"
def mech(*xs): return [{"name":n,"where":w} for n,w in xs]
P=[]
def p(id,title,st,over,q,why,files,mechs,obs,tech,note):
    P.append(dict(id=id,title=title,statement=st,over=over,q=q,why=why,files=files,mech=mechs,obs=obs,tech=tech,note=note))

TESTS="The existing tests diff two hand-written trees of at most five nodes and look at the matching only; no test applies an edit script."
p("C01","Applying a diff's edit script to the old tree yields the new tree",
 "For every matching configuration and every pair of trees whose roots are of the same kind and similar enough to match, carrying out the returned edit script on the old tree produces exactly the new tree: same shape and child order, same node kinds, same texts and same attributes in the same order. Every old node that is not deleted is exactly the node matched to its counterpart, and opaque nodes arrive with the content the caller installs for them.",
 ["inputs","configurations"],"all pairs of trees (any shape, kinds, texts, attribute lists, opaque marks), all thresholds and minimum heights, all hash qualities",
 "Quantifies over all pairs of trees. "+TESTS,
 [L,M,W],mech(("two-phase matching","compute_matching in "+M),("edit script generation","generate_edit_script in "+W)),["diff_trees","diff_trees_with_matching"],
 "property-based testing (proptest pairs + small-scope enumeration) against an independent declarative evaluator of edit scripts",
 "Generated-input search: hundreds of thousands of tree pairs up to 40 nodes (now and then 100 to 700, with more than 255 siblings) plus every pair of ordered trees within a small scope; assumes Merkle-style hashes where equal hash means equal subtree (colliding hashes are C14's).")
p("C02","Edit scripts can be applied one operation at a time",
 "Carrying out the operations of a returned script in order, with the documented displacement rule (an insert or move into an occupied position parks the occupant until it is moved or deleted), never refers to a node that does not exist yet or was already deleted, never moves a node into its own subtree and never deletes a node that still has children. At the end no node is parked, nothing is left over, and the tree, with emptied positions closed up, equals the new tree.",
 ["inputs","histories"],"all pairs of trees and configurations; every prefix of every returned script",
 "Quantifies over every prefix of the script of every pair of trees. "+TESTS,
 [W,L],mech(("operation ordering and positions","generate_edit_script in "+W),),["diff_trees"],
 "property-based testing against a step-by-step reference applier with displacement semantics",
 "Generated-input search with a reference applier written from the documented semantics; the applier is the harness's own, so it also trusts that reading of the semantics.")
p("C03","Equal trees give an empty script and are matched node to node",
 "Diffing a tree with an equal tree returns no edit operations and matches every node to its own counterpart, for every configuration that can match anything, however many repeated or identical subtrees it has and whatever quality the hashes have.",
 ["inputs","configurations"],"all trees, all configurations with a threshold of at most 1, all hash functions consistent with equality",
 "Quantifies over all trees; one test checks one three-node tree with the default configuration.",
 [M,W,L],mech(("hash phase and positional matching","compute_matching in "+M),("skip of unchanged nodes","generate_edit_script in "+W)),["diff_trees_with_matching","compute_matching"],
 "property-based testing: metamorphic relation diff(T,T) = empty",
 "Generated-input search over trees up to 40 nodes (now and then 100 to 700) with strong and deliberately weak hashes.")
p("C04","A matching pairs nodes one to one and only nodes of the same kind",
 "Every matching returned by a diff pairs each old node with at most one new node and the reverse, contains only nodes reachable from the two roots, pairs only nodes of equal kind, and gives the same answer whether it is asked by old node, by new node or listed as pairs.",
 ["inputs","configurations"],"all pairs of trees and all configurations",
 "Quantifies over all pairs of trees; the tests look up single nodes in hand-written trees.",
 [M],mech(("Matching table","Matching in "+M),("kind checks in each phase","match_subtrees / bottom-up phase in "+M)),["compute_matching","Matching::pairs","get_a","get_b"],
 "property-based testing: invariants of the matching, plus small-scope enumeration",
 "Generated-input search; small trees over few labels are enumerated completely.")
p("C05","Scripts contain exactly the operations the matching calls for",
 "Relative to the returned matching, a script deletes exactly the unmatched old nodes, inserts exactly the unmatched new nodes, updates text and attributes exactly where matched nodes differ and with exactly the differing values, and moves only nodes that are not already in place, each at most once. Nothing needed is missing and nothing needless appears.",
 ["inputs","configurations"],"all pairs of trees and all configurations",
 "Quantifies over all pairs of trees; no test examines a script's operations.",
 [W],mech(("one pass per operation kind","generate_edit_script in "+W),),["diff_trees_with_matching"],
 "property-based testing: exact comparison with the operation set derived from the matching by the oracle",
 "Generated-input search over pairs up to 40 nodes (now and then 100 to 700) and a complete small scope.")
p("C06","Edit scripts are right for any valid matching a caller supplies",
 "Given any one-to-one, kind-preserving matching that pairs the roots, including ones that reorder children, cross parents or turn ancestors into descendants, the generated script transforms the old tree into the new tree step by step and uses exactly the operations that matching calls for. Swapping the trees and inverting the matching swaps inserts and deletes.",
 ["inputs","programs"],"all pairs of trees and all valid matchings between them, not only those the matcher produces",
 "Quantifies over all matchings between all trees; the script generator has no tests at all.",
 [W],mech(("edit script generation from a supplied matching","generate_edit_script in "+W),),["generate_edit_script","Matching::add"],
 "property-based testing with generated matchings against the reference applier; inverse metamorphic relation",
 "Generated-input search with random matchings of varied density, including ancestor/descendant inversions.")
p("C07","Opaque nodes are matched and replaced as a whole",
 "No node inside an opaque node, on either side, is ever matched, inserted, deleted, moved or edited by the script, and nothing is placed inside an opaque node; the opaque node itself is matched, moved, updated, inserted and deleted like any other node, and, the roots apart, matched only to an opaque node. With the content of opaque nodes left to the caller, the script still turns the old tree into the new one.",
 ["inputs","configurations"],"all pairs of trees with any placement of opaque marks on either side",
 "Quantifies over all placements of opaque nodes; three tests cover one or two opaque nodes in hand-written trees.",
 [M,W],mech(("opaque descendant sets","compute_matching in "+M),("opaque skip","generate_edit_script in "+W)),["DiffTree::is_opaque","diff_trees_with_matching"],
 "property-based testing: invariants over matchings and scripts with generated opaque nodes",
 "Generated-input search with 80% of the pairs holding opaque nodes.")
p("C08","Nodes are matched only when similar enough",
 "Two nodes are matched only if their subtree hashes are equal, or both are opaque, or the similarity of their properties reaches the configured threshold. A pair the caller declares completely dissimilar is never matched unless the subtrees are identical.",
 ["inputs","configurations"],"all pairs of trees, similarity functions and thresholds",
 "Quantifies over all trees and similarity gates; no test uses properties or a dissimilar pair.",
 [M],mech(("similarity threshold","bottom-up candidate selection in "+M),),["Properties::similarity","MatchingConfig::similarity_threshold"],
 "property-based testing: invariant over the matching with generated similarity gates",
 "Generated-input search; the pairs hold mutually dissimilar nodes by construction.")
p("C09","Roots match only each other and matching stays local to matched parents",
 "If the two roots are of the same kind and similar enough they are matched to each other, and a root is never matched to an inner node. A child of a matched node is matched inside that node's counterpart, or else to an identical subtree or an opaque node at the same depth elsewhere, never to an unrelated node.",
 ["inputs","configurations"],"all pairs of trees and configurations",
 "Quantifies over all pairs; the tests only have roots that match trivially.",
 [M],mech(("ancestor compatibility gate","ancestry_compatible in "+M),("candidate restriction under matched parents","bottom-up phase in "+M)),["compute_matching"],
 "property-based testing: locality invariant over the matching, plus small-scope enumeration",
 "Generated-input search and complete small scopes; found the root defect repaired in ab4a47a.")
p("C10","One local edit gives a script of minimal size",
 "When the nodes of the old tree are all distinguishable and the new tree differs by one local edit (insert, delete, swap, retext, change of attributes), every untouched node keeps its identity and the script has no more operations than that edit needs. Changing only attributes gives exactly one attribute update per changed node and nothing else.",
 ["inputs"],"all trees with distinguishable nodes and all single local edits",
 "Quantifies over all trees and edits; no test bounds the size of a script.",
 [M,W,T],mech(("matching phases","compute_matching in "+M),("minimal operations","generate_edit_script in "+W)),["diff_trees"],
 "property-based testing: metamorphic relation between a known edit and the script's size",
 "Generated-input search; the optimal cost is known because the edit that produced the second tree is known.")
p("C11","Diffs are deterministic and depend only on the trees' content",
 "The same two trees and configuration always give the same script and the same matching, independent of how the trees were built, of the internal order of nodes in memory, of the concrete hash values and kind values used, and of which entry point is called.",
 ["inputs","configurations","histories"],"all pairs of trees, all construction orders, all injective renamings of hashes and kinds, all entry points",
 "Quantifies over representations of the same trees; every test builds each tree once.",
 [L,M,W,T],mech(("ordered iteration instead of hash-map order","candidate collection in "+M),("entry points","diff_trees* in "+L)),["diff_trees","diff_trees_with_matching","compute_matching"],
 "property-based testing: metamorphic relations over representation changes",
 "Generated-input search comparing repeated runs and relabelled or re-laid-out copies for equality.")
p("C12","Tree queries agree with the tree's history of changes",
 "After any sequence of building, removing and moving subtrees, every query of a tree (parent, children, position, depth, height, counts, ancestors, descendants, traversal orders, data) answers what an ordinary ordered tree with that history would, for the inherent and the trait interface alike.",
 ["histories","inputs"],"all sequences of tree construction and restructuring operations and all nodes",
 "Quantifies over histories; two tests query one fixed three-node tree.",
 [T],mech(("queries over the arena","impl Tree / impl DiffTree in "+T),),["Tree","DiffTree"],
 "stateful model-based property testing against a plain vector tree",
 "Generated operation histories with slot reuse, compared with a model after each step.")
p("C13","The matching table behaves as a growing two-way map",
 "After any sequence of recorded pairs, with or without reserved capacity and for any node numbers, lookups by old node, by new node, membership, length and listing answer exactly what was recorded.",
 ["histories","configurations"],"all sequences of recordings over any two trees and any initial capacities",
 "Quantifies over histories and capacities; no test addresses the table itself.",
 [M],mech(("two dense vectors indexed by node","Matching in "+M),),["Matching::new","with_capacity","add","get_a","get_b","contains_a","contains_b","pairs","len"],
 "stateful model-based property testing against two hash maps",
 "Generated operation histories, capacities from zero to beyond the trees' sizes.")
p("C14","Diffing ends, within polynomial work, without panicking, on hostile input",
 "For any finite trees and any configuration, even with colliding or inconsistent hashes, thresholds that are negative, above one or not a number, very deep or very wide shapes and heavy repetition, the diff ends within an ordinary thread's stack, without panicking and within a bounded number of tree queries. It still returns a one-to-one matching and a script that carries out exactly what that matching calls for.",
 ["inputs","configurations","fault_sequences"],"all trees, hash functions and configurations, including invalid ones",
 "Quantifies over hostile inputs; the tests use well-formed inputs and one configuration.",
 [M,W,T],mech(("length-checked subtree matching","match_subtrees in "+M),("bounds in position handling",W)),["diff_trees_with_matching"],
 "property-based testing and fault injection (hash collisions, NaN thresholds) with a counting tree implementation",
 "Generated-input search; work is counted by an instrumented tree and bounded by a polynomial with slack, and a watchdog reports a case that does not end. Trees of up to 4,000 nodes of all shapes, and chains of up to 25,000 levels where identical subtrees have to be matched, are diffed on a 2 MiB stack.")
p("C15","Unique unchanged subtrees are carried over",
 "A subtree that occurs exactly once in each tree, at the same depth under ancestors of the same kinds, and at least as high as the configured minimum is matched node for node, wherever its parent went. Its content then causes no insertions, deletions or updates.",
 ["inputs","configurations"],"all pairs of trees sharing unique subtrees, all minimum heights",
 "Quantifies over all pairs sharing a subtree; one test has one such subtree.",
 [M],mech(("top-down hash phase","compute_matching in "+M),),["compute_matching"],
 "property-based testing: completeness invariant of the matching",
 "Generated-input search; excludes trees with opaque nodes and weak hashes, which other properties cover.")
p("C16","Nodes are edited in place rather than deleted and inserted again",
 "A script never deletes a node and inserts a similar node of the same kind at the same place under the same matched parent, and never deletes and re-inserts an identical leaf under the same matched parents while both stay unmatched. Whatever can be reused there is reused, and two identical leaves under the same parents are never exchanged with each other.",
 ["inputs","configurations"],"all pairs of trees and configurations",
 "Quantifies over all pairs; no test looks for deletes paired with inserts.",
 [M],mech(("positional and similarity matching of leftovers","bottom-up phase in "+M),),["diff_trees_with_matching"],
 "property-based testing: invariant over unmatched nodes",
 "Generated-input search; states only the reuse the matcher's documented phases promise.")
p("C17","Diagnostics do not change results",
 "Building with the tracing and matching-statistics features, with a subscriber listening to everything, returns exactly the same matchings and scripts as building without them, for every input, and never panics.",
 ["inputs","configurations"],"all pairs of trees, both feature settings",
 "Quantifies over inputs and feature settings; the tests run one setting only.",
 [M,W,"cinereus/src/tracing_macros.rs"],mech(("conditional macros","cinereus/src/tracing_macros.rs"),("conditional counters",M)),["diff_trees_with_matching"],
 "differential property-based testing of two builds of the same source",
 "Generated-input search; both builds run in one process on the same recipes.")
p("C18","Nodes are matched away from their place by the share of content carried over",
 "Two nodes that are not at the same place under matched parents, have no equal hashes, are not both leaves or both opaque and not the roots are matched only if the share of matched nodes in their content (twice their number by the number of nodes in both) reaches the similarity threshold. The other way round, an old and a new inner node of the same kind, similar, and placed so that their parents' matches allow it, are not both left unmatched when the unchanged subtrees that occur once in each tree, in reach of each other, alone make up that share of their content; nor is one of them matched elsewhere by its content with a smaller share.",
 ["inputs","configurations"],"all pairs of trees, all thresholds above zero",
 "Quantifies over all pairs; the tests hold no case decided by the share.",
 [M],mech(("similarity of content","dice_coefficient, bottom_up_phase in "+M)),["compute_matching","MatchingConfig::similarity_threshold"],
 "property-based testing: soundness and completeness of the content rule, recomputed from the trees and the matching",
 "Generated-input search, 800,000 pairs in the quick tier. The shares are bounds that hold however the nodes themselves are counted; completeness only for trees without opaque nodes.")
