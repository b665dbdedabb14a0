"""Source of the hotmeal part of properties.jsonl and MANIFEST.json (see gen.py)."""
D="hotmeal/src/diff.rs"; O="hotmeal/src/dom.rs"; S="hotmeal/src/stem.rs"; SV="hotmeal-server/src/lib.rs"; WA="hotmeal-wasm/src/lib.rs"
M="cinereus/src/matching.rs"; W="cinereus/src/chawathe.rs"
def mech(*xs): return [{"name":n,"where":w} for n,w in xs]
P=[]; NA=[]
def p(id,title,st,over,q,why,files,mechs,obs,tech,note):
    P.append(dict(id=id,title=title,statement=st,over=over,q=q,why=why,files=files,mech=mechs,obs=obs,tech=tech,note=note))
SHIM=" hotmeal's sources are compiled unchanged against stand-ins for the crates missing offline (html5ever, tendril, facet, facet-postcard, facet-json, compact_str); a defect those crates would add or hide is out of reach."

p("H01","Applying the patches between two documents yields the new body",
 "For every two documents, parsed from any strings or built through the DOM interface, applying the patches that `diff` returns to the old document gives a body equal to the new one's in structure, tags, namespaces, texts, comments and attributes in order (emptied positions and adjacent texts read as HTML reads them), and serialising to the same HTML. No patch refers to a node or slot that does not exist.",
 ["inputs"],"all pairs of documents without opaque elements, from well-formed pages to arbitrary strings",
 "Quantifies over all pairs of documents; the tests apply patches between a few dozen fixed pairs.",
 [D,O,M,W],mech(("edit operations to path-addressed patches","convert_ops_with_shadow in "+D),("patch application","apply_patches / apply_patch in "+O),("documents as trees","build_tree_from_arena, DiffableDocument in "+D)),["hotmeal::diff","Document::apply_patches"],
 "property-based testing: round trip diff/apply over generated document pairs and markup soup, compared by an independent reading of the DOM",
 "Generated-input search, 900,000 pairs in the quick tier."+SHIM)
p("H02","A client that applies every patch list follows the document's history",
 "Whatever the sequence of document versions, a client that starts from the first version and applies, one after another, the patches computed between consecutive versions always has the current body, although it keeps the empty text nodes that earlier patches left behind and the server computes its patches from freshly parsed documents.",
 ["histories"],"all histories of versions of a document",
 "Quantifies over histories; no test applies a second list of patches to a patched document.",
 [D,O,W],mech(("absolute positions and placeholders","convert_ops_with_shadow in "+D),("gap filling","insert_at_position in "+O)),["hotmeal::diff","Document::apply_patch_with_slots"],
 "property-based testing: generated histories of 2..8 versions followed by one client document",
 "Generated-input search over histories of structured documents and of markup soup."+SHIM)
p("H03","Diff is silent for equal bodies, never silent for different ones, and stable",
 "Diffing a document with itself, with its clone or with another parse of the same text gives no patches; two documents get an empty patch list exactly when their bodies are equal. Diffing the same two documents again gives the same patches.",
 ["inputs"],"all pairs of documents, opaque elements included",
 "Quantifies over all pairs; a silent diff of different bodies is a missed update that no example can rule out.",
 [D,M,W],mech(("short cuts by hash","compute_matching in "+M),("opaque content comparison","same_content in "+D)),["hotmeal::diff"],
 "property-based testing: equivalence of 'no patches' and an independent body comparison",
 "Generated-input search over unrelated pairs, pairs one edit apart, pairs with opaque elements and markup soup."+SHIM)
p("H04","A local edit patches only its neighbourhood and keeps every other node",
 "When a document whose texts are all different gets one local edit, every subtree that did not change and every ancestor of the edited place is the same node after patching, so focus, scroll position and mounted state survive. A changed text costs one SetText, changed attributes one UpdateProps on that element, and an insertion, deletion or reordering no more patches than the siblings and nodes concerned.",
 ["inputs"],"all documents of distinguishable nodes and all single local edits",
 "Quantifies over all documents and edits; the tests look at patch lists of a few fixed pairs.",
 [D,O,M,W],mech(("matching before editing","compute_matching in "+M),("moves instead of rebuilds","convert_ops_with_shadow in "+D)),["hotmeal::diff","Document::apply_patches"],
 "property-based testing: node identity before and after patching, and a patch budget per kind of edit",
 "Generated-input search, 250,000 edits in the quick tier."+SHIM)
p("H05","Opaque elements keep their content, and every change in them is announced",
 "No patch other than OpaqueChanged reaches into an element marked data-hotmeal-opaque that stays in the document: its children remain the same nodes. Each such element whose content differs between the versions gets exactly one OpaqueChanged with its final path and its new content, no other element gets one, and everything around opaque elements is updated as usual. Applied to a document, an OpaqueChanged replaces the element's content by its markup as it reads inside that element, so a document to which all patches are applied has the new body.",
 ["inputs"],"all pairs of documents with any placement of opaque elements",
 "Quantifies over all placements of opaque elements; the tests hold a handful of fixed pages.",
 [D,O,M,W],mech(("opaque elements as leaves","OpaqueAwareTree / DiffableDocument::is_opaque in "+D),("OpaqueChanged patches","diff in "+D)),["hotmeal::diff","Patch::OpaqueChanged"],
 "property-based testing: patches applied with OpaqueChanged withheld, announcements compared with an independent content comparison",
 "Generated-input search, 900,000 pairs in the quick tier, about half with a kept opaque element."+SHIM)
p("H06","Serialised HTML reads back as the same document",
 "For every document that HTML can express, `to_html` writes what the fragment serialisation algorithm of the HTML standard prescribes (escaping, void and raw-text elements, foreign content, attribute prefixes, doctype), and parsing that text gives an equal document. The inner HTML of every element is markup that reads as its content there. Documents whose markup the generator wrote by the standard's content rules all survive the way through text.",
 ["inputs"],"all documents, parsed or built, that HTML can express",
 "Quantifies over all documents; the tests compare a few serialisations with expected strings.",
 [O,S],mech(("serialisation","serialize_node / serialize_element in "+O),("raw text and void elements","is_raw_text_element, is_void_element in "+O)),["Document::to_html","hotmeal::parse"],
 "property-based testing: differential against an independent serialiser, and write/parse round trip",
 "Generated-input search over a grammar of standard-conforming pages, markup soup, whole pages and documents built through the DOM interface. A document is expressible when the independent serialisation parses back to it."+SHIM)
p("H07","Parsing builds the document the HTML parsing algorithm prescribes",
 "For every string, `parse` and `parse_body_fragment` give the tree that the tree-construction algorithm yields for it: same nodes, namespaces, merged texts, attributes, comments, template contents and doctype, whatever foster parenting, adoption, reparenting or attribute merging the markup provokes. A text without doctype reads as a standards-mode document.",
 ["inputs"],"all strings",
 "Quantifies over all strings; malformed markup reaches sink operations in combinations no list of examples holds.",
 [O],mech(("tree sink","impl TreeSink for the parser in "+O),("entry points","parse, parse_body_fragment in "+O)),["hotmeal::parse"],
 "property-based testing: differential against an independent tree sink driven by the same tree builder",
 "Generated-input search over soup, pages and documents. Tokenising and insertion modes are those of the stand-in parser on both sides; what is decided is hotmeal's handling of every sink operation and its treatment of the document prologue."+SHIM)
p("H08","The DOM interface behaves as a tree whatever the sequence of operations",
 "After every sequence of node creation, appending, insertion before and after, detaching, attribute and text changes and cloning, each node has one parent, parent, child and sibling links agree, and all queries give what a plain list-of-children model gives. A cloned document never changes with its original.",
 ["histories"],"all sequences of DOM operations on new and parsed documents",
 "Quantifies over operation sequences; the tests perform one or two operations each.",
 [O],mech(("tree operations","append_child, insert_before, insert_after, remove in "+O),("attributes","set_attr, remove_attr in "+O)),["hotmeal::Document"],
 "stateful model-based testing: generated operation sequences compared with a reference model after every step",
 "Generated-input search over histories of up to 50 operations."+SHIM)
p("H09","A Stem is the string it holds, however it came to be",
 "Whether borrowed from the parsed text or owned, and after any sequence of appends, clones and conversions, a Stem has the text a String would have; equality, order, hash and formatting follow that text. Appending to one never changes a clone of it.",
 ["histories"],"all sequences of operations on strings of every origin",
 "Quantifies over representations and sequences; copy-on-write mistakes show only in particular mixes.",
 [S],mech(("representations and copy on write","Stem in "+S)),["hotmeal::Stem"],
 "stateful model-based testing against String",
 "Generated-input search over histories of up to 30 operations."+SHIM)
p("H10","Attribute diffs turn one attribute list into the other",
 "For every two attribute lists, the entries that `HtmlProps::diff` reports, read as the complete new list, give exactly the new list in order with names told apart by prefix and namespace; an entry is marked unchanged only if its value is. Similarity is symmetric, lies in 0..=1 and is 1 for equal lists, and nothing is reported as changed exactly if the lists are equal.",
 ["inputs"],"all pairs of attribute lists",
 "Quantifies over all pairs of lists with colliding local names.",
 [D],mech(("attribute diff and similarity","HtmlProps in "+D)),["HtmlProps"],
 "property-based testing: algebraic laws against an independent computation",
 "Generated-input search, 300,000 pairs in the quick tier."+SHIM)
p("H11","Patches survive transport",
 "Every patch list survives `into_owned`, encoding to postcard and encoding to JSON: what is decoded equals what was encoded, whatever texts, attribute names, prefixes and paths it holds, and applying the decoded patches has the same effect.",
 ["inputs"],"all patch lists that diff can return",
 "Quantifies over all patches; one test encodes one patch.",
 [D,S],mech(("proxies and flattened representation","Patch, QualNameProxy, LocalNameProxy in "+D),("owned texts","Stem in "+S)),["Patch","facet_postcard","facet_json"],
 "property-based testing: round trip",
 "Generated-input search; the codecs are stand-ins that follow the declared facet attributes (proxy, transparent), so this decides the conversions written in the repository and not the real codecs."+SHIM)
p("H12","Patches that do not fit are refused without damage",
 "Applying patches to a document they were not computed for, or patches that nobody computed (any kind, at any path, into any slot), never panics or hangs and leaves a tree whose links agree and in which every node has one place; a path or slot that does not exist is an error, and so are a move of a node into itself and an insertion into a text or comment. This holds for whole lists and for single patches in any order, going on after errors.",
 ["inputs","histories"],"all combinations of patch lists and documents",
 "Quantifies over all mismatches of document and patches, as a client that missed an update meets them.",
 [D,O],mech(("path resolution and slots","navigate_slot_path in "+O)),["Document::apply_patches","Document::apply_patch_with_slots"],
 "property-based testing: fault injection by stale, reordered, repeated and made-up patches, with an invariant over the resulting tree",
 "Generated-input search over histories; every step's patches are applied to other states."+SHIM)
p("H13","Every kind of patch has the effect it stands for",
 "Whatever document and whatever patches of the ten kinds that change it, made by anyone: an insertion puts the described element (each element in it with the namespace the parser gives it there), text or comment at its position, behind empty texts where the position is behind the children; what was at the position goes to the slot named, or else moves up by one; a removed or moved node leaves an empty text in its place, so that no other path changes; SetText, SetAttribute, RemoveAttribute and UpdateProps change just the text or the attributes named, where names differ by prefix and namespace too, keep the order of attributes, and UpdateProps leaves exactly the attributes it lists, in their order. A patch for a node that is not there or is of another kind is refused. Nothing else changes, in the document or in a slot, and one by one or as a list the effect is the same.",
 ["inputs","histories"],"all documents and all lists of patches that address what is there when they are applied",
 "Quantifies over all patches, those that diff never makes included (SetText, SetAttribute, RemoveAttribute); tests apply the patches of a few fixed pairs.",
 [O],mech(("patch application","apply_patch, insert_at, insert_at_position in "+O),("namespaces of created elements","child_namespace, Namespace::of_child in "+O)),["Document::apply_patches","Document::apply_patch_with_slots"],
 "property-based testing: state-directed generation of patches of all kinds against a reference model of their effects",
 "Generated-input search, 200,000 lists in the quick tier. The body taken out of the page and slots named again after they were emptied are left out."+SHIM)
p("S01","The server's cache answers each change with the right event",
 "After every sequence of caching, diffing, head updates and removals, the live-reload server answers a new version of a route with Reload if it holds no version, with nothing if the body is unchanged, with patches for exactly this route that turn the version it held into the new one, and with HeadChanged if the head injections changed. Routes never influence each other, and the cache then holds the new version.",
 ["histories"],"all sequences of operations on the server for any routes and pages",
 "Quantifies over operation histories; the tests make one or two calls on one route.",
 [SV,D],mech(("cache and events","LiveReloadServer::diff_route, diff_route_with_head in "+SV),("head tracking","cache_head_injections in "+SV)),["LiveReloadServer"],
 "stateful model-based testing against a reference model of the caches; patches are decoded and applied",
 "Generated-input search, 40,000 histories of up to 25 operations in the quick tier."+SHIM)
p("S02","Every browser that follows the server's events shows the current page",
 "Whenever browsers that loaded a page at any time apply every event sent for their route (patches in place, a reload otherwise), each of them shows the body of the newest version of its route after every change, and nothing of another route.",
 ["histories"],"all histories of visits, edits, head changes and evictions with any number of browsers",
 "Quantifies over histories of a whole system; no test connects the server's events to a document that applies them.",
 [SV,D,O],mech(("events from cached versions","diff_route in "+SV),("patch application","apply_patches in "+O)),["LiveReloadServer","LiveReloadEvent"],
 "property-based testing: generated worlds of routes and browsers, every browser compared with the newest version after each step",
 "Generated-input search, 40,000 worlds in the quick tier."+SHIM)
p("S03","Head injection adds the content at the beginning of the head and nothing else",
 "For every page with a head start tag, the result of `inject_into_head` reads as the page with the content as the head's first child; comments, document types and attribute values that mention a head, and other tags whose names begin with head, do not attract it. For every text without a head tag the result is the content followed by the text.",
 ["inputs"],"all pages and contents",
 "Quantifies over all pages; the tests hold three strings.",
 [SV],mech(("finding the head tag","find_after_head_tag in "+SV)),["inject_into_head"],
 "property-based testing: metamorphic comparison of the parsed page before and after injection",
 "Generated-input search over pages with misleading mentions (comments ending oddly, bogus comments, doctypes, attributes with stray quotes), and over markup soup."+SHIM)
p("S04","Events survive the wire",
 "Every live-reload event, whatever its route and patch bytes, is the same after encoding and decoding, and an encoding that was cut short anywhere is refused with an error.",
 ["inputs"],"all events",
 "Quantifies over all routes and byte strings; one test per variant encodes one event.",
 [SV],mech(("encoding","LiveReloadEvent::to_postcard, from_postcard in "+SV)),["LiveReloadEvent"],
 "property-based testing: round trip and truncation",
 "Generated-input search; the codec is a stand-in that follows the declared attributes, so this decides the conversions in the repository and not the real codec."+SHIM)
p("S05","The loader script carries its four strings unharmed",
 "Whatever URLs and selector it is given, `loader_script` yields one script element whose text is a script with exactly these strings as its string literals; no string ends the element, the literal or the line early or changes the rest of the script.",
 ["inputs"],"all strings",
 "Quantifies over all strings; the test uses plain ones.",
 [SV],mech(("script text","loader_script in "+SV)),["loader_script"],
 "property-based testing: the result is parsed as HTML and its literals are read back",
 "Generated-input search over strings with characters that mean something in HTML or JavaScript."+SHIM)
WSHIM=" hotmeal-wasm's source is compiled unchanged for the host against a model of the browser's DOM written from the DOM standard (web-sys, js-sys, wasm-bindgen stand-ins) and the same stand-ins as hotmeal; the RPC client, compiled only for wasm32, is W05's."
p("W01","In the browser every patch has the effect it has on the native document",
 "For every patch list and every patch of any kind at a place that exists, applying it to the browser's DOM (body or mount point, as values, postcard or JSON) gives the same tree as the native application after every single patch: tags, namespaces, attributes with their names and namespaces in order, texts, comments, template contents. Everything outside the mount point stays as it is.",
 ["inputs"],"all pairs of pages and all patches of all kinds, whatever names the parser accepts",
 "Quantifies over all patches; the browser tests need a browser and run a few fixed pairs.",
 [WA,O,D],mech(("patch application in the DOM","apply_patch in "+WA),("names the DOM interface refuses","set_attribute, create_element in "+WA),("template contents","content_of in "+WA)),["apply_patches_with_slots","apply_patches_json","apply_patches_postcard_on"],
 "property-based testing: differential between native and browser application after every patch",
 "Generated-input search over documents, soup and single patches of all kinds, with attribute and element names that browsers' name rules (old and new) refuse."+WSHIM)
p("W02","A browser page that applies every patch list follows the page's history",
 "Whatever the sequence of versions of a page, or of the content of a mount point, a browser that loaded the first version and applies the encoded patch lists between consecutive versions always shows the current version, and the rest of the page is untouched.",
 ["histories"],"all histories of versions of a page",
 "Quantifies over histories; the tests apply one list to a fresh page.",
 [WA,D,W],mech(("patch application in the DOM","apply_patch in "+WA),("slots and placeholders","Slots, insert_at_position in "+WA)),["apply_patches_postcard_on"],
 "property-based testing: generated histories of 2..8 versions followed by one page in the modelled browser",
 "Generated-input search over histories of structured documents and of markup soup."+WSHIM)
p("W03","A change in an opaque element reaches the browser as one event there",
 "For every OpaqueChanged patch the browser client leaves the document untouched and dispatches exactly one bubbling hotmeal:opaque-changed event at the element the patch names, whose detail holds the new content, the element's key and the element; no other patch dispatches an event.",
 ["inputs"],"all pairs of pages with any placement of opaque elements",
 "Quantifies over all placements of opaque elements among other changes.",
 [WA,D],mech(("events for opaque elements","Patch::OpaqueChanged in apply_patch in "+WA)),["hotmeal:opaque-changed"],
 "property-based testing: recorded events of the modelled browser compared with the patches",
 "Generated-input search, 120,000 pairs in the quick tier."+WSHIM)
p("W04","The browser client refuses patches that do not fit without damage",
 "Applying patches in the browser to a page they were not computed for, or patches that nobody computed, in any order and going on after errors, never panics and leaves a well-formed tree; a failure names the patch that failed; a made-up patch that the native document refuses is refused or changes nothing, and one that it accepts is accepted, as long as both are the same page; and a missing mount point or invalid selector is an error that changes nothing.",
 ["inputs","histories"],"all combinations of patch lists and pages",
 "Quantifies over all mismatches of patches and pages, as a page that missed an update meets them.",
 [WA],mech(("path resolution","find_node, navigate_within_node in "+WA),("mount points","resolve_mount_point in "+WA)),["apply_patches","apply_patches_on"],
 "property-based testing: fault injection by stale, reordered, repeated and made-up patches, with an invariant over the resulting tree and a differential of refusals with the native document",
 "Generated-input search over histories; every step's patches are applied to other states."+WSHIM)
p("W05","The browser client stays subscribed and acts on every event",
 "Once started, the client connects to the given URL, subscribes once per connection for the page's path (\"/\" where it has none), and handles every event it is sent exactly once and in order: patches are applied to the mount point, Reload and HeadChanged load the page anew once each. An event that cannot be handled, patches that do not decode or a mount point that is not there, changes nothing and ends nothing. However a connection fails or ends, the client connects again, for ever: 100 ms after a session that ended, and after each attempt that failed twice as long as before, at most 5 s.",
 ["histories","schedules","fault_sequences"],"all histories of connections, failures and events and all orders of tasks",
 "Quantifies over histories of connections that fail at any point and over task schedules; no test runs the RPC client.",
 [WA,SV],mech(("reconnection loop","live_reload_loop, live_reload_session in "+WA),("events","handle_live_reload_event in "+WA)),["start_live_reload"],
 "property-based testing: fault-injecting simulation in virtual time of connections and tasks, with a model of the client's calls and of the page",
 "Generated-input search over connection histories, 40,000 in the quick tier. hotmeal-wasm's source, the part compiled only for wasm32 included, is compiled unchanged for the host against simulated roam crates and the modelled DOM.")
