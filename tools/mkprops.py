import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                  "observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
S="src/colosseum/"
p("C01","Relayout equals a fresh layout, whatever the document has been through",
  "After any history of style changes, tree edits, intrinsic-size changes, display resizes and earlier layouts, laying out a document gives every displayed node exactly the box geometry that a newly built document with the same tree, styles, intrinsic sizes and display would get, or fails in the same way. Nothing of an earlier layout, style value, tree shape or display shows through.",
  ["histories","configurations"],
  "Every sequence of style/tree/intrinsic/display changes and layouts (of the document or of a subtree, HTML4 and HTML5) on every document; updates arrive from several producers with delays, reordering and duplicates.",
  "The tests lay out every document once; only the tutorial relayouts, and no test compares a second layout with a fresh one, let alone after hiding, reparenting, resizing or a failed layout.",
  [S+"engine.py",S+"dimensions.py",S+"declaration.py"],
  [("box state is reset for the whole tree before each layout","dimensions.py Box.reset/_reset"),("layout writes positions incrementally on top of the reset state","engine.py layout_box, calculate_*"),("box removed for display:none and recreated","engine.py layout_box")],
  ["node.layout geometry after colosseum.engine.layout()"],
  [("Box fields","geometry accumulated with += during a layout","dimensions.py Box")])
p("C02","A failed or disturbed layout leaves no trace in the next one",
  "If a layout is cut short or disturbed at any point - by an unsupported feature, an error raised by a host callback, a document or display change made while it runs, a cancellation, or memory or recursion exhaustion - the library stays usable. Once the disturbance is over, the very next layout of that document, and of any other document, completes with exactly the geometry a newly built document would get.",
  ["crash_points","fault_sequences","histories"],
  "Every point inside a layout at which an exception can arise or a host callback can fail or change the document or display, in every history, any number of times.",
  "No test raises inside a layout or lays the same document out again afterwards; the 1754 expected failures that raise stop there.",
  [S+"engine.py",S+"dimensions.py"],
  [("every layout restarts from a full reset, so partial results are discarded","engine.py layout"),("no module-level scratch state","engine.py")],
  ["node.layout geometry after the recovery layout"])
p("C03","Computing a layout changes nothing but the boxes it computes",
  "A layout, whether it completes, fails or is interrupted, leaves style declarations, intrinsic size hints, parent and child links and the display exactly as they were. Boxes of nodes outside the tree being laid out (other documents, and the rest of the document when a subtree is laid out on its own) keep their geometry.",
  ["histories","crash_points","schedules"],
  "Every document, subtree and display, every completion, failure or interruption point.",
  "Tests only read the resulting boxes; none compares styles, hints, tree or other boxes before and after.",
  [S+"engine.py",S+"dimensions.py"],
  [("layout only assigns node.layout and Box attributes","engine.py"),("reset recurses only downwards","dimensions.py Box.reset")],
  ["style reads, Size reads, node.parent/children, display attributes, boxes outside the tree"])
p("C04","Documents handled by different threads do not disturb each other",
  "Threads that each build, restyle, copy and lay out their own documents, sharing only style templates they copy, unit constants and read-only displays, each observe exactly the values, geometry and errors they would observe running alone. This holds for every interleaving, when a layout runs inside a host callback of another document's layout, and when some threads stall or are interrupted at arbitrary points.",
  ["schedules","fault_sequences"],
  "Every interleaving of caller threads at instruction or line granularity, every nesting of layouts in host callbacks, every stall and interruption.",
  "The test suite is single threaded and never nests layouts, so any shared scratch state, cache or mutable default is invisible to it.",
  [S+"engine.py",S+"declaration.py",S+"parser.py",S+"units.py",S+"constants.py",S+"validators.py"],
  [("per-call context dictionaries and per-node boxes, no module-level working state","engine.py layout_box"),("choices, units and initial values are shared but never written after import","constants.py, units.py, declaration.py")],
  ["per-thread log of reads, geometry and exceptions compared with a solo run"])
p("C05","A change that can affect layout always marks the affected boxes",
  "Every accepted change to the effective value of a style property or intrinsic size hint of a node that has a box marks that node and all its displayed descendants as needing layout, whatever their marks were before and whatever class the host uses for nodes, and marks no other node. Rejected assignments, deletions of unset properties and re-assignments of an equal keyword, length or size hint change no mark. Clearing the mark on the root of a freshly laid out tree clears it on every displayed node.",
  ["histories","fault_sequences","configurations"],
  "Every interleaving of style changes, hint changes, tree edits, mark clearing per node or per tree, layouts and rejected values; nodes with ordinary, falsy, comparable or container-like classes.",
  "Tests check single changes on a fresh three-level tree or a single node; histories in which parent and child marks differ, nodes are hidden or moved, or the node object is falsy are not reached.",
  [S+"declaration.py",S+"dimensions.py"],
  [("property setters/deleters set dirty when the stored value changes","declaration.py validated_property, validated_shorthand_property"),("dirty proxy and cascade","declaration.py CSS.dirty, dimensions.py Box.dirty, Size setters")],
  ["node.layout.dirty, node.style.dirty, node.intrinsic.dirty"],
  [("dirty","needs layout / clean / being evaluated","dimensions.py Box._dirty")])
p("C06","A declaration always reports its latest accepted values",
  "After any sequence of assignments (attribute, item or bulk form; underscored or hyphenated names; longhand, directional or shorthand), deletions and rejected attempts, each property of a declaration reads as its latest accepted value in canonical form, or as its initial value if it has none or was deleted; initial values that follow another property keep tracking it. Key, item and text listings contain every property whose value differs from its initial value, none that was never assigned or has since been deleted, and the same values that reads report.",
  ["histories","fault_sequences"],
  "Every sequence of operations and rejected values over all properties, spellings and value forms, on attached and detached declarations.",
  "Tests apply two or three operations to one property at a time; interactions between shorthands, directional forms, deletions, rejections and tracked initial values over a history are not sampled.",
  [S+"declaration.py",S+"parser.py",S+"validators.py",S+"constants.py",S+"wrappers.py"],
  [("one stored attribute per longhand, shorthands expand on write","declaration.py"),("initial values resolved on read","constants.py OtherProperty, TextAlignInitialValue")],
  ["attribute and item reads, keys(), items(), str()"])
p("C07","A rejected style assignment changes nothing",
  "When an assignment to a longhand, directional or shorthand property is rejected, in attribute, item or bulk form, an error is raised and every property of that and every other declaration, and every needs-layout mark, is exactly as it was before the assignment.",
  ["fault_sequences","histories"],
  "Every position of a bad part in every multi-part value, at every point of every history.",
  "Tests assert that the error is raised for a handful of values, not that a multi-part assignment with one bad part leaves the other parts untouched.",
  [S+"declaration.py",S+"parser.py",S+"constants.py"],
  [("values are validated before anything is stored","declaration.py setters"),("shorthand parsers build a complete dictionary first","parser.py border, outline")],
  ["all reads and marks before and after the rejected assignment"])
p("C08","Declarations are isolated from copies, from each other and from shared defaults",
  "A copy reads the same as its source in every property at the moment of copying, for every kind of value. From then on nothing done to one declaration - assignments, deletions, failed attempts, or in-place edits of collections it returned or was given - changes what any other declaration reports, initial values included.",
  ["histories","fault_sequences"],
  "Every family of declarations linked by copying, every history of operations and in-place edits on any member.",
  "copy() is only exercised through node construction with simple values, and no test modifies one declaration and looks at another.",
  [S+"declaration.py",S+"wrappers.py",S+"parser.py"],
  [("copy re-assigns each stored value","declaration.py CSS.copy"),("immutable value wrappers","wrappers.py ImmutableList"),("parsers build new containers from their input","parser.py")],
  ["reads of every declaration after every operation on any of them"])
p("C09","Memory and work per operation stay bounded over a process lifetime",
  "However long a process keeps assigning distinct values, rejecting values, copying styles, laying out, hiding and showing nodes, failing layouts, or building and dropping documents, the memory held by the library is bounded by the live documents and an operation takes no more steps than the same operation takes in a new process. Dropped documents can be reclaimed.",
  ["histories"],
  "Unboundedly long histories of every operation kind (soak), with failures and interruptions mixed in.",
  "A test process runs each operation a few times; growth per operation is invisible.",
  [S+"units.py",S+"parser.py",S+"declaration.py",S+"dimensions.py",S+"engine.py"],
  [("no per-value or per-document registration outside the document","units.py BaseUnit, engine.py"),("the unit table is fixed after import","units.py")],
  ["allocated blocks and executed steps per operation, weak references to dropped nodes"])
p("C10","Absolute and relative positions always agree",
  "After every completed layout, and after any later moves of boxes by the host, each displayed node's absolute position equals its parent's absolute content position plus its own relative position, the root being relative to the origin. The edges and sizes of its content, padding and border boxes are mutually consistent.",
  ["histories"],
  "Every document, every history of layouts, tree edits, hiding and showing, and every sequence of box moves in any order.",
  "One hand-built three-level tree with a few moves is tested; trees whose boxes were removed, recreated or reparented before are not.",
  [S+"dimensions.py",S+"engine.py"],
  [("each move pushes the new origin down the tree","dimensions.py content_top/content_left/_origin_* setters"),("derived edges computed on read","dimensions.py *_box_* properties")],
  ["Box absolute_*, *_box_* and content_* reads"])
p("C11","Independent updates commute and repeated ones are harmless",
  "Updates addressed to different nodes or to unrelated properties of a node lead to the same declarations, size hints and geometry in whatever order they arrive and wherever layouts fall between them. Delivering the latest update of a property again, any number of times, changes nothing.",
  ["schedules","histories","fault_sequences"],
  "Every arrival order of per-property FIFO update streams, with delays, duplicate deliveries, lost-then-retransmitted updates and layouts at arbitrary times.",
  "Tests use one fixed order of updates.",
  [S+"declaration.py",S+"engine.py",S+"dimensions.py"],
  [("each longhand is stored independently","declaration.py"),("layout depends only on current state","engine.py layout")],
  ["declarations and geometry of replicas fed the same updates by different deliveries"])
p("C12","The same program gives the same results in every process",
  "A given sequence of style, tree and layout operations observes the same values, listings (as sets), geometry and error types in every process, whatever the string-hash seed, interpreter optimisation level and earlier unrelated use of the library in that process.",
  ["configurations","histories"],
  "Every operation sequence, hash seed, optimisation level and prefix of unrelated work.",
  "The suite runs under one fixed hash seed, unoptimised, with each test in much the same process state.",
  [S+"declaration.py",S+"constants.py",S+"engine.py",S+"units.py"],
  [("results do not depend on the iteration order of the property and choice sets","declaration.py _CSS_PROPERTIES, constants.py Choices")],
  ["observation logs of the same run in differently configured interpreters"])
p("C13","An interrupted style operation can be repeated to completion",
  "If assigning, deleting, bulk-updating or copying styles is interrupted at any point, properties not addressed by the operation keep their values and each addressed property reads as its old, its initial or its new value. Repeating the operation to completion leaves exactly the declaration an uninterrupted run would have left, and so does every later operation.",
  ["crash_points","fault_sequences"],
  "Every interruption point inside every style operation, any number of times, in every history.",
  "No test interrupts an operation.",
  [S+"declaration.py",S+"parser.py"],
  [("each longhand is stored with a single attribute assignment after validation","declaration.py setters"),("no state outside the declaration","parser.py, validators.py")],
  ["reads after the interruption and after the repeat"])
p("C14","Hidden nodes stay editable and hiding is fully reversible",
  "A node hidden with display none, the root included, stays editable: style and intrinsic-size changes to it, its ancestors and its descendants are accepted without error, and laying out a document with a hidden root is not an error. While hidden, a node and its subtree have no part in layout, the rest being laid out as if they were not there, and a hidden node has no box after a layout of its parent; once it is shown again, the next layout gives its whole subtree the geometry it would have had if it had never been hidden.",
  ["histories"],
  "Every sequence of hiding, layouts, edits while hidden and showing again, on any set of nodes.",
  "No test shows a hidden node again or edits it while hidden.",
  [S+"engine.py",S+"dimensions.py",S+"declaration.py"],
  [("box removed when display is none and recreated at the next layout","engine.py layout_box, dimensions.py Box.reset"),("dirty proxies tolerate a missing box","declaration.py CSS.dirty, dimensions.py Size.dirty")],
  ["exceptions from edits, geometry after showing"])
p("C15","Concurrent writers of different properties lose no update",
  "When several threads assign, read and delete different properties of one declaration, or change different nodes of one document, each thread reads back its own latest values throughout, the final declarations hold every thread's final values, and every changed node is left marked as needing layout. This holds for every interleaving.",
  ["schedules"],
  "Every interleaving at instruction or line granularity of threads with disjoint property sets.",
  "The suite is single threaded.",
  [S+"declaration.py",S+"dimensions.py"],
  [("each property has its own slot; no read-modify-write of shared containers","declaration.py")],
  ["reads during the run, reads and marks after all threads finish"])
p("C16","The work of an operation is in proportion to what it concerns",
  "Laying out, marking or moving a document takes work in proportion to the number of nodes in it (times the nesting depth, for layout), and an operation on one node takes work in proportion to that node's own subtree. Neither depends on how many other nodes or documents are alive, on how often the operation was done before, or on earlier failed or interrupted layouts.",
  ["inputs","histories","fault_sequences"],
  "Every document shape at every size, every history, any number of other live documents.",
  "The tests use documents of a few nodes, where a quadratic or exponential algorithm costs nothing.",
  [S+"engine.py",S+"dimensions.py",S+"declaration.py"],
  [("one pass over the children per layout","engine.py layout_box"),("marks, origins and resets each visit a child once","dimensions.py Box.dirty, _origin_*, reset")],
  ["library steps and children visited per operation as the document grows"])
p("C17","Looking at a document never changes it",
  "Reading style values in any form, listing or printing a declaration, copying it, reading boxes, marks and size hints, and converting or comparing the values obtained have no effect. A history with any such observations inserted - between operations, from within host callbacks while an operation is in progress, from other threads, or broken off half-way - gives the same outcomes, declarations, listings, marks, boxes and later layouts as the same history without them.",
  ["histories","schedules","crash_points"],
  "Every set of observations inserted anywhere in every history, complete or broken off at any point.",
  "Tests read each value once, at the end.",
  [S+"declaration.py",S+"dimensions.py",S+"wrappers.py",S+"constants.py",S+"units.py"],
  [("getters compute and store nothing","declaration.py getters, dimensions.py properties"),("listings are new containers","declaration.py keys, items"),("copy builds a new declaration","declaration.py CSS.copy")],
  ["two worlds, one observed and one not, compared at the end"])
p("C18","A declaration can be read while other threads change it",
  "Reading a declaration - by attribute, item, side or shorthand, as keys, items or text, or by copying it - never fails while other threads assign and delete its properties. What is read for each property is a value it had at some moment during the read, never one older than what a finished read has already returned, and never a mixture.",
  ["schedules"],
  "Every interleaving at statement or sub-expression granularity of readers with writers of disjoint properties, with stalls.",
  "The suite is single threaded.",
  [S+"declaration.py",S+"wrappers.py",S+"constants.py"],
  [("each property is stored and read with a single attribute access","declaration.py"),("listings go over the fixed set of property names, not over the live storage","declaration.py keys, items, __str__, copy")],
  ["values and listings obtained by reader threads, against the writers' recorded sequences"])
p("C19","Errors raised by the host reach the caller as they are",
  "When host code called by the library (node attributes, child lists, displays) raises an error, or an interrupt, cancellation or memory error arises inside the library, that same error comes out of the operation in progress. It is not swallowed, replaced by another error, or raised again by a later operation, whatever its class and however deeply calls are nested.",
  ["crash_points","fault_sequences"],
  "Every host callback and every statement of every operation, every class of error.",
  "No test raises an error from host code.",
  [S+"declaration.py",S+"dimensions.py",S+"engine.py",S+"parser.py",S+"validators.py"],
  [("handlers catch only the library's own parsing and lookup errors","declaration.py, parser.py, validators.py, constants.py"),("no handler around host access","engine.py, dimensions.py")],
  ["the exception object that comes out of each operation"])
# not applicable
p("C20","Block widths satisfy the CSS 10.3.3 width constraint",
  "For every non-replaced block in normal flow, margins, borders, padding and content width add up to the containing block's width, with auto values and over-constraint resolved as CSS 2.1 section 10.3.3 prescribes.",
  ["inputs"],"Every style combination and containing width.",
  "The W3C cases sample some combinations; sign changes in the P4 branch survive the suite.",
  [S+"engine.py"],[("case analysis on auto margins and width","engine.py calculate_block_non_replaced_normal_flow_width")],["Box widths and margins"])
p("C21","Unit arithmetic converts every length exactly to the pixel grid",
  "Every length converts to pixels as its unit, the display resolution, viewport, font and reference size define, rounded to 1/64 pixel, and scaling or negating a length scales or negates the result.",
  ["inputs"],"Every unit, value, display and font.",
  "Tests use a handful of values per unit.",[S+"units.py"],[("lu()/px()","units.py")],["Unit.px"])
p("C22","Equivalent color notations denote the same color",
  "Named, hexadecimal, rgb() and hsl() notations of one color parse to values with the same red, green, blue and alpha channels.",
  ["inputs"],"Every color and notation.","Tests sample a few notations.",[S+"parser.py",S+"colors.py"],[("color()","parser.py")],["channel values"])
p("C23","Shorthand parts may come in any order",
  "Border and outline shorthands accept their width, style and color parts in any order and combination and assign each part to its longhand.",
  ["inputs"],"Every permutation and subset of parts.","Tests list some permutations.",[S+"parser.py"],[("_parse_*_property_part","parser.py")],["longhand values"])
p("C24","Blocks stack vertically with collapsed margins",
  "Sibling blocks are placed one below the other, separated by the larger of their adjoining margins, and an auto-height parent ends at the bottom of its last child.",
  ["inputs"],"Every tree of blocks.","Tests cover three small trees.",[S+"engine.py"],[("offset_top/bottom_margin loop","engine.py layout_box")],["Box positions"])
p("C25","Malformed values are refused with ValueError and nothing else",
  "Every value of any type offered to any property is either accepted or refused with ValueError.",
  ["inputs"],"Every Python value offered to every property.","Tests offer a few wrong types per property.",[S+"parser.py",S+"validators.py"],[("validators translate parser errors","validators.py")],["exception type"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
