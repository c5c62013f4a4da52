import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))
PM="pkg/persistence/main.go"; W="pkg/world/world.go"; T="pkg/world/tree.go"; R="pkg/world/rel.go"; I="pkg/world/item.go"; A="pkg/app/main.go"; C="pkg/app/command.go"; G="pkg/grammar/grammar.peg.go"

p("C01","A killed or failed save never damages the stored world",
  "If saving a world is cut short at any point by the death of the process or by an I/O error, loading that name afterwards yields exactly the last version stored before that save began or exactly the version being saved. It never yields a load error, a partial file or a mixture of versions; if nothing was stored under that name before, the name may also simply not be found.",
  ["crash_points","fault_sequences","schedules"],"every point of every save at which the process may die or a system call may fail or be cut short, for every previous content of the storage directory",
  "The one persistence test saves once to a healthy temporary directory and loads it back; it has no crash point and no failing system call.",
  [PM],[("Save replaces the stored file","Save in "+PM)],observe=["Save / Load results","bytes of the stored file in the simulated disk"])
p("C02","An acknowledged save survives power loss",
  "Once a save has reported success, a power failure at any later moment (everything not yet forced to stable storage may be lost, torn or only partly written) leaves that version, or a version whose save began later, loadable under its name. A save in flight when the power fails leaves either the version last stored or the new one.",
  ["crash_points","fault_sequences"],"every power-failure point and every subset/tearing of not-yet-durable writes and directory updates the storage model allows, after any sequence of saves",
  "No test ever loses un-synced data; a temporary directory on a running kernel always reads back what was written.",
  [PM],[("Save reports success only when data and directory entry are on stable storage","Save in "+PM)],observe=["Save / Load results","durable image of the simulated disk"])
p("C03","Storage errors are reported, never masked as success",
  "Saving reports success only if the complete world is really stored (readable back, and durable), whichever storage operations fail on the way. Loading or listing that meets failing storage operations never returns a partial or wrong result: it gives an error and no result, or the complete correct result. Short transfers and interrupted system calls are absorbed and change nothing.",
  ["fault_sequences","inputs"],"every storage operation of a save, load or list failing, being interrupted or transferring fewer bytes than asked, in every combination",
  "Tests never see a failing, short or interrupted system call.",
  [PM],[("error returns of Save, Load, ListWorlds",PM)],observe=["returned error and result","content of the simulated disk after a reported success"])
p("C04","Save, restart and load reproduces the world exactly",
  "For every history of commands, a world that was saved and then loaded by a fresh process is identical to the world that was saved: same name, id, version and description, same items with every attribute, same nesting, same relationships with every attribute, and the library's own equality agrees. Its further behaviour under commands is that of the original, however the process enumerates its collections.",
  ["histories","schedules","inputs"],"every history of commands followed by save, process restart and load, with any text the command language can express, under every map iteration order",
  "The round-trip tests use two fixed worlds without attributes and one linear ten-item world; they never set an attribute through a command, never rename, and never continue after the reload.",
  [W,T,I,R,PM,G],[("world text form and its parser","world.String / FromString in "+W),("items carried by the tree text","tree.String in "+T)],
  state=[dict(name="Items",meaning="item attributes",where=W),dict(name="Tree",meaning="containment, and the item text that is written to disk",where=T)],observe=["world reads after Load","WorldEqual"])
p("C05","Processes sharing a storage directory see whole, ordered versions",
  "When several processes, or several goroutines of one process with handles of their own or a common one, save, load and list worlds in the same directory at the same time, each stored world behaves like one atomic register: every load returns exactly one version that some process saved, and the loads and saves of a name are explainable by one order consistent with real time. A load running during a save never fails because of that save and never sees part of it.",
  ["schedules","histories"],"every interleaving of up to four processes or goroutines saving, loading and listing in one directory",
  "Tests run one process and one operation at a time.",
  [PM],[("Save publishes the new file in one step",PM)],observe=["invocation/response history of Save and Load"])
p("C06","Worlds on disk are isolated and stay in their directory",
  "Saving a world changes only that world's stored version, inside the storage location in force at that moment: no other world's content, no other storage location and no file outside it is created, changed or removed, whatever the world is called. Loading and listing change nothing on disk, and after the storage location is switched every operation uses the new one.",
  ["histories","inputs","fault_sequences"],"every sequence of saves, loads, lists and storage-location switches, with any world name, with and without failing operations",
  "The test uses one directory, one harmless name and never looks at the rest of the disk.",
  [PM],[("path built from directory and world name","Save / Load in "+PM),("SetSourcePath",PM)],observe=["full content of the simulated disk before and after every operation"])
p("C07","The list of worlds is exactly what can be loaded",
  "Listing the storage location names exactly the worlds that have been stored there, each once, under the name that loads it: every world whose save was acknowledged is listed, nothing else is (no leftovers of failed, killed or running saves), and loading any listed name succeeds and returns a world of that name.",
  ["histories","crash_points","schedules"],"every history of saves by one or more processes with crashes and failures, and every world name the command language can express",
  "No test calls the listing at all.",
  [PM],[("directory scan and name/extension mapping","ListWorlds in "+PM)],observe=["ListWorlds result against acknowledged saves"])
p("C08","Storage recovers by itself once faults stop",
  "After any sequence of crashes, power failures and storage errors, once faults stop every process can again save, load and list without manual cleanup: the next save of any world succeeds, the next load returns it, within a bounded number of storage operations, and repeated interrupted saves do not make stored worlds inaccessible.",
  ["fault_sequences","crash_points"],"every fault history followed by a fault-free period, for old and new world names, by the same or a restarted process",
  "Tests never produce the leftovers of an interrupted save.",
  [PM],[("Save/Load/ListWorlds keep no state a crash can wedge",PM)],observe=["results of the first operations after the last fault, and their system-call counts"])
p("C09","Damaged world files are handled safely",
  "Loading a file whose bytes were damaged (cut off, zeroed, overwritten, mixed with another file, or of a different kind) never crashes or hangs the process and never changes the file; it returns either an error and no world, or a consistent world. A world file cut off anywhere before its end marker, an empty file, and a file that does not hold a world are reported as errors.",
  ["inputs","fault_sequences"],"every kind and place of damage to a stored file, including damage that leaves text the command language accepts",
  "Tests parse only well-formed worlds.",
  [PM,W,G],[("parser acceptance and FromString's checks","FromString in "+W),("Load's error path",PM)],observe=["Load result, panics, file bytes afterwards, invariants of the returned world"])
p("C10","Containment is always a forest, each item in exactly one place",
  "After every operation of every history, each item of a world appears exactly once in its containment hierarchy, no item contains itself directly or indirectly, and the answers about parents, components, membership and the hierarchy text agree with each other. Nesting moves an item together with everything inside it; nesting that would create a cycle is refused; deleting an item moves its direct components to its parent.",
  ["histories","schedules"],"every history of create, nest, free, delete, undo and reload, under every map iteration order",
  "Tree tests build one two-child tree by hand and never move, delete or nest anything twice.",
  [T,W],[("AddOrMove and Delete keep parent link and component set in step",T),("Nest/Free/ItemDelete",W)],state=[dict(name="Tree",meaning="parent links and component sets",where=T)],observe=["Parent, Components, In, ItemList, world text"])
p("C11","Commands have exactly their documented effect",
  "After every command the items, attributes, nesting and relationships of the world are exactly those the documented effect of the command sequence gives, and the reply shows the resulting object: create makes or retrieves, set changes only the named attributes, clear empties only the named attributes, delete removes only its target, create-or-set and create-or-fetch do what their names say, nest and free move exactly the listed items. Creating or setting twice is the same as once.",
  ["histories","schedules","inputs"],"every command history over every attribute and item type, plain and quoted identifiers, under every map iteration order, with restarts in between",
  "The only application test sends the single command `world` to an empty world; the grammar tests never execute a command.",
  [C,W,I,R,G],[("command types and their Execute",C),("ItemCreate/ItemSet/RelCreate/RelSet",W)],observe=["Exec replies","world reads"])
p("C12","Queries answer from the current state, and change nothing",
  "Every query is answered exactly from the current state: existence, fetch, listing (with limit: that many distinct members), direct components of an item, `in?` (anywhere inside, or identity when strict), `from?`/`to?` and relationship fetch (rolled up over everything inside the named items, or exact when strict). No query, successful or failing, changes the world or what later commands see.",
  ["histories","schedules"],"every query in every reachable state, strict and not, for existing and missing items, under every map iteration order",
  "No test runs a query command against a world.",
  [C,W,T],[("query commands",C),("RelFrom/RelTo/RelFetch/In/ItemComponents",W)],observe=["Exec replies compared with the model","world reads before/after"])
p("C13","Relationships never dangle and always show current items",
  "After every operation every relationship joins two items that exist, there is at most one relationship per ordered pair, and the items it shows carry their current attributes. Deleting an item removes exactly the relationships that touch it; distinct pairs of identifiers never share a relationship, whatever characters the identifiers contain.",
  ["histories","inputs","schedules"],"every history of item and relationship commands, deletions and reloads, over identifiers that contain separators, spaces and common prefixes",
  "No test deletes an item that has relationships or changes an item after relating it.",
  [W,R],[("relationship key and endpoint copies","relIdFromIds in "+R+", RelCreate/ItemSet/ItemDelete in "+W)],observe=["RelList, RelFetch"])
p("C14","A command that reports an error changes nothing",
  "If a command is answered with an error, the world is exactly as it was before the command, even when the command names several items and only some of them are at fault, and a command that could not do what it was asked is answered with an error rather than success. The error concerns that command only; later commands are unaffected.",
  ["histories","inputs"],"every command that fails in any reachable state: missing items, missing parents, cycles, partly valid lists, unparsable lines",
  "No test executes a failing command.",
  [C,W],[("ItemNestCommand/ItemFreeCommand and error propagation",C)],observe=["world reads before/after each error reply"])
p("C15","Undoing a command restores the state before it",
  "For every executed command, undoing it immediately restores the exact previous state: attributes, nesting position and components, and relationships with their attributes. Undoing a whole history in reverse order returns the world to where it started, including commands that failed, did nothing, or named several items.",
  ["histories","schedules"],"every command history, undone fully or partly, under every map iteration order",
  "No test calls Undo.",
  [C,W],[("Undo of every command type and the state it remembers",C)],observe=["world reads after Undo compared with the recorded earlier state"])
p("C16","Undo/redo walk the history one exact step at a time",
  "Undo moves the application back by exactly one history entry and redo forward by exactly one, the world always being the one that existed at that point of the history; undo at the beginning and redo at the end do nothing. The reported history, can-undo and can-redo always agree with this, and executing a new command after undo discards the undone ones. A reported history stays what it was, and what its reader does with it changes nothing.",
  ["histories","schedules"],"every interleaving of commands, undo and redo, including at both ends of the history",
  "Undo and redo are not exercised by any test.",
  [A,C],[("commands list and cursor",A)],state=[dict(name="commands/commandsIdx",meaning="history and cursor",where=A)],observe=["History, CanUndo, CanRedo, world reads"],
  hook="build-tagged accessors for the unexported undo/redo of the application")
p("C17","Replaying the same history gives the same world everywhere",
  "Replaying one history of commands, in another process or after a restart, gives an equal world and the same replies up to the order of lists and the choice under a limit, however each process happens to enumerate its collections. The equality tests for worlds and trees say equal exactly when all observable parts are equal, in both directions and on every evaluation.",
  ["schedules","histories"],"every command history run under pairs of independently chosen map iteration orders",
  "Go randomises map iteration, so each test run sees one order per loop; equality is tested on worlds with at most one relationship per source.",
  [W,T,C],[("WorldEqual / TreeEqual / iteration over maps and sets",W)],observe=["snapshots and replies of two simulated replicas","WorldEqual, TreeEqual"])
p("C18","Every line gets one well-formed reply and the session survives",
  "Every line sent to the application, valid or not, is answered with exactly one reply that the reply grammar accepts: an object with status 200, or an error status; it never panics or hangs, also when the process's output stream fails or stalls. A valid command is never answered as invalid, and an invalid line never changes the world or the history.",
  ["inputs","fault_sequences","histories"],"every line, in every reachable state, with any failure of the output stream",
  "The tests send one valid command and never check an error reply of the application.",
  [A,G,"pkg/errors/main.go"],[("Exec: parse, dispatch, reply validation",A)],observe=["Exec replies","history length","world reads"])
p("C19","Worlds held by one process do not affect each other",
  "Operations on one world never change, and are never affected by, any other world held in the same process, including worlds created empty, loaded from disk or loaded twice from the same file, however the clients' operations interleave.",
  ["schedules","histories"],"every interleaving of operations on up to four worlds in one process",
  "Each test uses one world at a time.",
  [W,T],[("per-world maps and tree; package-level empty tree",T)],observe=["reads of every world after every operation"])
p("C20","What one process prints, every process reads back the same",
  "In every state of every history the text form of each item, relationship, containment hierarchy and world is read back, by any process, as exactly the object it was printed from: same identifiers, attributes, nesting and endpoints, reported as equal by the library, and printing the same text for items and relationships. No text of one object is read as another.",
  ["histories","schedules","inputs"],"the texts of every item, relationship, hierarchy and world in every reachable state, over every text the command language can express, read under another enumeration order than the one they were printed under",
  "Four hand-written items and relationships and one three-item hierarchy are parsed; none came out of a history, none was printed by one process and read by another.",
  [I,R,T,W,G],[("Item.String/ItemFromString",I),("Rel.String/RelFromString",R),("tree.String/TreeFromString",T)],observe=["ItemFromString, RelFromString, TreeFromString, FromString on the texts of a live world"])
p("C21","The browser bridge answers every line with the application's reply",
  "Each call of the bridge function with one line executes that line exactly once in that page's application and returns one valid JSON object whose status code, message and object are those of the application's reply: a success as success with the object's text, an error as that error with its own message. Bad lines and bad arguments get an error object and leave the page usable. Pages do not share state, and a reloaded page starts with a fresh world.",
  ["inputs","histories","schedules","fault_sequences"],"every sequence of calls, with any line, by several pages, with reloads in between and with a console that fails",
  "cmd/wasm has no tests and is not even compiled by the test run.",
  ["cmd/wasm/main.go",A,G],[("sendCommand, toReply, jsReplyToJsValue","cmd/wasm/main.go"),("StatusCode/StatusMessage of a parsed reply",G)],observe=["JSON returned to JavaScript compared with the reply of an application driven by the same lines"])
p("C22","The interactive console executes each line once and prints its reply once",
  "Every non-blank line typed at the console is executed exactly once: a valid command is answered by printing exactly its reply, once; any other line is answered by an error message and changes nothing. Blank lines do nothing, completion changes nothing, and the session goes on whatever was typed; only the exit keys end it.",
  ["inputs","histories","fault_sequences"],"every sequence of lines typed, pasted or recalled, with a terminal that fails or takes part of the output",
  "cmd/cli has no tests.",
  ["cmd/cli/main.go",A],[("executor, completer","cmd/cli/main.go")],observe=["bytes written to the simulated terminal","world state of an application driven by the same lines"])
p("C23","The world library does what each call says and reports it for that call alone",
  "Called directly, in any order and with any arguments, each operation of a world has exactly its documented effect and no other: creating what exists returns it unchanged, with an error if the attributes differ; setting changes only the attributes that were passed; deleting or looking up what does not exist changes nothing. After an operation that creates, changes or moves something, the reported error, item and relationship belong to that operation alone, and one that fails changes at most the attributes it was to set, and names what it did not find. Lists and arguments stay the caller's own.",
  ["histories","inputs","schedules"],"every sequence of direct calls with any identifiers and values, including ones no command line can carry, mixed with command lines executed on the same world",
  "The world's tests make a handful of calls each, always with plain identifiers, and never look at Err after a later call.",
  [W,I,R],[("Operations of World and their documentation",W),("latestItem/latestRel/latestErr",W)],state=[dict(name="latestItem, latestRel, latestErr",meaning="outcome of the last operation",where=W)],observe=["returned values, Err, Item, Rel and all reads after each call"])
p("C24","A hierarchy used directly stays one consistent tree",
  "Whatever is added, moved or removed at whatever place of a containment hierarchy, it remains a tree that holds each item once: an added item is placed where it was added, a moved one takes its components along, the components of a removed one go to its parent, and a move below itself is refused and changes nothing. Parent, Root, Components, Has, Find, GetDescendantIds, Empty and the text form always agree with that tree, and no hierarchy is affected by another one.",
  ["histories","schedules","inputs"],"every sequence of additions, moves and removals at every node of several hierarchies that were read from texts, under every map iteration order",
  "The tree's tests build one fixed tree of three nodes and never add, move or remove anything.",
  [T],[("AddOrMove, Delete and the parent links",T)],state=[dict(name="item, components, parent",meaning="a node and its links",where=T)],observe=["all methods of Tree at every node after each call"])
p("C25","Goroutines with worlds of their own never notice each other",
  "Several goroutines of one process may at the same time each create, command, query, undo, print, parse, save and load worlds that only they use, under names only they use. Whatever the interleaving, each of them gets exactly the replies, errors, texts and worlds it gets when it is alone, none is held up for ever, none crashes the process, and the library never uses memory common to them without synchronisation.",
  ["schedules","histories","inputs"],"every interleaving, at any statement of the library, of up to four goroutines with worlds of their own",
  "Every test uses the library from one goroutine.",
  [W,T,R,I,A,C,G,"pkg/grammar/main.go",PM],[("state is kept per World, App, Parser and handle, none of it in the packages","pkg")],observe=["every reply, error, parsed line, printed text, loaded world and history of each goroutine, compared with the same operations alone"])
E="pkg/errors/main.go"
p("C26","Errors are values: making one from another leaves the other as it was",
  "An error of the library, once made, never changes, whatever is made from it, by whomever and however interleaved. An error made from another by setting the code or description, adding or clearing data or adding causes is exactly the other with that change; joining errors gives one with all of them as causes, nil ones left out. The first cause is the one it unwraps to, its text holds the code, description, message and the text of every cause, and, if it has no further quotes in it, is read as a status of that code and message.",
  ["histories","schedules","inputs"],"every sequence of derivations from errors that several goroutines share, made by the caller or by the library, preempted at any statement",
  "pkg/errors has no tests.",
  [E],[("UseCode, WithDescription, WithData, ClearData, WithError, Join",E)],state=[dict(name="Data, errs",meaning="data and causes of an error",where=E)],observe=["fields, text, Unwrap and errors.Is of every error made so far, after each step"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
S=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,S)
print(len(P), [ (x['id'],x['statement'].count('. ')+1) for x in P])
