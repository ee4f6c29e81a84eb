#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
C='node_tree_core/src/'
NB,NT,SC,SI,TP,LG=C+'structs/node_base.rs',C+'structs/node_tree_base.rs',C+'structs/node_scene.rs',C+'structs/signals.rs',C+'structs/tree_pointer.rs',C+'structs/logger.rs'
RID,NP,FN,EX,GL,FI,RG=C+'structs/rid.rs',C+'structs/node_path.rs',C+'utils/functions.rs',C+'traits/exportable.rs',C+'traits/glam_exportables.rs',C+'structs/node_field.rs',C+'services/node_registry.rs'
TO,TR=C+'structs/tree_option.rs',C+'structs/tree_result.rs'
D='node_tree_derive/src/lib.rs'
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
H="every history of operations issued by the driver and by node callbacks (ready, loaded, process, terminal, signal listeners) at any point of a frame"
p('P01','The node tree stays well-formed whatever is added or removed, and when',
 "Whenever user code runs, the nodes reached from the root by following children are exactly the nodes in the tree, each reached once: its parent lists it once, children keep the order in which they were added, its depth is its parent's plus one, its ID resolves to it and to nothing else, and top-down listings enumerate a subtree level by level with every node exactly once. Adding a node or scene attaches exactly its nodes under the given parent, and removing a node detaches exactly it and its descendants, which then have no tree, parent or owner and refuse whatever needs one, while every other node is unaffected.",
 ['histories','schedules','programs'],H,
 "The tests build a handful of fixed trees and never remove, add or free nodes from inside the traversal of another one.",
 [NB,NT,RID],[('add_child_from_ptr / add_child',NB),('remove_branch, unregister_node',NT),('RIDHolder',RID)],['children()','parent()','depth()','top_down()','get_node(rid)','in_tree()'],
 [('children/parent/depth','links of a node',NB),('nodes','RID to node map',NT)])
p('P02','Siblings never share a name, and a free name is kept as requested',
 "At every moment no two children of the same node have the same name, however the nodes were named, renamed, added one by one or added as a scene. A node that is added or renamed gets exactly the requested name whenever no sibling holds it (renaming to its current name changes nothing), and otherwise a name made of the requested one's stem and a number; no other node's name changes.",
 ['inputs','histories'],"all requested names (including ones with numeric suffixes, leading zeros and non-ASCII letters) and all histories of adds, renames and removals",
 "The tests only add two or three nodes with the default class name.",
 [FN,NB],[('ensure_unique_name',FN),('set_name, add_child_from_ptr',NB)],['name()','children()'])
p('P03','Paths address exactly the node they describe, and nothing once it is gone',
 "Resolving a relative path from any node follows its segments exactly (a name selects the child with that name, '.' the node itself, '..' the parent), an absolute path starts at the root by its name, and repeated slashes are ignored; a path that names no current node resolves to nothing. A node's absolute path resolves to that very node from anywhere in the tree, also after being converted to text and back, and getting a node with the wrong type is an error rather than another node.",
 ['histories','inputs'],"all paths, starting nodes and tree histories, including paths resolved while nodes are being removed",
 "nodepaths.rs resolves a few paths in one fixed, never changing tree.",
 [NP,NB,NT],[('NodePath::from_str/to_string/get_from',NP),('get_node_raw, get_absolute_path',NB)],['get_node()','get_node_dyn()','get_absolute_path()','get_node_rid()'])
p('P04','A tree pointer only ever reaches the node it was created for, as its type',
 "A tree pointer reports itself valid and yields a node exactly while the node it was created for is in the tree, and it then yields that very node; once that node was removed it is null for good and never reaches another node, however many nodes were added since. Typed pointers are only obtained for a node of that type, and the dynamic type and trait tests and casts succeed exactly when the node is of that type or extends that trait.",
 ['histories','schedules'],"all interleavings of pointer creation, node removal and node addition, with pointers used at any later time",
 "error_handling.rs checks one pointer of the wrong type; no test uses a pointer after its node was removed and another was added.",
 [TP,RID,NT],[('Tp/TpDyn is_valid, try_get, is, to, cast, is_of',TP),('RIDHolder::push/take',RID)],['Tp','TpDyn'])
p('P05','ready() runs once per added node, children first, on a fully attached scene',
 "When a node or a scene is added, or a tree is created, all of its nodes are attached before any of their ready() functions run; then every one of them that is still in the tree gets ready() exactly once, children before their parents. Nodes that were loaded from saved data get loaded() exactly once, immediately before their ready(), and other nodes never do; neither function ever runs on a node that is no longer in the tree.",
 ['histories','schedules'],"all scenes, and all actions (adding, removing, freeing, renaming, panicking) performed by ready() and loaded() functions themselves",
 "The tests' ready() functions only log or look up nodes; none adds or removes nodes, and none counts the calls.",
 [NB,NT,SC],[('add_child',NB),('initialize, ready_nodes',NT),('Instanceable::iterate',SC)],['ready()','loaded()'])
p('P06','terminal() runs exactly once per removed node, with the right reason, in time',
 "Every node that leaves the tree by being freed, removed as a child or by a terminating tree gets terminal() exactly once, ancestors before descendants, with the reason Freed, RemovedAsChild or TreeExit according to what removed it; while it runs, the node is still in the tree with its parent, owner and children in place. No node that stays in the tree gets terminal(), and none gets process() or ready() after having been removed.",
 ['histories','schedules'],"all histories, including nodes freed or removed by themselves, their ancestors, descendants or siblings from within any callback, nested removals and removals during termination",
 "No test observes terminal() at all.",
 [NT,NB],[('remove_branch, process_tail',NT),('free, remove_child',NB)],['terminal()'])
p('P07','Each frame processes every eligible node exactly once, parents first, in order',
 "During a frame of a running tree, every node that is in the tree throughout the frame and whose process mode allows it gets process() exactly once, parents before their children and siblings in child order. A node removed during the frame is not processed after its removal, a node added during the frame is processed at most once, and once the tree is terminated no further node is processed.",
 ['schedules','histories'],"all trees and all points of a frame at which nodes are added, removed, freed or renamed, or the tree is paused or terminated",
 "The tests process fixed trees and do not modify the tree during a frame, other than to queue its termination.",
 [NT],[('process, process_tail',NT)],['process()'])
p('P08','Process modes and pausing decide exactly which nodes are processed',
 "A node is processed while the tree runs if its mode is Always or Pausable, and while the tree is paused if its mode is Always or Inverse, where Inherit stands for the mode of the closest ancestor that has another mode, or Pausable if there is none. Pausing and unpausing take effect for the next node to be processed, do not depend on whether termination is queued, and neither skip nor duplicate any node's children.",
 ['configurations','schedules'],"all assignments of modes (also changing over time) to trees, and all times of pausing and unpausing, also from within a frame",
 "No test pauses a tree or overrides a process mode.",
 [NT,C+'traits/node.rs'],[('process_tail',NT),('pause, unpause',NT)],['process()','pause()','unpause()'])
p('P09','All nodes of a frame get the true time since the last frame, from a steady clock',
 "The delta passed to process() is the time in seconds that passed on the monotonic clock between the start of the previous frame (or the creation of the tree) and the start of the current one, and it is the same for all nodes of a frame. It is never negative, does not depend on how long callbacks take within the current frame nor on the system's wall clock being set, and no time is lost or counted twice over successive frames, also when a frame was cut short by a panic.",
 ['schedules','fault_sequences'],"all sequences of frames, time passing between and within frames, and forward and backward jumps of the wall clock",
 "Tests run on the real clock and do not look at the delta.",
 [NT],[('process: last_frame',NT)],['process(delta)'],[('last_frame','instant of the last frame',NT)])
p('P10','Termination takes one terminal frame, is final, and can be immediate',
 "After termination is queued the current or next frame is completed normally, then one frame runs terminal() instead of process() on the nodes, and from then on the tree is terminated: it stays so for good, and no callback runs in later frames. Terminating immediately (also by logging a panic, or by freeing the root) ends the tree without running further terminal() functions of the tree exit, pausing does not change any of this, and each frame returns the status reached.",
 ['histories','schedules'],"all orders and times (between frames, in any callback of a frame) of queueing termination, terminating, pausing, panicking and freeing the root",
 "The tests loop until the tree is inactive but do not check which callbacks run in which frame.",
 [NT],[('process, queue_termination, terminate',NT)],['process()','TreeStatus'],[('status','the state of the tree',NT)])
p('P11','Every node is owned by the root of the scene it came with',
 "The root owns itself, a single added node gets the owner of its new parent, and a node added as part of a scene is owned by itself if the scene marks it as an owner and by its parent's owner otherwise. Every node's owner stays the same for as long as it is in the tree, no matter what else is added or removed, and saving branches, cloning and loading preserve which nodes are owners.",
 ['histories','programs'],"all scenes nested and instanced in any way, from memory, from saved branches and from files",
 "The tests do not check owners, except through the structural hash of one scene.",
 [NB,SC,NT],[('add_child_from_ptr',NB),('append, append_as_owner, load_from_str',SC)],['owner_dyn()','is_owner()'])
p('P12','Singleton names map to at most one live node, and are freed with it',
 "Registering a node under a name succeeds exactly when no node in the tree currently holds that name, and from then on looking the name up yields this node and its log lines carry the name, until it is registered under another name or leaves the tree. A name that is no longer held resolves to nothing and can be registered again; a failed registration changes nothing.",
 ['histories'],"all histories of registering, re-registering, removing and looking up, also from within callbacks",
 "singleton.rs registers a single name once.",
 [NT,NB],[('register_as_singleton, unregister_node, get_node_rid',NT)],['register_as_singleton()','get_node("name")','get_node_identity()'],[('singletons/identity','name to RID and back',NT)])
p('P13','An emitted signal reaches each connected listener exactly once',
 "Emitting a signal calls every listener that is connected at that time exactly once with the emitted value, except for those disconnected before their turn; a listener connected during the emission is not called by it, a one-shot listener is called by a single emission only, and a disconnected one never again. Listeners may connect, disconnect and emit on the same signal, or remove nodes, and every other listener is still called; connection IDs are unique, and disconnecting reports whether the connection still existed.",
 ['schedules','histories'],"all orders in which listeners are called and all actions taken by them, including re-entrant emissions and the removal of the emitting node",
 "signals.rs connects two listeners which do not touch the signal, and emits from process().",
 [SI,RID],[('connect, connect_once, emit, disconnect',SI)],['listener calls','disconnect()'],[('hooks','the connections of a signal',SI)])
p('P14','A saved scene loads back as the same scene',
 "Saving any scene, as text or to a file, and loading it, in this or a later process, yields a scene with the same shape, child order, node types, node names, ownership and exported fields, the same structural hash, and nodes marked as loaded; non-exported fields are void or default. Saving does not change the scene, saving a loaded scene again loads back the same, and partial or interrupted reads and writes make no difference.",
 ['inputs','programs','fault_sequences'],"all scenes (shapes, names, ownership, field values), all numbers of save/load generations, and all partial or interrupted transfers",
 "saving_and_loading.rs saves one small scene to a real file, without I/O faults, and compares the structural hash only.",
 [SC,RG,D],[('save_to_str, load_from_str, save, load, update_internal',SC)],['NodeScene::save/load','structural_hash()'])
p('P15','A crash or I/O error while saving never harms the previously saved scene',
 "Whatever I/O error, full disk or crash hits the saving of a scene, the file at its name afterwards loads as the complete former scene (or is absent if there was none) or as the complete new one, never as anything else, and no other scene in the directory is affected. Once saving reported success the new scene is what is loaded, also after a crash; an injected error is reported as an error rather than a panic, and a later attempt without faults succeeds.",
 ['crash_points','fault_sequences'],"all crash points and I/O faults (errors, short, torn and lost writes, full disk) at every system call of a save, over all previous contents",
 "No test injects an I/O error or a crash.",
 [SC],[('NodeScene::save',SC)],['NodeScene::save','NodeScene::load'])
p('P16','Loading damaged scene data gives an error or a sound scene, never a crash',
 "Loading any text or file, such as a saved scene that was truncated, bit-flipped, spliced, reordered or edited, or an I/O error while reading, returns either an error or a scene, and never panics, hangs or crashes. A scene that is returned can be added to a tree, saved and loaded again, and each of its field values is one its type can hold: an integer that does not fit its field is rejected rather than changed.",
 ['inputs','fault_sequences'],"all corruptions of saved data and all read faults",
 "The tests only load what was just saved.",
 [SC,EX,GL,D],[('load_from_str',SC),('from_value',EX)],['NodeScene::load','NodeScene::load_from_str'])
p('P17','Clones, instances and saved branches are complete and independent',
 "Cloning a scene, adding the same scene several times and saving a branch of a tree yield equal but separate copies: same shape, types, names, ownership and cloneable field values, while unique fields are void, signals are without listeners and no node is shared. Whatever happens to one of them or to the tree afterwards changes none of the others, and saving a branch does not alter the tree.",
 ['histories','programs'],"all histories mixing cloning, instancing, branch saving, changes to nodes and their removal",
 "complex_scenes.rs instances one scene twice and test_branch_saving compares one branch by structural hash.",
 [SC,NB,FI],[('NodeScene::clone',SC),('save_as_branch',NB),('Field, UniqueField, DefaultField clones',FI)],['NodeScene::clone','add_child','save_as_branch'])
p('P18','The log holds each posted message once, in order, truly attributed and timed',
 "Every message posted at a level the verbosity admits appears exactly once in the log and on the output, in the order posted, on a line with the wall clock time of the posting, the posting node's singleton name or else its absolute path at that time, its level and the unchanged text. Messages below the verbosity appear nowhere, and the log never loses or alters what was written before.",
 ['histories','configurations','fault_sequences'],"all verbosities, histories of posts by nodes being renamed, moved, registered or removed, and any wall clock time including backward jumps",
 "logger.rs posts a few messages and inspects nothing.",
 [LG,NT,NB],[('Logger::post, post_manual',LG),('post',NB)],['get_log()','standard output'])
p('P19','Node status and crash reports show exactly the current frame\'s issues',
 "A node's status becomes warned or panicked with the message when it posts a warning or panic, whatever the verbosity, stays so until the next frame starts and is then normal again for every node. A logged panic appends one crash report with the set header, footer and time, a drawing of the tree around the panicking node that shows every node up to six levels above and below with its name, and precisely the same-frame warnings and panics of the nodes shown.",
 ['histories','schedules'],"all trees, positions of the panicking node and histories of warnings over frames",
 "logger.rs triggers one crash report and inspects nothing.",
 [LG,FN,NB,NT],[('draw_tree',FN),('Logger::post',LG),('set_status',NB)],['status()','get_log()'])
p('P20','A failed unwrap or null pointer access is logged, terminates and unwinds cleanly',
 "Unwrapping or expecting a failed result or an empty option of the tree, and accessing a null or wrongly typed tree pointer by its panicking accessors, logs exactly one panic on behalf of the pointer's owner, terminates the tree and panics, and nothing else; this also holds if the owner or even the root was removed before. Their non-panicking counterparts (try_get, to_option, is_valid, unwrap_or and the like) never log, change a status, terminate or panic.",
 ['histories','schedules'],"all failing accesses at any point of any callback, with the owner alive, removed or removed in a previous frame",
 "error_handling.rs and logger.rs expect a panic with a live owner only.",
 [TO,TR,TP,NT],[('fail, expect, unwrap',TR),('post_for',NT)],['get_log()','panics','TreeStatus'])
p('P21','A panic in any callback leaves the tree consistent and usable',
 "When a node's callback or a signal listener panics and the panic is caught outside, the tree is still well-formed: every node is either completely in the tree or completely out of it, signals can still be emitted, connected and disconnected, and logging, lookups, adding, removing and processing work as before. The following frames process every node as usual, no callback that already ran exactly once for a node runs again, and no memory is freed twice or used after having been freed. A panic while a node is being copied for a clone or a saved branch leaves the original as it was.",
 ['fault_sequences','schedules'],"all positions of one or more panics in any kind of callback, nested in any operation, followed by any history",
 "The tests end with the first panic.",
 [NT,NB,SI],[('process: FrameGuard',NT),('remove_branch, ready_nodes',NT),('emit',SI)],['catch_unwind around tree operations'])
p('P22','Removed nodes are destroyed exactly once, and never while still in use',
 "A node's memory is released exactly once after it was removed from the tree, at the latest when the next frame starts, and never while it is in the tree, before its terminal() function was called, or while one of its own functions is still running. Neither the library nor a node's still running function ever reads or writes a released node, and nodes held by scenes are not released by trees which were given copies of them. Destructors of nodes may themselves remove nodes and use the tree.",
 ['schedules','histories'],"all histories, with nodes removing themselves, their ancestors, the emitter of a running signal or the whole tree at any point",
 "No test observes destruction, and use after free is not visible in them.",
 [NT,NB],[('remove_branch, unregister_node, process: removed',NT)],['Drop of node fields','simulated allocator'],[('removed','nodes waiting to be dropped',NT)])
p('P23','Every exportable value survives saving and loading unchanged',
 "A field of any exportable type (numbers, text, paths, addresses, dates, durations, options, collections, arrays, tuples, smart pointers, glam vectors, matrices, quaternions and affine transforms, and nestings of them) that is saved and loaded has an equal value of the same type again, for every value the format can represent. This includes limits, negative zero, infinities, empty and nested collections, and text with quotes, control, multi-byte and other special characters.",
 ['inputs','fault_sequences'],"all values of all exportable types, stored on and read back from a disk with partial transfers and crashes in between",
 "The tests save a few integers, a string and some glam vectors.",
 [EX,GL,FI],[('Exportable::to_value/from_value',EX),('Exportable::to_value/from_value',GL)],['exported fields after NodeScene::load'])
p('P24','TreeOption, TreeResult and field wrappers mirror the standard library',
 "The combinators of tree options and results (map, and_then, or_else, zip, take, transpose and so on) give what their standard library counterparts give, and call what they are given as often. If what comes out of them is unwrapped and fails, this is logged once on behalf of the node that the first option or result of the chain belonged to, even if it was removed since. Arithmetic assignments, taking and writing on field wrappers give what they give on the wrapped values, and options of them.",
 ['inputs','histories'],"all values, closures, chains of combinators and owners, with the owner removed before the chain fails or not","Only a few of the combinators are used by the tests.",
 [TO,TR,FI],[('combinators',TO),('combinators',TR),('operators',FI)],['return values'])
p('P25','The class!, scene! and connect! macros yield exactly what is declared',
 "Nodes of a declared class start with exactly the declared initial values and constructor arguments, run exactly the declared hooks and functions, extend exactly the declared traits, and treat each field as its kind demands when copied, saved and loaded. A scene built with scene! is exactly the declared one: classes, names, settings, order and ownership of the children, and a copy of every linked scene, with each expression evaluated once and in terms of the user's own variables. connect! connects exactly the named signal to the named function of the node that is pointed to, for good with -> and for one emission with ~>.",
 ['programs','inputs','histories'],"all values of the expressions, all scenes that are linked, all histories of connections and emissions, for every form of declaration that is used","The tests expand a few dozen declarations, with fixed values, and look at hardly any of what results.",
 [D,'node_tree_derive/src/parser.rs','node_tree_derive/src/generator.rs'],[('class, scene, connect, Abstract and Register macros',D),('generate_node','node_tree_derive/src/generator.rs')],['fields, names, children and owners of the scenes','what listeners and hooks are called with'])
p('P26','Malformed macro input is rejected at compile time',
 "Declarations of classes, scenes and connections that do not follow the documented syntax are rejected by the compiler with an error, instead of generating something else.",
 ['programs'],"all macro inputs","The tests only contain well-formed declarations.",
 [D,'node_tree_derive/src/parser.rs'],[('Parse implementations','node_tree_derive/src/parser.rs')],['compilation'])
p('P27','Trees in the same program do not affect each other',
 "A program may have any number of trees, whose operations and frames are interleaved in any way, even from within the callbacks of each other. Each of them behaves exactly as it would on its own: its nodes, names, paths, singletons, pointers, signals, statuses, log, pause state, termination and the time that passes between its frames only depend on what is done to that tree, and a failure, panic or termination in one of them leaves the others as they are.",
 ['schedules','histories'],"all interleavings of all histories of several trees, including frames of one tree within callbacks of another one",
 "No test makes more than one tree at a time.",
 [NT,RID,LG,SI,TP,RG],[('NodeTreeBase: all of its state',NT),('RIDHolder',RID),('Logger',LG)],['every observation of one tree while another one is used'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        n=[s for s in x['statement'].replace("'.'","''").replace("'..'","''").split('. ') if s]
        assert len(n)<=3,(x['id'],len(n))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
