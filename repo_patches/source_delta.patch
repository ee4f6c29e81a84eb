From 73bac72c817a35558768e4cc8df9782ed3f3a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 01/30] fix: never hand out an RID twice, and make from_vec()
 leave its last item alone

---
 node_tree_core/src/structs/rid.rs | 34 ++++++++++---------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/node_tree_core/src/structs/rid.rs b/node_tree_core/src/structs/rid.rs
index 476b1d5..0d7dacf 100644
--- a/node_tree_core/src/structs/rid.rs
+++ b/node_tree_core/src/structs/rid.rs
@@ -33,8 +33,7 @@ pub type RID = u64;
 #[derive(Debug, Clone, Default)]
 pub struct RIDHolder<T> {
     data:    HashMap<RID, T>,
-    highest: RID,
-    vacant:  Vec<RID>
+    highest: RID
 }
 
 impl <T> RIDHolder<T> {
@@ -43,32 +42,27 @@ impl <T> RIDHolder<T> {
     pub fn new() -> Self {
         RIDHolder {
             data:    HashMap::new(),
-            highest: 0,
-            vacant:  Vec::new()
+            highest: 0
         }
     }
 
     /// Creates a new RID holder from a vector, where each index of each item is its RID.
     pub fn from_vec(slice: Vec<T>) -> Self {
-        let highest: RID = (slice.len() - 1) as RID;
+        let highest: RID = slice.len() as RID;
         RIDHolder {
             data:    slice.into_iter().enumerate().map(|(rid, item)| (rid as RID, item)).collect(),
-            highest,
-            vacant:  Vec::new()
+            highest
         }
     }
 
     /// Adds a new item to the holder, registering it under the returned ID.
+    ///
+    /// # Note
+    /// An ID is never handed out twice, as otherwise a stale ID would silently alias a newer item.
     pub fn push(&mut self, item: T) -> RID {
-        let rid: RID = match self.vacant.pop() {
-            Some(id) => id,
-            None     => {
-                let id: RID = self.highest;
-                self.highest += 1;
-                id
-            }
-        };
-
+        let rid: RID = self.highest;
+        
+        self.highest += 1;
         self.data.insert(rid, item);
         rid
     }
@@ -88,13 +82,7 @@ impl <T> RIDHolder<T> {
     /// Removes an item from the collection by the passed RID.
     /// Returns the item.
     pub fn take(&mut self, rid: RID) -> Option<T> {
-        match self.data.remove(&rid) {
-            None       => None,
-            Some(item) => {
-                self.vacant.push(rid);
-                Some(item)
-            }
-        }
+        self.data.remove(&rid)
     }
 
     /// Returns an iter for each of the items.
-- 
2.43.0


From d0357a4c3406e1a7af95ba6835e029d63f57fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 02/30] fix: let nodes be removed while a frame is being
 processed

---
 node_tree_core/src/structs/node_tree_base.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 8ee4017..ec34a08 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -376,7 +376,9 @@ impl NodeTreeBase {
     /// The recursive tail-end of the process function which traverses down the node tree.
     fn process_tail(&mut self, node_rid: RID, delta: f32, inherited_process_mode: ProcessMode) {
         let status: TreeStatus    = self.status;
-        let node:   &mut dyn Node = self.get_node_mut(node_rid).unwrap();
+
+        // The node may have been removed by another one since the start of this frame.
+        let Some(node) = self.get_node_mut(node_rid) else { return };
         
         // Determine the process mode.
         let mut process_mode: ProcessMode = node.process_mode();
@@ -413,6 +415,9 @@ impl NodeTreeBase {
             TreeStatus::Terminated  => ()
         }
 
+        // The node may have just removed itself, in which case it must not be used anymore.
+        let Some(node) = self.get_node(node_rid) else { return };
+
         // Go through each of the children and process them, perpetuating the recursive cycle.
         for child_node in node.children().into_iter().map(|c| c.rid()).collect::<Vec<_>>() {
             self.process_tail(child_node, delta, process_mode);
-- 
2.43.0


From 343404b30788c40983bb2f71cb2e2e23175699be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 03/30] fix: call every removed node's own terminal() while the
 branch is intact, and keep it until the next frame

---
 node_tree_core/src/structs/node_base.rs      | 87 ++++++++------------
 node_tree_core/src/structs/node_tree_base.rs | 69 +++++++++++++++-
 2 files changed, 99 insertions(+), 57 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 9e09045..32165ce 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -33,7 +33,7 @@ use super::{
     logger::Log,
     node_path::{ PathSeg, NodePath },
     node_scene::NodeScene,
-    node_tree_base::{ NodeTreeBase, TerminationReason },
+    node_tree_base::TerminationReason,
     tree_pointer::{ TPError, Tp, TpDyn },
     tree_result::TreeResult,
     rid::RID
@@ -105,6 +105,7 @@ pub struct NodeBase {
     children: Vec<RID>,
     status:   Rc<Mutex<NodeStatus>>,
     loaded:   bool,
+    exiting:  bool,   // Whether the Node's `terminal()` function has already been called.
     depth:    usize   // How far the Node is within the tree.
 }
 
@@ -121,6 +122,7 @@ impl NodeBase {
             children: Vec::new(),
             status:   Rc::new(Mutex::new(NodeStatus::Normal)),
             loaded:   false,
+            exiting:  false,
             depth:    0
         }
     }
@@ -315,32 +317,16 @@ impl NodeBase {
             return false;
         }
 
-        let (
-            child_idx,
-            child_name,
-            connected
-        ): (usize, String, Vec<RID>) = unsafe {
-            child.map(|(idx, child)| (
-                    idx,
-                    child.name().to_string(),
-                    child.top_down(true)
-            )).unwrap_unchecked()
+        let (child_name, child_rid): (String, RID) = unsafe {
+            child.map(|(_, child)| (child.name().to_string(), child.rid())).unwrap_unchecked()
         };
 
-        self.children.remove(child_idx);
-        for (idx, queued_rid) in connected.into_iter().enumerate() { unsafe { 
-            let _is_root_child: bool          = idx == 0; // TODO: Use this to save children nodes!
-            let queued_node:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(queued_rid).unwrap_unchecked();
-            
-            queued_node.terminal(TerminationReason::RemovedAsChild);
-            queued_node.disconnnect_parent();
-            queued_node.disconnnect_owner();
-            queued_node.disconnnect_tree();
-
-            self.tree_mut().unwrap_unchecked().unregister_node(queued_rid);
-        }}
+        self.tree_mut().unwrap().remove_branch(child_rid, TerminationReason::RemovedAsChild);
 
-        self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        // A `terminal()` function that was just called may have removed this node as well.
+        if self.in_tree() {
+            self.post(Log::Debug(&format!("Removed child node \"{}\" from parent node \"{}\"!", child_name, self.name())));
+        }
         true 
     }
 
@@ -596,37 +582,15 @@ impl NodeBase {
             panic!("Cannot free a node that is not a part of a NodeTree! Instead, simply let the unbound Node drop out of scope or use drop()!");
         }
         
-        // Call the terminal function on this node,
-        // before removing it and all it's children nodes from the NodeTree.
-        for node in self.top_down(true) {
-            let is_self: bool              = node == self.rid;
-            let tree:    &mut NodeTreeBase = unsafe { self.tree_mut().unwrap_unchecked() };
-
-            unsafe {
-                tree.get_node_mut(self.rid).unwrap_unchecked().terminal(TerminationReason::Freed); // Has to be called externally!
-            }
-
-            // Remove the reference of this node from its parent if it has a parent.
-            if is_self {
-                if let Some(parent) = self.parent {
-                    unsafe {
-                        let rid:       RID           = self.rid;
-                        let parent:    &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(parent).unwrap_unchecked();
-                        let child_idx: usize         = parent.children.iter().position(|&c_rid| c_rid == rid).unwrap_unchecked();
-
-                        parent.children.remove(child_idx);
-                    }
-                }
-            }
-
-            unsafe {
-                tree.unregister_node(node);
-            }
-        }
+        // Call the terminal function on this node and on all of it's children nodes, before removing
+        // them from the NodeTree.
+        let is_root: bool              = self.is_root();
+        let tree:    &mut dyn NodeTree = self.tree_mut().unwrap();
+        tree.remove_branch(self.rid, TerminationReason::Freed);
 
         // If this is the root node, terminate the NodeTree.
-        if self.is_root() {
-            self.tree_mut().unwrap().terminate();
+        if is_root {
+            tree.terminate();
         }
     }
 
@@ -847,6 +811,14 @@ impl NodeBase {
         self.parent = Some(parent);
     }
 
+    /// Removes a child from this node's children vector.
+    ///
+    /// # Safety
+    /// This should NOT be called manually.
+    pub(crate) unsafe fn disconnect_child(&mut self, child: RID) {
+        self.children.retain(|&rid| rid != child);
+    }
+
     /// Disconnects this node's parent from this node.
     ///
     /// # Safety
@@ -924,6 +896,15 @@ impl NodeBase {
         self.num_children() == 0
     }
 
+    /// Marks this node as having had its `terminal()` function called.
+    /// Returns whether this is the first time that this node is marked as such.
+    ///
+    /// # Safety
+    /// This should not be used manually.
+    pub(crate) unsafe fn mark_as_exiting(&mut self) -> bool {
+        !std::mem::replace(&mut self.exiting, true)
+    }
+
     /// Marks this node as just having been recently loaded from the disk.
     /// 
     /// # Safety
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index ec34a08..67c0f59 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -156,7 +156,9 @@ pub struct NodeTreeBase {
     identity:   HashMap<RID, NodeIdentity>,
     singletons: HashMap<String, RID>,
     status:     TreeStatus,
-    last_frame: Instant
+    last_frame: Instant,
+    frames:     usize,             // The number of `process()` calls that are currently running.
+    removed:    Vec<Box<dyn Node>> // Removed nodes are kept until the next frame, as their code may still be running.
 }
 
 impl NodeTreeBase {
@@ -177,7 +179,9 @@ impl NodeTreeBase {
             identity:   HashMap::new(),
             singletons: HashMap::new(),
             status:     TreeStatus::Process(TreeProcess::Running),
-            last_frame: Instant::now()
+            last_frame: Instant::now(),
+            frames:     0,
+            removed:    Vec::new()
         };
         
         node_tree
@@ -248,6 +252,12 @@ impl NodeTreeBase {
     /// This returns the `TreeStatus`
     pub fn process(&mut self) -> TreeStatus {
 
+        // Now that no node that was removed before this frame could still be running its code,
+        // destroy them all.
+        if self.frames == 0 {
+            self.removed.clear();
+        }
+
         // Return early if the tree is no longer active.
         if !self.status.is_active() {
             return self.status;
@@ -267,7 +277,18 @@ impl NodeTreeBase {
         }
 
         // Process the node tree recursively.
-        self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);
+        {
+            struct FrameGuard(*mut usize); // Also ends the frame if a node panics.
+            impl Drop for FrameGuard {
+                fn drop(&mut self) {
+                    unsafe { *self.0 -= 1; }
+                }
+            }
+
+            self.frames += 1;
+            let _guard: FrameGuard = FrameGuard(&mut self.frames);
+            self.process_tail(Self::ROOT_RID, delta, ProcessMode::Pausable);
+        }
 
         // Check the tree's status.
         match self.status {
@@ -411,7 +432,7 @@ impl NodeTreeBase {
                 }
             }
             
-            TreeStatus::Terminating => node.terminal(TerminationReason::TreeExit),
+            TreeStatus::Terminating => if unsafe { node.mark_as_exiting() } { node.terminal(TerminationReason::TreeExit) },
             TreeStatus::Terminated  => ()
         }
 
@@ -470,6 +491,46 @@ impl NodeTreeBase {
         })
     }
     
+    /// Removes a node along with all of the nodes below it from the tree.
+    /// Every node has its `terminal()` function called once, from the top down, while all of them are
+    /// still connected. Only after that are they disconnected and unregistered.
+    pub(crate) fn remove_branch(&mut self, top: RID, reason: TerminationReason) {
+        
+        // A `terminal()` function may add or remove other nodes, so repeat this until all were called.
+        let mut done: bool = false;
+        while !done {
+            done = true;
+            for rid in self.get_node(top).map(|node| node.top_down(true)).unwrap_or_default() {
+                let Some(node) = self.get_node_mut(rid) else { continue };
+                if unsafe { node.mark_as_exiting() } {
+                    node.terminal(reason);
+                    done = false;
+                }
+            }
+        }
+
+        // The branch could have already been removed by one of the `terminal()` functions.
+        let Some(node) = self.get_node(top) else { return };
+        
+        let parent: Option<RID> = node.parent_dyn().to_option().map(|parent| parent.rid());
+        let branch: Vec<RID>    = node.top_down(true);
+        
+        if let Some(parent) = parent.and_then(|rid| self.get_node_mut(rid)) {
+            unsafe { parent.disconnect_child(top); }
+        }
+
+        for rid in branch {
+            if let Some(mut node) = unsafe { self.unregister_node(rid) } {
+                unsafe {
+                    node.disconnnect_parent();
+                    node.disconnnect_owner();
+                    node.disconnnect_tree();
+                }
+                self.removed.push(node);
+            }
+        }
+    }
+    
     /// Converts a Node into a singleton which means that a node is allowed access by name.
     ///
     /// # Note:
-- 
2.43.0


From 80243b00c6ee2c7c68f5737db48c3c1c6e6ef2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 04/30] fix: release a singleton's former name when it is given
 a new one

---
 node_tree_core/src/structs/node_tree_base.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 67c0f59..592ab6d 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -543,6 +543,8 @@ impl NodeTreeBase {
             return Some(false);
         }
 
+        // A node is only accessible by its current name, so release the one it had before.
+        self.singletons.retain(|_, singleton_rid| *singleton_rid != rid);
         self.identity.insert(rid, NodeIdentity::UniqueName(name.clone()));
         self.singletons.insert(name, rid);
         Some(true)
-- 
2.43.0


From 4d1b485ce7ccb12bc5e1126e700dadc5c2472f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 05/30] fix: never give two siblings the same name, nor rename
 a node whose name is already unique

---
 node_tree_core/src/structs/node_base.rs |  2 +-
 node_tree_core/src/utils/functions.rs   | 84 +++++++------------------
 2 files changed, 23 insertions(+), 63 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 32165ce..4b752a1 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -169,7 +169,7 @@ impl NodeBase {
     pub fn set_name(&mut self, name: &str) {
         if let (Some(parent), Some(tree)) = (self.parent, self.tree()) {
             let     parent:    &dyn Node    = unsafe { tree.get_node(parent).unwrap_unchecked() };
-            let     siblings:  &[String]    = &parent.children().iter().map(|a| a.name().to_string()).collect::<Vec<_>>();
+            let     siblings:  &[String]    = &parent.children().iter().filter(|a| a.rid() != self.rid).map(|a| a.name().to_string()).collect::<Vec<_>>();
 
             unsafe {
                 self.set_name_unchecked(&ensure_unique_name(name, siblings));
diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index bd4f4be..ae361f4 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -31,78 +31,38 @@ use crate::{ prelude::{ RID, NodeTreeBase, Node }, structs::node_base::NodeStatu
 /// Ensures that the name provided is unique relative to the list of other names.
 /// If it is not, then it will create a new unique name.
 pub fn ensure_unique_name(name: &str, relative_to: &[String]) -> String {
-    fn extract_numerical_suffix(s: &str) -> Option<usize> {
-        let mut numerics: String = String::new();
-        let mut ptr:      usize  = s.len() - 1;
-        
-        loop {
-            let char: char = s.get(ptr..(ptr + 1)).unwrap().chars().collect::<Vec<_>>()[0];
-            if !char.is_numeric() {
-                break;
-            }
-            numerics = char.to_string() + &numerics;
-            
-            if ptr == 0 {
-                break;
-            }
-            ptr -= 1;
-        }
-
-        if numerics.is_empty() {
-            return None;
-        }
-        Some(numerics.parse::<usize>().unwrap())
-    }
-
+    
     // Special Case:
-    // If the 'relative_to' array is empty, then return the name.
-    if relative_to.is_empty() {
+    // If the name is already unique, then return the name.
+    if !relative_to.iter().any(|set_name| set_name == name) {
         return name.to_string();
     }
 
     // Strip the name bare of any numerical suffix.
-    let given_value:         Option<usize> = extract_numerical_suffix(name);
-    let name_without_suffix: String        = match given_value {
-        Some(number) => name.split_at(name.find(&format!("{}", number)).unwrap()).0.to_string(),
-        None         => name.to_string()
-    };
-    
-    // Search for any similar names that have the same beginning but different suffixes.
-    let mut similar_names: Vec<String> = Vec::new();
-    for set_name in relative_to {
-        let idx_found: Option<usize> = set_name.find(&name_without_suffix);
-        
-        if let Some(idx) = idx_found {
-            if idx != 0 {   // We do not include similar names when the pattern does not start at the beginning of the string.
-                continue;
-            }
-            similar_names.push(set_name.to_string());
+    // Leading zeroes (or anything that is too large to count up from) are seen as a part of the name.
+    let mut name_without_suffix: &str  = name.trim_end_matches(|char: char| char.is_ascii_digit());
+    let mut new_value:           usize = 0;
+
+    while name_without_suffix.len() < name.len() {
+        let suffix: &str = &name[name_without_suffix.len()..];
+        match suffix.parse::<usize>() {
+            Ok(value) if value < usize::MAX / 2 && (suffix.len() == 1 || !suffix.starts_with('0')) => {
+                new_value = value;
+                break;
+            },
+            _ => name_without_suffix = &name[..(name_without_suffix.len() + 1)]
         }
     }
 
-    if similar_names.is_empty() {
-        return name.to_string();
-    }
-
-    // Order all of the names with a numerical suffix.
-    // If this name does not have a numerical suffix, then give it the lowest possible numerical
-    // suffix.
-    // Otherwise, give it the closest numerical suffix to the one it currently has (counting
-    // upwards).
-    let mut new_value: usize      = given_value.unwrap_or(0);
-    let     values:    Vec<usize> = similar_names.iter().map(|n| extract_numerical_suffix(n).unwrap_or(0)).collect(); // If there are no numerical suffixes on similar names,
-    loop { // I dunno why I programmed this as a loop but I'll keep it this way until I figure out why I did so.
-        for value in values {
-            if new_value == value {
-                new_value += 1;
-                continue;
-            }
+    // Give it the closest numerical suffix to the one it currently has (counting upwards).
+    loop {
+        new_value += 1;
+        
+        let new_name: String = format!("{name_without_suffix}{new_value}");
+        if !relative_to.contains(&new_name) {
+            return new_name;
         }
-        break;
     }
-    
-    let new_suffix: String = format!("{}", new_value);
-    name_without_suffix.to_string() + &new_suffix
 }
 
 /// Takes in a NodeTree and prints out a graphical representation with a node as the origin.
-- 
2.43.0


From 8d5f284888bcf5484e1ea787131385e7206fa79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 06/30] fix: let a signal's listeners connect to, disconnect
 from, and emit that same signal

---
 node_tree_core/src/structs/signals.rs | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/node_tree_core/src/structs/signals.rs b/node_tree_core/src/structs/signals.rs
index 17e5f42..c099a92 100644
--- a/node_tree_core/src/structs/signals.rs
+++ b/node_tree_core/src/structs/signals.rs
@@ -128,23 +128,26 @@ impl <T> Signal<T> {
     
     /// Emits the signal, calling all connected hooks.
     pub fn emit<E: Element<T>>(&self, parameters: E) {
-        let mut hooks:           MutexGuard<EventHandler<T>> = self.hooks.lock().unwrap();
-        let mut removed_signals: Vec<RID>                    = Vec::with_capacity(hooks.len());
-        let     parameters:      &T                          = parameters.as_inner();
+        let hooks:      MutableArc<EventHandler<T>> = self.hooks.clone();
+        let rids:       Vec<RID>                    = hooks.lock().unwrap().iter_enumerated().map(|(&rid, _)| rid).collect();
+        let parameters: &T                          = parameters.as_inner();
+
+        for rid in rids {
+
+            // The hooks must not be locked while one is called, as it may connect, disconnect, or emit on
+            // this signal as well. This also means that the connection could already be gone.
+            let hook: *mut dyn FnMut(&T) = {
+                let mut hooks: MutexGuard<EventHandler<T>> = hooks.lock().unwrap();
+                match hooks.retrieve(rid).copied() {
+                    Some((hook, ConnectionType::UntilDisconnected)) => hook,
+                    Some((hook, ConnectionType::Once))              => { hooks.take(rid); hook },
+                    None                                            => continue
+                }
+            };
 
-        for (&rid, &(hook, mode)) in hooks.iter_enumerated() {
             unsafe {
                 (*hook)(parameters);
             }
-
-            match mode {
-                ConnectionType::UntilDisconnected => (),
-                ConnectionType::Once              => removed_signals.push(rid)
-            }
-        }
-
-        for idx in removed_signals.into_iter().rev() {
-            hooks.take(idx);
         }
     }
 
-- 
2.43.0


From 57c3d36750b43f294e1c427356aff527a658de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:17 +0000
Subject: [PATCH 07/30] fix: give every node of a saved scene a distinct RID,
 with zero for the root

---
 node_tree_core/src/structs/node_scene.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 869a6db..0712cf6 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -207,6 +207,7 @@ impl NodeScene {
         let mut document: toml::DocumentMut = toml::DocumentMut::new();
 
         // Go through each node and serialize it:
+        unsafe { (&mut *self.this).set_rid(0) };
         self.update_internal(0);
         self.clone().iterate(|parent, node, is_owner| {
             let node:   &dyn Node         = unsafe { &*node };
@@ -312,8 +313,9 @@ impl NodeScene {
     }
 
     /// Updates the internal RIDs.
+    /// Returns the last RID that was given to a node.
     #[inline]
-    pub fn update_internal(&self, mut counter: u64) {
+    pub fn update_internal(&self, mut counter: u64) -> u64 {
         for child in &self.children {
 
             // Update the counter and set it as this child's rid
@@ -321,8 +323,9 @@ impl NodeScene {
             unsafe { (&mut *child.this).set_rid(counter) };
 
             // Recursively traverse the child's children
-            child.update_internal(counter);
+            counter = child.update_internal(counter);
         }
+        counter
     }
 }
 
-- 
2.43.0


From 23f5b5d1db815dd08a1e2873ed102ff0049d096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:37 +0000
Subject: [PATCH 08/30] fix: load scenes with underscores in their node names

---
 node_tree_core/src/structs/node_scene.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 0712cf6..c1d60bb 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -105,7 +105,7 @@ impl NodeScene {
                 }).collect();
 
             let mut node: Box<dyn Node> = node_registry::deserialize(&type_name, node_fields.ok_or("Could not parse node fields".to_string())?)?;
-            let (name, local_rid): (&str, RID) = key.split_once('_')
+            let (name, local_rid): (&str, RID) = key.rsplit_once('_') // The name itself may also contain underscores.
                 .map(|(name, local_rid)| local_rid.parse().map(|local_rid| (name, local_rid)).map_err(|err| format!("{err}")))
                 .ok_or("Failed to parse Node key".to_string())??;
             
-- 
2.43.0


From f58c7835d4b9c9ceeec1809f7d692ea28d919ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:58 +0000
Subject: [PATCH 09/30] fix: keep a loaded scene's root marked as loaded, along
 with its ownership

---
 node_tree_core/src/structs/node_scene.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index c1d60bb..3ac7f19 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -171,7 +171,13 @@ impl NodeScene {
                         None => return Err("Child was declared ahead of parent in the .scn file".to_string())
                     }
                 },
-                None => node_scene = Some(NodeScene::new_dyn(node))
+                None => {
+                    let mut new_scene: NodeScene = NodeScene::new_dyn(node);
+                            new_scene.from_disk  = true;
+                            new_scene.is_owner   = is_owner;
+
+                    node_scene = Some(new_scene);
+                }
             }
         }
 
@@ -362,8 +368,6 @@ impl hash::Hash for NodeScene {
 
 impl Instanceable for NodeScene {
     fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
-        iterator(None, self.this, self.is_owner);
-
         // Recursive function to traverse the tree
         fn traverse<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(
             node:     NodeScene,
@@ -395,6 +399,7 @@ impl Instanceable for NodeScene {
                 self_mut.mark_as_loaded();
             }
         }
+        iterator(None, self_this, self.is_owner);
         traverse(self, self_this, &mut iterator);
     }
 }
-- 
2.43.0


From ee3bf5caaefe6be3f119c5272bec8acb5d678b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 10/30] fix: only call ready() once the whole added scene is
 attached, skipping nodes that are gone by then

---
 node_tree_core/src/structs/node_base.rs      | 30 ++++++++++----------
 node_tree_core/src/structs/node_tree_base.rs | 19 ++++++++++---
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 4b752a1..51e8360 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -203,18 +203,26 @@ impl NodeBase {
     /// # Panics
     /// Panics if this Node is not connected to a `NodeTree`.
     pub fn add_child<I: Instanceable>(&mut self, child: I) {
+        if self.tree.is_none() {
+            panic!("Cannot add a child to a node that is not in a `NodeTree`!");
+        }
+        let mut added: Vec<RID> = Vec::new();
+
         child.iterate(|parent, node, is_owner| {
             if let Some(parent) = parent {
                 unsafe {
                     let parent: &mut dyn Node = &mut *parent;
-                    parent.add_child_from_ptr(node, is_owner, false);
+                    added.push(parent.add_child_from_ptr(node, is_owner, true));
                 }
             } else {
                 unsafe {
-                    self.add_child_from_ptr(node, is_owner, false);
+                    added.push(self.add_child_from_ptr(node, is_owner, true));
                 }
             }
         });
+
+        // Only now that all of the nodes are added, can they be made ready.
+        self.tree_mut().unwrap().ready_nodes(added);
     }
 
     /// Adds a child to the node via a passed in pointer, automatically renaming it if its
@@ -268,23 +276,15 @@ impl NodeBase {
         };
         self.children.push(child_rid);
         
+        // Print the debug information on the child to the console.
+        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
+        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
+
         // Call the `ready()` function for the child as long as the call to ready() is not ignored
         // or circumvented..
         if !ignore_ready {
-            unsafe {
-                let child: &mut dyn Node = self.tree_mut().unwrap_unchecked().get_node_mut(child_rid).unwrap_unchecked();
-                if child.has_just_loaded() {
-                    child.loaded();
-                    child.mark_as_final();
-                }
-                child.ready();
-
-            }
+            self.tree_mut().unwrap().ready_nodes(vec![child_rid]);
         }
-        
-        // Print the debug information on the child to the console.
-        let child: &dyn Node = unsafe { self.tree().unwrap_unchecked().get_node(child_rid).unwrap_unchecked() };
-        self.post(Log::Debug(&format!("Node \"{}\" added to the scene as the child of \"{}\"! Unique ID of \"{}\" generated!", child.name(), self.name(), child.rid)));
         child_rid
     }
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 592ab6d..d97eb5d 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -234,16 +234,27 @@ impl NodeTreeBase {
             }
         });
 
-        // Go through the initialization history backwards and run each node's `ready()` function.
+        self.ready_nodes(initialization_history);
+    }
+
+    /// Goes through the history of the nodes that were just added backwards, and runs each node's
+    /// `ready()` function.
+    pub(crate) fn ready_nodes(&mut self, initialization_history: Vec<RID>) {
         for rid in initialization_history.into_iter().rev() {
-            let node: &mut dyn Node = unsafe { self.get_node_mut(rid).unwrap_unchecked() };
+
+            // A node may have been removed by the `ready()` function of another one.
+            let Some(node) = self.get_node_mut(rid) else { continue };
             if node.has_just_loaded() {
-                node.loaded();
                 unsafe {
                     node.mark_as_final();
                 }
+                node.loaded();
+            }
+
+            // The same applies to a node's own `loaded()` function.
+            if let Some(node) = self.get_node_mut(rid) {
+                node.ready();
             }
-            node.ready();
         }
     }
 
-- 
2.43.0


From da9cc9e081d633aefde63edad085cfdbd7a8e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 11/30] fix: log failures of pointers and results whose owner
 was removed, and panic when the freed root is accessed

---
 node_tree_core/src/structs/logger.rs         |  2 +-
 node_tree_core/src/structs/node_tree_base.rs | 20 +++++++++++++++++---
 node_tree_core/src/structs/tree_option.rs    |  2 +-
 node_tree_core/src/structs/tree_pointer.rs   |  4 ++--
 node_tree_core/src/structs/tree_result.rs    |  2 +-
 node_tree_core/src/utils/functions.rs        |  3 ++-
 6 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index e4db6c3..0d8e175 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -203,7 +203,7 @@ impl Logger {
             match node_tree.get_node_identity(calling) {
                 Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
-                None                                 => unimplemented!()
+                None                                 => SystemCall::Named(format!("Removed Node {calling}"))
             }
         };
 
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index d97eb5d..ed8f061 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -164,7 +164,7 @@ pub struct NodeTreeBase {
 impl NodeTreeBase {
 
     /// The RID for the root node.
-    const ROOT_RID: RID = 0;
+    pub(crate) const ROOT_RID: RID = 0;
 
     /// Creates an empty `NodeTreeBase`, ready for initialization.
     unsafe fn new(logger_verbosity: LoggerVerbosity) -> Self {
@@ -311,16 +311,22 @@ impl NodeTreeBase {
     }
 
     /// Gets a reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the root node was freed.
     pub fn root(&self) -> &dyn Node {
         unsafe {
-            &**self.nodes.retrieve(Self::ROOT_RID).unwrap_unchecked()
+            &**self.nodes.retrieve(Self::ROOT_RID).expect("The root node was freed!")
         }
     }
     
     /// Gets a mutable reference to the Root node.
+    ///
+    /// # Panics
+    /// Panics if the root node was freed.
     pub fn root_mut(&mut self) -> &mut dyn Node {
         unsafe {
-            &mut **self.nodes.modify(Self::ROOT_RID).unwrap_unchecked()
+            &mut **self.nodes.modify(Self::ROOT_RID).expect("The root node was freed!")
         }
     }
 
@@ -595,6 +601,14 @@ impl NodeTreeBase {
         }
     }
 
+    /// Posts a new message to the log for a node that could have already been removed.
+    pub(crate) fn post_for(&mut self, calling: RID, log: Log) {
+        match self.get_node(calling) {
+            Some(node) => node.post(log),
+            None       => self.post(calling, log)
+        }
+    }
+
     /// Gets the current log as a string.
     pub fn get_log(&self) -> &str {
         self.logger.to_str()
diff --git a/node_tree_core/src/structs/tree_option.rs b/node_tree_core/src/structs/tree_option.rs
index c2123dd..1408189 100644
--- a/node_tree_core/src/structs/tree_option.rs
+++ b/node_tree_core/src/structs/tree_option.rs
@@ -484,7 +484,7 @@ impl <'a, T> TreeOption<'a, T> {
 
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(msg));
+        unsafe { &mut *self.tree }.post_for(self.owner, Log::Panic(msg));
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 22cff30..843a65c 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -248,7 +248,7 @@ impl <'a, T: Node> Tp<'a, T> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err:?}")));
+        unsafe { &mut *self.tree }.post_for(self.owner, Log::Panic(&format!("{err:?}")));
         println!("\n[RUST TRACE]");
         panic!();
     }
@@ -462,7 +462,7 @@ impl <'a> TpDyn<'a> {
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     #[inline]
     fn fail(&self, err: TPError) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{err}")));
+        unsafe { &mut *self.tree }.post_for(self.owner, Log::Panic(&format!("{err}")));
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/structs/tree_result.rs b/node_tree_core/src/structs/tree_result.rs
index cad7c69..9793850 100644
--- a/node_tree_core/src/structs/tree_result.rs
+++ b/node_tree_core/src/structs/tree_result.rs
@@ -435,7 +435,7 @@ impl <'a, T, E> TreeResult<'a, T, E> {
     
     /// Marks a failed operation with a panic on the log, and panics the main thread.
     fn fail(&self, msg: &str, error: &dyn fmt::Debug) -> ! {
-        unsafe { (*self.tree).get_node(self.owner).unwrap_unchecked() }.post(Log::Panic(&format!("{msg}: {error:?}")));
+        unsafe { &mut *self.tree }.post_for(self.owner, Log::Panic(&format!("{msg}: {error:?}")));
         println!("\n[RUST TRACE]");
         panic!();
     }
diff --git a/node_tree_core/src/utils/functions.rs b/node_tree_core/src/utils/functions.rs
index ae361f4..ce382fd 100644
--- a/node_tree_core/src/utils/functions.rs
+++ b/node_tree_core/src/utils/functions.rs
@@ -76,7 +76,8 @@ pub fn draw_tree(node_tree: &NodeTreeBase, origin: RID, view_up: usize, view_dow
         get_start(tree, unsafe { tree.get_node(node.parent_dyn().unwrap_unchecked().rid()).unwrap_unchecked() }, view_left - 1)
     }
 
-    let origin:    &dyn Node = node_tree.get_node(origin).unwrap();
+    // If the origin was removed, then fall back to the root.
+    let Some(origin) = node_tree.get_node(origin).or(node_tree.get_node(NodeTreeBase::ROOT_RID)) else { return String::new() };
     let draw_from: &dyn Node = get_start(node_tree, origin, view_up);
     let levels:    usize     = view_up + view_down;
     
-- 
2.43.0


From 3f2896aa888d3b918b833b78ad1bd960714211c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 12/30] fix: resolve no absolute path once the root node was
 freed

---
 node_tree_core/src/structs/node_path.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 62607c1..0334bfd 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -46,7 +46,7 @@
 use std::fmt;
 use std::collections::VecDeque;
 
-use crate::traits::node_getter::NodeGetter;
+use crate::traits::{ node::Node, node_getter::NodeGetter };
 use super::{ node_tree_base::NodeTreeBase, rid::RID };
 
 
@@ -210,11 +210,12 @@ impl NodeGetter for NodePath {
             return tree.get_node(caller?)?.get_node_raw(self.clone());
         }
         
-        let mut absolute_path: NodePath = self.clone();
-        if Some(tree.root().name()) != absolute_path.pop_front_as_string().as_deref() {
+        let mut absolute_path: NodePath  = self.clone();
+        let     root:          &dyn Node = tree.get_node(NodeTreeBase::ROOT_RID)?; // The root may have been freed.
+        if Some(root.name()) != absolute_path.pop_front_as_string().as_deref() {
             return None;
         }
-        tree.root().get_node_raw(absolute_path)
+        root.get_node_raw(absolute_path)
     }
 }
 
-- 
2.43.0


From 150de3045a5b445a179815ccf9c3decc3a59178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 13/30] fix: add the documented pause() and unpause() functions
 to the tree

---
 node_tree_core/src/structs/node_tree_base.rs | 22 ++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index ed8f061..84a932e 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -406,6 +406,28 @@ impl NodeTreeBase {
         }
     }
 
+    /// Pauses the tree, so that only nodes with a process mode of `Always` or `Inverse` are processed.
+    /// # Note
+    /// This takes effect immediately, even while a frame is being processed.
+    pub fn pause(&mut self) {
+        self.set_process(TreeProcess::Paused);
+    }
+
+    /// Unpauses the tree, so that only nodes with a process mode of `Always` or `Pausable` are processed.
+    /// # Note
+    /// This takes effect immediately, even while a frame is being processed.
+    pub fn unpause(&mut self) {
+        self.set_process(TreeProcess::Running);
+    }
+
+    /// Sets whether the tree is running or paused, if it has yet to terminate.
+    fn set_process(&mut self, new_process: TreeProcess) {
+        match &mut self.status {
+            TreeStatus::Process(process) | TreeStatus::QueuedTermination(process) => *process = new_process,
+            TreeStatus::Terminating | TreeStatus::Terminated                      => ()
+        }
+    }
+
     /// Immediately terminates the program without running any termination behaviours.
     pub fn terminate(&mut self) {
         self.status = TreeStatus::Terminated;
-- 
2.43.0


From 94c83121a799ebfe2365778a50f0ca113bd866e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 14/30] fix: reject saved integers which do not fit in the
 field's type

---
 node_tree_core/src/traits/exportable.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3349f65..3535860 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -120,7 +120,7 @@ impl Exportable for u8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u8),
+            toml::Value::Integer(i) => u8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -132,7 +132,7 @@ impl Exportable for u16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u16),
+            toml::Value::Integer(i) => u16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -144,7 +144,7 @@ impl Exportable for u32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as u32),
+            toml::Value::Integer(i) => u32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -168,7 +168,7 @@ impl Exportable for i8 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i8),
+            toml::Value::Integer(i) => i8::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -180,7 +180,7 @@ impl Exportable for i16 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i16),
+            toml::Value::Integer(i) => i16::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
@@ -192,7 +192,7 @@ impl Exportable for i32 {
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
         match value {
-            toml::Value::Integer(i) => Some(i.into_value() as i32),
+            toml::Value::Integer(i) => i32::try_from(i.into_value()).ok(),
             _                       => None
         }
     }
-- 
2.43.0


From a83b604ad39b9dcc4e200a2f579757d68ef2dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 15/30] fix: load characters that take up more than a byte

---
 node_tree_core/src/traits/exportable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index 3535860..dda96a5 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -243,7 +243,7 @@ impl Exportable for char {
         match value {
             toml::Value::String(c) => {
                 let c: String = c.into_value();
-                if c.len() != 1 {
+                if c.chars().count() != 1 {
                     None
                 } else {
                     Some(c.chars().collect::<Vec<_>>()[0])
@@ -392,7 +392,7 @@ impl <V: Exportable> Exportable for HashMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
@@ -445,7 +445,7 @@ impl <V: Exportable> Exportable for BTreeMap<char, V> {
         match value {
             toml::Value::InlineTable(table) => {
                 table.into_iter().map(|(key, value)| {
-                    if key.len() != 1 {
+                    if key.chars().count() != 1 {
                         None
                     } else {
                         match V::from_value(value) {
-- 
2.43.0


From 556718737209025e02a5e4965d756976c169ef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 16/30] fix: load arrays of types that cannot be zeroed

---
 node_tree_core/src/traits/exportable.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index dda96a5..d6c9173 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -528,11 +528,8 @@ impl <const N: usize, T: Exportable> Exportable for [T; N] {
                     return None;
                 }
 
-                let mut rtr_arr: [T; N] = unsafe { mem::zeroed() };
-                for (i, element) in arr.into_iter().enumerate() {
-                    rtr_arr[i] = T::from_value(element)?;
-                }
-                Some(rtr_arr)
+                let elements: Vec<T> = arr.into_iter().map(|x| T::from_value(x)).collect::<Option<Vec<T>>>()?;
+                elements.try_into().ok()
             },
             _ => None
         }
-- 
2.43.0


From fd46babbc50851dbded32a62fc216f3753ffd3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:26 +0000
Subject: [PATCH 17/30] fix: reject saved durations which are negative or not
 finite

---
 node_tree_core/src/traits/exportable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/traits/exportable.rs b/node_tree_core/src/traits/exportable.rs
index d6c9173..8348587 100644
--- a/node_tree_core/src/traits/exportable.rs
+++ b/node_tree_core/src/traits/exportable.rs
@@ -318,7 +318,7 @@ impl Exportable for time::Duration {
     }
 
     fn from_value(value: toml::Value) -> Option<Self> where Self: Sized {
-        Some(time::Duration::from_secs_f64(value.as_float()?))
+        time::Duration::try_from_secs_f64(value.as_float()?).ok()
     }
 }
 impl Exportable for toml::Datetime {
-- 
2.43.0


From dcab7ee44c859186fac519e8ebc0f8e4b2e8afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:52 +0000
Subject: [PATCH 18/30] fix: reject saved glam integers which do not fit in
 their vector

---
 node_tree_core/src/traits/glam_exportables.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/node_tree_core/src/traits/glam_exportables.rs b/node_tree_core/src/traits/glam_exportables.rs
index 639f68f..d0fdda4 100644
--- a/node_tree_core/src/traits/glam_exportables.rs
+++ b/node_tree_core/src/traits/glam_exportables.rs
@@ -70,7 +70,7 @@ impl Exportable for g_u8::U8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec2(x.as_integer()? as u8, y.as_integer()? as u8));
+                        return Some(g_u8::u8vec2(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -87,7 +87,7 @@ impl Exportable for g_u8::U8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec3(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8));
+                        return Some(g_u8::u8vec3(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?, u8::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -104,7 +104,7 @@ impl Exportable for g_u8::U8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u8::u8vec4(x.as_integer()? as u8, y.as_integer()? as u8, z.as_integer()? as u8, w.as_integer()? as u8));
+                        return Some(g_u8::u8vec4(u8::try_from(x.as_integer()?).ok()?, u8::try_from(y.as_integer()?).ok()?, u8::try_from(z.as_integer()?).ok()?, u8::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -122,7 +122,7 @@ impl Exportable for g_u16::U16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec2(x.as_integer()? as u16, y.as_integer()? as u16));
+                        return Some(g_u16::u16vec2(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -139,7 +139,7 @@ impl Exportable for g_u16::U16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec3(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16));
+                        return Some(g_u16::u16vec3(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?, u16::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -156,7 +156,7 @@ impl Exportable for g_u16::U16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u16::u16vec4(x.as_integer()? as u16, y.as_integer()? as u16, z.as_integer()? as u16, w.as_integer()? as u16));
+                        return Some(g_u16::u16vec4(u16::try_from(x.as_integer()?).ok()?, u16::try_from(y.as_integer()?).ok()?, u16::try_from(z.as_integer()?).ok()?, u16::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -174,7 +174,7 @@ impl Exportable for g_u32::UVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec2(x.as_integer()? as u32, y.as_integer()? as u32));
+                        return Some(g_u32::uvec2(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -191,7 +191,7 @@ impl Exportable for g_u32::UVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec3(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32));
+                        return Some(g_u32::uvec3(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?, u32::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -208,7 +208,7 @@ impl Exportable for g_u32::UVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_u32::uvec4(x.as_integer()? as u32, y.as_integer()? as u32, z.as_integer()? as u32, w.as_integer()? as u32));
+                        return Some(g_u32::uvec4(u32::try_from(x.as_integer()?).ok()?, u32::try_from(y.as_integer()?).ok()?, u32::try_from(z.as_integer()?).ok()?, u32::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -278,7 +278,7 @@ impl Exportable for g_i8::I8Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec2(x.as_integer()? as i8, y.as_integer()? as i8));
+                        return Some(g_i8::i8vec2(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -295,7 +295,7 @@ impl Exportable for g_i8::I8Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec3(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8));
+                        return Some(g_i8::i8vec3(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?, i8::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -312,7 +312,7 @@ impl Exportable for g_i8::I8Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i8::i8vec4(x.as_integer()? as i8, y.as_integer()? as i8, z.as_integer()? as i8, w.as_integer()? as i8));
+                        return Some(g_i8::i8vec4(i8::try_from(x.as_integer()?).ok()?, i8::try_from(y.as_integer()?).ok()?, i8::try_from(z.as_integer()?).ok()?, i8::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -330,7 +330,7 @@ impl Exportable for g_i16::I16Vec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec2(x.as_integer()? as i16, y.as_integer()? as i16));
+                        return Some(g_i16::i16vec2(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -347,7 +347,7 @@ impl Exportable for g_i16::I16Vec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec3(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16));
+                        return Some(g_i16::i16vec3(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?, i16::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -364,7 +364,7 @@ impl Exportable for g_i16::I16Vec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i16::i16vec4(x.as_integer()? as i16, y.as_integer()? as i16, z.as_integer()? as i16, w.as_integer()? as i16));
+                        return Some(g_i16::i16vec4(i16::try_from(x.as_integer()?).ok()?, i16::try_from(y.as_integer()?).ok()?, i16::try_from(z.as_integer()?).ok()?, i16::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
@@ -382,7 +382,7 @@ impl Exportable for g_i32::IVec2 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec2(x.as_integer()? as i32, y.as_integer()? as i32));
+                        return Some(g_i32::ivec2(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?));
                     }
                     None
             },
@@ -399,7 +399,7 @@ impl Exportable for g_i32::IVec3 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec3(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32));
+                        return Some(g_i32::ivec3(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?, i32::try_from(z.as_integer()?).ok()?));
                     }
                     None
             },
@@ -416,7 +416,7 @@ impl Exportable for g_i32::IVec4 {
         match value {
             toml::Value::Array(arr) => {
                     if let [x, y, z, w] = arr.into_iter().collect::<Vec<_>>().as_slice() {
-                        return Some(g_i32::ivec4(x.as_integer()? as i32, y.as_integer()? as i32, z.as_integer()? as i32, w.as_integer()? as i32));
+                        return Some(g_i32::ivec4(i32::try_from(x.as_integer()?).ok()?, i32::try_from(y.as_integer()?).ok()?, i32::try_from(z.as_integer()?).ok()?, i32::try_from(w.as_integer()?).ok()?));
                     }
                     None
             },
-- 
2.43.0


From 309fcf665b0961fc102e593a8377345a9279a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 19/30] fix: keep absolute node paths absolute, and let empty
 ones be converted to a string

---
 node_tree_core/src/structs/logger.rs    | 2 +-
 node_tree_core/src/structs/node_base.rs | 2 +-
 node_tree_core/src/structs/node_path.rs | 9 +++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index 0d8e175..f9aeffd 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -201,7 +201,7 @@ impl Logger {
         let node_tree: &NodeTreeBase = unsafe { &*node_tree };
         let system:    SystemCall    = {
             match node_tree.get_node_identity(calling) {
-                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string()),
+                Some(NodeIdentity::NodePath)         => SystemCall::NodePath(unsafe { node_tree.get_node(calling).unwrap_unchecked() }.get_absolute_path().to_string().trim_start_matches('/').to_string()),
                 Some(NodeIdentity::UniqueName(name)) => SystemCall::Named(name),
                 None                                 => SystemCall::Named(format!("Removed Node {calling}"))
             }
diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 51e8360..6391274 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -523,7 +523,7 @@ impl NodeBase {
     pub fn get_absolute_path(&self) -> NodePath {
         let mut path: String = String::new();
         self.get_absolute_path_tail(&mut path);
-        NodePath::from_str(&path)
+        NodePath::from_str(&("/".to_string() + &path))
     }
 
     /// The recursive tail for the `get_absolute_path` function.
diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index 0334bfd..a1f7485 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -163,12 +163,17 @@ impl NodePath {
     }
 
     /// Converts the path to a string, consuming it.
+    /// Absolute paths will have a leading slash.
     pub fn to_string(mut self) -> String {
-        let mut out: String = String::new();
+        let mut out: String = if self.abs { "/".to_string() } else { String::new() };
         while let Some(segment) = self.pop_front() {
             out += &(segment.to_string() + "/");
         }
-        out.get(0..(out.len() - 1)).unwrap().to_string()
+
+        if out.len() > 1 {
+            out.pop();
+        }
+        out
     }
 
     /// Adds a node to the back of the path.
-- 
2.43.0


From 86a0e1a43e2fa116195f12a29d197a15d77efa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 20/30] fix: have TpDyn::is_of() test the node instead of the
 pointer

---
 node_tree_core/src/structs/tree_pointer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/node_tree_core/src/structs/tree_pointer.rs b/node_tree_core/src/structs/tree_pointer.rs
index 843a65c..e357288 100644
--- a/node_tree_core/src/structs/tree_pointer.rs
+++ b/node_tree_core/src/structs/tree_pointer.rs
@@ -385,10 +385,10 @@ impl <'a> TpDyn<'a> {
     /// Checks if the node this points to can be cast to a specific trait.
     #[inline]
     pub fn is_of<T: ?Sized + 'static>(&self) -> bool {
-        use std::mem;
-
-        let node: TpDyn = unsafe { mem::transmute(*self) };
-        <TpDyn as CastRef>::impls::<T>(&node)
+        match unsafe { &*self.tree }.get_node_raw(self.node).map(|n| unsafe { &*n }) {
+            Some(node) => <dyn Node as CastRef>::cast::<T>(node).is_some(),
+            None       => false
+        }
     }
 
     /// Determines if this pointer references a specific type.
-- 
2.43.0


From f3cd7b7296c80e8d4d112219d1a54931b85ed420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 21/30] fix: save scenes atomically and durably, never damaging
 the previous save

---
 node_tree_core/src/structs/node_scene.rs | 33 +++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 3ac7f19..9369f7a 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -23,7 +23,7 @@
 //! as the easy initialization of them via the `scene!` macro!
 //! 
 
-use std::io::{ Read, Write };
+use std::io::{ self, Read, Write };
 use std::path::Path;
 use std::fs;
 use std::path::PathBuf;
@@ -255,8 +255,35 @@ impl NodeScene {
         
         let buffer: String = self.save_to_str()?;
 
-        let mut file: fs::File = fs::File::create(full_name).map_err(|err| format!("{err}"))?;
-                file.write_all(buffer.as_bytes()).map_err(|err| format!("{err}"))?;
+        // Write to a temporary file first which then takes the place of the original,
+        // so that a failure midway can never damage a previously saved scene.
+        let mut temp_name: PathBuf = path.to_owned();
+                temp_name.push(Path::new(&format!("{name}.scn.tmp")));
+
+        Self::write_durably(&temp_name, &full_name, buffer.as_bytes()).map_err(|err| {
+            let _ = fs::remove_file(&temp_name);
+            format!("{err}")
+        })
+    }
+
+    /// Writes the contents to a temporary file, which is then renamed once it has reached the disk.
+    fn write_durably(temp_name: &Path, full_name: &Path, contents: &[u8]) -> io::Result<()> {
+        let mut file: fs::File = fs::File::create(temp_name)?;
+                file.write_all(contents)?;
+                file.sync_all()?;
+        drop(file);
+
+        fs::rename(temp_name, full_name)?;
+
+        // The rename is only durable once the directory is.
+        #[cfg(unix)]
+        {
+            let directory: &Path = match full_name.parent() {
+                Some(parent) if !parent.as_os_str().is_empty() => parent,
+                _                                              => Path::new(".")
+            };
+            fs::File::open(directory)?.sync_all()?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 911b37fc262b8a7f2eaf34336612d102a5d6a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 22/30] fix: end the crash report in the log with a line break

---
 node_tree_core/src/structs/logger.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/logger.rs b/node_tree_core/src/structs/logger.rs
index f9aeffd..31749f6 100644
--- a/node_tree_core/src/structs/logger.rs
+++ b/node_tree_core/src/structs/logger.rs
@@ -229,7 +229,8 @@ Exit Code: {}
 Time of Crash: {}
 Exit Code: {}
 
-{}", self.crash_header, node_tree_visual, time, 1, self.crash_footer);
+{}
+", self.crash_header, node_tree_visual, time, 1, self.crash_footer);
         }
         
         panic
-- 
2.43.0


From bcabcd85fcd421e19f59cbd064d34f6f9d0a5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 23/30] fix: have empty node paths stay relative when converted
 to a string and back

---
 node_tree_core/src/structs/node_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_core/src/structs/node_path.rs b/node_tree_core/src/structs/node_path.rs
index a1f7485..71487f5 100644
--- a/node_tree_core/src/structs/node_path.rs
+++ b/node_tree_core/src/structs/node_path.rs
@@ -148,7 +148,7 @@ impl NodePath {
     /// ```
     pub fn from_str(str: &str) -> NodePath {
         let mut path: VecDeque<PathSeg> = str.split('/').map(PathSeg::parse).collect();
-        let     abs:  bool              = path.front().map(|f| f.is_empty_identifier()).unwrap_or(false);
+        let     abs:  bool              = str.starts_with('/');
         
         if abs {
             path.pop_front();
-- 
2.43.0


From 7b86808a8e923ab34ff7a46e8cc91c7d6a69648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 24/30] fix: let destructors of removed nodes remove further
 nodes

---
 node_tree_core/src/structs/node_tree_base.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index 84a932e..c8c266b 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -264,9 +264,9 @@ impl NodeTreeBase {
     pub fn process(&mut self) -> TreeStatus {
 
         // Now that no node that was removed before this frame could still be running its code,
-        // destroy them all.
+        // destroy them all. Their destructors may remove other nodes in turn.
         if self.frames == 0 {
-            self.removed.clear();
+            drop(std::mem::take(&mut self.removed));
         }
 
         // Return early if the tree is no longer active.
-- 
2.43.0


From fa4791db82ec731f28e5c46d27808413e3f45198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 25/30] fix: keep the original of a scene when cloning one of
 its nodes panics

---
 node_tree_core/src/structs/node_scene.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/node_tree_core/src/structs/node_scene.rs b/node_tree_core/src/structs/node_scene.rs
index 9369f7a..74dc56a 100644
--- a/node_tree_core/src/structs/node_scene.rs
+++ b/node_tree_core/src/structs/node_scene.rs
@@ -365,14 +365,13 @@ impl NodeScene {
 impl Clone for NodeScene {
     fn clone(&self) -> Self {
         let cloned_node = unsafe {
-            let     node_original: Box<dyn Node> = Box::from_raw(self.this);
+            let     node_original: &dyn Node     = &*self.this; // Never owned, as cloning it may panic.
             let mut node_new:      Box<dyn Node> = node_original.clone_as_instance();
             
             node_new.set_rid(node_original.rid());
             node_new.set_name(node_original.name());
 
-            let _ = Box::into_raw(node_original); // Convert the box back so that its instance isn't deallocated when dropped.
-                    Box::into_raw(node_new)
+            Box::into_raw(node_new)
         };
 
         // Recursively clone children
-- 
2.43.0


From 187e903291f39db1f5700b10a8c03c9f43e1ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 26/30] fix: links and expressions in scene! no longer refer to
 its own variables

---
 node_tree_derive/src/generator.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 9db5477..310d19d 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -1,5 +1,5 @@
 use quote::quote;
-use proc_macro2::TokenStream as TokenStream2;
+use proc_macro2::{ Span, TokenStream as TokenStream2 };
 
 use crate::parser::*;
 
@@ -22,11 +22,16 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
                 Some(p) => quote! { (#p) },
                 None    => quote! { () },
             };
+
+            // These are hygienic, so that they cannot shadow what the given links and expressions refer to.
+            let node_var:  syn::Ident = syn::Ident::new("node",  Span::mixed_site());
+            let scene_var: syn::Ident = syn::Ident::new("scene", Span::mixed_site());
+
             let name_set: TokenStream2 = match name {
                 None       => quote! {},
                 Some(name) => quote! {
                     unsafe {
-                        node.set_name_unchecked(#name);
+                        #node_var.set_name_unchecked(#name);
                     }
                 }
             };
@@ -34,22 +39,22 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    node.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node_var.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
             quote! {
                 {
-                    let mut node: #node_type = #node_type::new #params;
+                    let mut #node_var: #node_type = #node_type::new #params;
                     #name_set
 
                     #(#settings)*
                                         
-                    let mut scene: NodeScene = NodeScene::new(node);
+                    let mut #scene_var: NodeScene = NodeScene::new(#node_var);
                     #(
-                        scene.append(#children);
+                        #scene_var.append(#children);
                     )*
-                    scene
+                    #scene_var
                 }
             }
         }
-- 
2.43.0


From bd7e7b90995c205132b8b0b4a9c1a69a73a3ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 27/30] fix: settings in scene! may be any expression

---
 node_tree_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/generator.rs b/node_tree_derive/src/generator.rs
index 310d19d..2f53ed2 100644
--- a/node_tree_derive/src/generator.rs
+++ b/node_tree_derive/src/generator.rs
@@ -39,7 +39,7 @@ pub fn generate_node(node: &SceneNode) -> TokenStream2 {
 
             let settings = settings.iter().map(|(key, expr)| {
                 quote! {
-                    #node_var.#key = #expr.wrap(); // All field types support wrap() via the `AsElement` trait.
+                    #node_var.#key = (#expr).wrap(); // All field types support wrap() via the `AsElement` trait.
                 }
             });
 
-- 
2.43.0


From 78016e59a2a9c73c87ceb733f14be1096c6af00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 28/30] fix: default fields may be of generic types

---
 node_tree_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_tree_derive/src/lib.rs b/node_tree_derive/src/lib.rs
index ae9a03f..eadd89c 100644
--- a/node_tree_derive/src/lib.rs
+++ b/node_tree_derive/src/lib.rs
@@ -539,7 +539,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::ExportDefault => quote! {
-                #name: node_tree::structs::node_field::ExportableField::new(#ty::default())
+                #name: node_tree::structs::node_field::ExportableField::new(<#ty>::default())
             }, 
             FieldKind::Unique => if let Some(default_value) = &field.init {
                 quote! {
@@ -551,7 +551,7 @@ pub fn class(input: TokenStream) -> TokenStream {
                 }
             },
             FieldKind::Default => quote! {
-                #name: node_tree::structs::node_field::DefaultField::new(#ty::default())
+                #name: node_tree::structs::node_field::DefaultField::new(<#ty>::default())
             }
         }
     });
-- 
2.43.0


From 0d3c7cc0cab5c7632efe7d45db51ff7c84c263b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 29/30] fix: an initial value of an export default field is
 rejected, instead of being ignored

---
 node_tree_derive/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_tree_derive/src/parser.rs b/node_tree_derive/src/parser.rs
index 8cdaa5d..5cc392f 100644
--- a/node_tree_derive/src/parser.rs
+++ b/node_tree_derive/src/parser.rs
@@ -369,7 +369,7 @@ impl Parse for Class {
                 };
 
                 if let Some(ref default_value) = default_value {
-                    if item_kind == FieldKind::Default {
+                    if item_kind == FieldKind::Default || item_kind == FieldKind::ExportDefault {
                         return Err(syn::Error::new_spanned(default_value, "A field with the attribute `default` cannot have an initialized value"));
                     }
                 }
-- 
2.43.0


From e1ad597784ad17e44eaeb5a42f74fff202ee76f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 30/30] fix: never assume that a tree and its nodes are not
 accessed through each other

A node's functions reach the tree, and the tree reaches its nodes, while either
is mutably borrowed. Optimised builds took the mutable borrows to be exclusive,
and looped forever or used freed memory when a node was added or removed then.
---
 node_tree_core/src/structs/node_base.rs      | 10 ++++++----
 node_tree_core/src/structs/node_tree_base.rs |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/node_tree_core/src/structs/node_base.rs b/node_tree_core/src/structs/node_base.rs
index 6391274..1394d7a 100644
--- a/node_tree_core/src/structs/node_base.rs
+++ b/node_tree_core/src/structs/node_base.rs
@@ -25,7 +25,7 @@
 //! Every `Node` type must contain a `base: Rc<NodeBase>` field for this reason.
 //!
 
-use std::{ rc::Rc, sync::Mutex };
+use std::{ marker::PhantomPinned, rc::Rc, sync::Mutex };
 
 use thiserror::Error;
 
@@ -105,8 +105,9 @@ pub struct NodeBase {
     children: Vec<RID>,
     status:   Rc<Mutex<NodeStatus>>,
     loaded:   bool,
-    exiting:  bool,   // Whether the Node's `terminal()` function has already been called.
-    depth:    usize   // How far the Node is within the tree.
+    exiting:  bool,         // Whether the Node's `terminal()` function has already been called.
+    depth:    usize,        // How far the Node is within the tree.
+    _pinned:  PhantomPinned // Nodes are also accessed through the tree while they are mutably borrowed.
 }
 
 impl NodeBase {
@@ -123,7 +124,8 @@ impl NodeBase {
             status:   Rc::new(Mutex::new(NodeStatus::Normal)),
             loaded:   false,
             exiting:  false,
-            depth:    0
+            depth:    0,
+            _pinned:  PhantomPinned
         }
     }
     
diff --git a/node_tree_core/src/structs/node_tree_base.rs b/node_tree_core/src/structs/node_tree_base.rs
index c8c266b..3de8cda 100644
--- a/node_tree_core/src/structs/node_tree_base.rs
+++ b/node_tree_core/src/structs/node_tree_base.rs
@@ -45,6 +45,7 @@
 //! ```
 
 use std::collections::{HashMap, HashSet};
+use std::marker::PhantomPinned;
 use std::time::{ Duration, Instant };
 
 use crate::traits::{ node::Node, node_tree::NodeTree, node_getter::NodeGetter, instanceable::Instanceable };
@@ -157,8 +158,9 @@ pub struct NodeTreeBase {
     singletons: HashMap<String, RID>,
     status:     TreeStatus,
     last_frame: Instant,
-    frames:     usize,             // The number of `process()` calls that are currently running.
-    removed:    Vec<Box<dyn Node>> // Removed nodes are kept until the next frame, as their code may still be running.
+    frames:     usize,              // The number of `process()` calls that are currently running.
+    removed:    Vec<Box<dyn Node>>, // Removed nodes are kept until the next frame, as their code may still be running.
+    _pinned:    PhantomPinned       // The tree is also accessed through its nodes while it is mutably borrowed.
 }
 
 impl NodeTreeBase {
@@ -181,7 +183,8 @@ impl NodeTreeBase {
             status:     TreeStatus::Process(TreeProcess::Running),
             last_frame: Instant::now(),
             frames:     0,
-            removed:    Vec::new()
+            removed:    Vec::new(),
+            _pinned:    PhantomPinned
         };
         
         node_tree
-- 
2.43.0

