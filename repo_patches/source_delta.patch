From 01032c99cd1933605f0ebbb57bcc9694a002842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 01/70] fix: keep dependency edges of values read by an
 evaluation in progress

A computed created and dropped inside the function of another computed took its
edges with it, so the outer one never noticed later changes. A computed losing
its last client while another client was just reading it, lost its edges to its
parents, so the new client was never refreshed. Removing edges is now postponed
until the outermost evaluation is finished, and dependents of a dropped node
take over its parents.
---
 .../src/computed/dependencies/graph.rs        | 63 ++++++++++---
 .../dependencies/graph_connections.rs         | 92 ++++++++++++++++---
 crates/vertigo/src/computed/graph_value.rs    |  9 +-
 3 files changed, 136 insertions(+), 28 deletions(-)

diff --git a/crates/vertigo/src/computed/dependencies/graph.rs b/crates/vertigo/src/computed/dependencies/graph.rs
index b965b39..fb7856a 100644
--- a/crates/vertigo/src/computed/dependencies/graph.rs
+++ b/crates/vertigo/src/computed/dependencies/graph.rs
@@ -2,13 +2,24 @@ use super::external_connections::ExternalConnections;
 use super::graph_connections::GraphConnections;
 use super::refresh::Refresh;
 use crate::computed::graph_id::{GraphId, GraphIdKind};
+use crate::struct_mut::ValueMut;
 use crate::Context;
-use std::collections::BTreeSet;
+use std::collections::{BTreeMap, BTreeSet};
+
+/// Removing edges is postponed until the outermost evaluation is finished. A node which at the moment
+/// has no clients, may have just been read by a client whose evaluation is still in progress.
+#[derive(Default)]
+struct Evaluation {
+    level: u32,
+    // Parents of the nodes evaluated in the meantime, `None` - node has been dropped
+    parents: BTreeMap<GraphId, Option<BTreeSet<GraphId>>>,
+}
 
 pub struct Graph {
     pub(crate) refresh: Refresh,
     pub(crate) connections: GraphConnections,
     pub(crate) external_connections: ExternalConnections,
+    evaluation: ValueMut<Evaluation>,
 }
 
 impl Graph {
@@ -20,27 +31,55 @@ impl Graph {
             refresh,
             connections: GraphConnections::new(),
             external_connections,
+            evaluation: ValueMut::new(Evaluation::default()),
         }
     }
 
     pub(crate) fn remove_client(&self, client_id: GraphId) {
-        self.set_parent_for_client(client_id, BTreeSet::new());
+        let postponed = self.evaluation.change(|state| {
+            if state.level > 0 {
+                state.parents.insert(client_id, None);
+            }
+            state.level > 0
+        });
+
+        if !postponed {
+            self.set_parents(BTreeMap::from([(client_id, None)]));
+        }
+    }
+
+    pub(crate) fn evaluation_start(&self) {
+        self.evaluation.change(|state| state.level += 1);
     }
 
     pub(crate) fn push_context(&self, client_id: GraphId, context: Context) {
-        let parents = context.get_parents();
-        self.set_parent_for_client(client_id, parents);
+        let parents_list = context.get_parents();
+
+        let parents = self.evaluation.change(|state| {
+            state.level -= 1;
+            state.parents.insert(client_id, Some(parents_list.clone()));
+
+            match state.level {
+                0 => Some(std::mem::take(&mut state.parents)),
+                _ => None,
+            }
+        });
+
+        match parents {
+            Some(parents) => self.set_parents(parents),
+            None => {
+                let edge_list = self.connections.add_parents(client_id, parents_list);
+                self.update_active(edge_list);
+            }
+        }
     }
 
-    pub(crate) fn set_parent_for_client(
-        &self,
-        client_id: GraphId,
-        parents_list: BTreeSet<GraphId>,
-    ) {
-        let edge_list = self
-            .connections
-            .set_parent_for_client(client_id, parents_list);
+    fn set_parents(&self, parents: BTreeMap<GraphId, Option<BTreeSet<GraphId>>>) {
+        let edge_list = self.connections.set_parents(parents);
+        self.update_active(edge_list);
+    }
 
+    fn update_active(&self, edge_list: BTreeMap<GraphId, bool>) {
         for (id, active) in edge_list {
             match id.get_type() {
                 GraphIdKind::Value => {
diff --git a/crates/vertigo/src/computed/dependencies/graph_connections.rs b/crates/vertigo/src/computed/dependencies/graph_connections.rs
index 5322ceb..682b43e 100644
--- a/crates/vertigo/src/computed/dependencies/graph_connections.rs
+++ b/crates/vertigo/src/computed/dependencies/graph_connections.rs
@@ -112,15 +112,8 @@ impl GraphConnectionsInner {
         result
     }
 
-    fn set_parent_for_client(
-        &mut self,
-        client_id: GraphId,
-        new_parents: BTreeSet<GraphId>,
-    ) -> BTreeMap<GraphId, bool> {
+    fn exec_commands(&mut self, mut commands: Vec<UpdateConnection>) -> BTreeMap<GraphId, bool> {
         let mut nodes_for_refresh: BTreeSet<GraphId> = BTreeSet::new();
-        nodes_for_refresh.insert(client_id);
-
-        let mut commands = self.get_update_commands(client_id, new_parents);
 
         loop {
             for command in commands.iter() {
@@ -135,6 +128,76 @@ impl GraphConnectionsInner {
         }
     }
 
+    fn add_parents(
+        &mut self,
+        client_id: GraphId,
+        parents: BTreeSet<GraphId>,
+    ) -> BTreeMap<GraphId, bool> {
+        let commands = parents
+            .into_iter()
+            .map(|parent| UpdateConnection::Add {
+                parent,
+                client: client_id,
+            })
+            .collect();
+
+        self.exec_commands(commands)
+    }
+
+    fn set_parents(
+        &mut self,
+        parents: BTreeMap<GraphId, Option<BTreeSet<GraphId>>>,
+    ) -> BTreeMap<GraphId, bool> {
+        let mut edge_on = Vec::new();
+        let mut edge_off = Vec::new();
+        let mut dropped = Vec::new();
+
+        for (client_id, new_parents) in parents {
+            match new_parents {
+                Some(new_parents) => {
+                    for command in self.get_update_commands(client_id, new_parents) {
+                        match command {
+                            UpdateConnection::Add { .. } => edge_on.push(command),
+                            UpdateConnection::Remove { .. } => edge_off.push(command),
+                        }
+                    }
+                }
+                None => dropped.push(client_id),
+            }
+        }
+
+        let mut result = self.exec_commands(edge_on);
+        result.extend(self.exec_commands(edge_off));
+
+        // Nodes which depend on a dropped one, depend from now on directly on what it depended on.
+        for id in dropped {
+            let parents: Vec<GraphId> = self.client_parent.get_relation(id).collect();
+            let clients: Vec<GraphId> = self.parent_client.get_relation(id).collect();
+
+            let mut edge_on = Vec::new();
+            let mut edge_off = Vec::new();
+
+            for parent in parents {
+                for client in clients.iter() {
+                    edge_on.push(UpdateConnection::Add {
+                        parent,
+                        client: *client,
+                    });
+                }
+                edge_off.push(UpdateConnection::Remove { parent, client: id });
+            }
+            for client in clients {
+                edge_off.push(UpdateConnection::Remove { parent: id, client });
+            }
+
+            result.extend(self.exec_commands(edge_on));
+            result.extend(self.exec_commands(edge_off));
+        }
+
+        let nodes = result.into_keys().collect();
+        self.get_info_about_active(nodes)
+    }
+
     pub(crate) fn get_all_deps(&self, id: GraphId) -> BTreeSet<GraphId> {
         let mut result = BTreeSet::new();
         let mut to_traverse: Vec<GraphId> = vec![id];
@@ -190,13 +253,20 @@ impl GraphConnections {
         }
     }
 
-    pub(crate) fn set_parent_for_client(
+    pub(crate) fn add_parents(
         &self,
         client_id: GraphId,
-        parents_list: BTreeSet<GraphId>,
+        parents: BTreeSet<GraphId>,
     ) -> BTreeMap<GraphId, bool> {
         self.inner
-            .change(move |state| state.set_parent_for_client(client_id, parents_list))
+            .change(move |state| state.add_parents(client_id, parents))
+    }
+
+    pub(crate) fn set_parents(
+        &self,
+        parents: BTreeMap<GraphId, Option<BTreeSet<GraphId>>>,
+    ) -> BTreeMap<GraphId, bool> {
+        self.inner.change(move |state| state.set_parents(parents))
     }
 
     pub(crate) fn get_all_deps(&self, id: GraphId) -> BTreeSet<GraphId> {
diff --git a/crates/vertigo/src/computed/graph_value.rs b/crates/vertigo/src/computed/graph_value.rs
index c366d22..c4c4fe5 100644
--- a/crates/vertigo/src/computed/graph_value.rs
+++ b/crates/vertigo/src/computed/graph_value.rs
@@ -50,13 +50,12 @@ impl<T: Clone + 'static> GraphValue<T> {
     }
 
     fn calculate_new_value(&self) -> T {
+        let graph = &get_driver().inner.dependencies.graph;
+
         let context = Context::new();
+        graph.evaluation_start();
         let new_value = (self.get_value)(&context);
-        get_driver()
-            .inner
-            .dependencies
-            .graph
-            .push_context(self.id, context);
+        graph.push_context(self.id, context);
 
         self.state.set(Some(new_value.clone()));
 
-- 
2.43.0


From 8c9055b62422a90f80ca2ec82644f8a72fd40940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 02/70] fix: keep the order of fragments that contain values,
 lists or fragments

The nodes of a fragment were inserted last to first, each before the next one. The content of a
marker stands before the marker itself, so whatever preceded a marker ended up between its content
and the marker.
---
 crates/vertigo/src/dom/dom_comment.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_comment.rs b/crates/vertigo/src/dom/dom_comment.rs
index 4a785c6..ec3cafe 100644
--- a/crates/vertigo/src/dom/dom_comment.rs
+++ b/crates/vertigo/src/dom/dom_comment.rs
@@ -69,20 +69,17 @@ impl DomComment {
         self.subscriptions.push(client);
     }
 
-    pub fn dom_fragment(mut list: Vec<DomNode>) -> DomComment {
-        list.reverse();
-
+    pub fn dom_fragment(list: Vec<DomNode>) -> DomComment {
         Self::new_marker("list dom node", move |parent_id, comment_id| {
-            let mut prev_node = comment_id;
             let driver = get_driver();
 
+            // The content of a marker (value, list, fragment) is placed before the marker itself,
+            // so the only safe reference for the next node is the comment of this fragment.
             for node in list.iter() {
-                let node_id = node.id_dom();
                 driver
                     .inner
                     .dom
-                    .insert_before(parent_id, node_id, Some(prev_node));
-                prev_node = node_id;
+                    .insert_before(parent_id, node.id_dom(), Some(comment_id));
             }
 
             None
-- 
2.43.0


From 31fb06336098653b224821331ec04c9e58d37512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 03/70] fix: keep the order of list items that are values,
 lists or fragments

List items were placed last to first, each before the next one, but the content of an item that is
a marker stands before the marker, so neighbours ended up inside such items.
---
 crates/vertigo/src/render/dom_list.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo/src/render/dom_list.rs b/crates/vertigo/src/render/dom_list.rs
index 9cf5f05..ffd56c7 100644
--- a/crates/vertigo/src/render/dom_list.rs
+++ b/crates/vertigo/src/render/dom_list.rs
@@ -78,7 +78,7 @@ pub fn render_list<T: PartialEq + Clone + 'static, K: Eq + Hash>(
     .into()
 }
 
-fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
+fn reorder_nodes<T: PartialEq + Clone, K: Eq + Hash>(
     parent_id: DomId,
     comment_id: DomId,
     mut real_child: VecDeque<(T, DomNode)>,
@@ -89,6 +89,15 @@ fn reorder_nodes<T: PartialEq, K: Eq + Hash>(
     let pairs_top = get_pairs_top(&mut real_child, &mut new_child);
     let mut pairs_bottom = get_pairs_bottom(&mut real_child, &mut new_child);
 
+    // The content of a marker (value, list, fragment) is placed before the marker itself,
+    // so nothing can be inserted in front of a marker that stays in its place. Move it as well.
+    while matches!(pairs_bottom.front(), Some((_, DomNode::Comment { .. }))) {
+        if let Some((id, node)) = pairs_bottom.pop_front() {
+            real_child.push_back((id.clone(), node));
+            new_child.push_back(id);
+        }
+    }
+
     let last_before: DomId = find_first_dom(&pairs_bottom).unwrap_or(comment_id);
     let mut pairs_middle = get_pairs_middle(
         parent_id,
@@ -198,18 +207,15 @@ fn get_pairs_middle<T: PartialEq, K: Eq + Hash>(
     }
 
     let driver = get_driver();
-    let mut last_before = last_before;
 
-    for item in new_child.into_iter().rev() {
+    for item in new_child {
         let node = real_node.get_or_create(&item);
-        let node_id = node.id_dom();
-        pairs_middle.push_front((item, node));
 
         driver
             .inner
             .dom
-            .insert_before(parent_id, node_id, Some(last_before));
-        last_before = node_id;
+            .insert_before(parent_id, node.id_dom(), Some(last_before));
+        pairs_middle.push_back((item, node));
     }
 
     pairs_middle
-- 
2.43.0


From 3c1353e35ff5ebe1ca84dc7a8ecad2cd759e0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 04/70] fix: leave links with a scheme other than http(s) to
 the browser

A click on a mailto:, tel: or similar link was suppressed and turned into a history change, which throws.
---
 crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts | 3 ++-
 crates/vertigo/src/driver_module/wasm_run.js                   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
index 2701150..a825049 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
@@ -116,7 +116,8 @@ export class DriverDom {
                     return;
                 }
 
-                if (href.startsWith('#') || href.startsWith('http://') || href.startsWith('https://') || href.startsWith('//')) {
+                // an anchor or an address with a scheme (http:, mailto:, tel:, ...) is left to the browser
+                if (href.startsWith('#') || href.startsWith('//') || /^[a-z][a-z0-9+.-]*:/i.test(href)) {
                     return;
                 }
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 923f1a6..0297125 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("http://")||t.startsWith("https://")||t.startsWith("//")||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 813070015073ce7c8da36d24f7d85baf1ab6195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 05/70] fix: ignore focus requests for nodes removed in the
 meantime

An element with autofocus that left the page before the timer fired made the runtime throw, and the
other elements of the batch were not focused.
---
 .../src/driver_module/src_js/api_browser/dom/dom.ts       | 8 ++++++--
 crates/vertigo/src/driver_module/wasm_run.js              | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
index a825049..e6a4d60 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/dom/dom.ts
@@ -463,8 +463,12 @@ export class DriverDom {
         if (setFocus.size > 0) {
             setTimeout(() => {
                 for (const id of setFocus) {
-                    const node = this.nodes.get_node_element(`set focus ${id}`, id);
-                    node.focus();
+                    const node = this.nodes.get_any_option(id);
+
+                    // the node may have been removed in the meantime
+                    if (node instanceof HTMLElement) {
+                        node.focus();
+                    }
                 }
             }, 0);
         }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 0297125..f383581 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){this.nodes.get_node_element(`set focus ${e}`,e).focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From b088a2a1e904af67365134b321dde8293fe70207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 06/70] fix: read back JSON cookies that hold plain values

---
 .../vertigo/src/driver_module/api/api_import.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 13ebd9b..abbf899 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -131,12 +131,19 @@ impl ApiImport {
                 .call("get_json", vec![JsValue::str(cname)])
                 .fetch();
 
-            if result != JsValue::Null {
-                if let JsValue::Json(value) = result {
-                    return value;
+            return match result {
+                JsValue::Json(value) => value,
+                JsValue::Null => JsJson::Null,
+                JsValue::True => JsJson::True,
+                JsValue::False => JsJson::False,
+                JsValue::String(value) => JsJson::String(value),
+                JsValue::I32(value) => JsJson::Number(value as f64),
+                JsValue::F64(value) => JsJson::Number(value),
+                result => {
+                    log::error!("cookie_get_json -> params decode error -> result={result:?}");
+                    JsJson::Null
                 }
-                log::error!("cookie_get_json -> params decode error -> result={result:?}");
-            }
+            };
         }
         JsJson::Null
     }
-- 
2.43.0


From 41a83f30a8fcf6d0851a08badbb257c779e566d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 07/70] fix: answer truncated messages with an error instead of
 a panic

---
 .../driver_module/js_value/js_json_struct.rs  |  12 +-
 .../driver_module/js_value/js_value_struct.rs |  22 ++--
 .../js_value/memory_block_read.rs             | 116 ++++++------------
 3 files changed, 52 insertions(+), 98 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 745e643..10a659b 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -253,7 +253,7 @@ fn write_string_to(value: &str, buff: &mut MemoryBlockWrite) {
 }
 
 pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, String> {
-    let type_param = buffer.get_byte();
+    let type_param = buffer.get_byte()?;
 
     let Some(type_param) = JsJsonConst::from_byte(type_param) else {
         return Err(format!("JsJson: Unknown data type prefix {type_param}"));
@@ -264,18 +264,18 @@ pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, Stri
         JsJsonConst::False => JsJson::False,
         JsJsonConst::Null => JsJson::Null,
         JsJsonConst::String => {
-            let str_len = buffer.get_u32();
+            let str_len = buffer.get_u32()?;
             let param = buffer.get_string(str_len)?;
             JsJson::String(param)
         }
         JsJsonConst::Number => {
-            let value = buffer.get_f64();
+            let value = buffer.get_f64()?;
             JsJson::Number(value)
         }
         JsJsonConst::List => {
             let mut param_list = Vec::new();
 
-            let list_size = buffer.get_u32();
+            let list_size = buffer.get_u32()?;
 
             for _ in 0..list_size {
                 let param = decode_js_json_inner(buffer)?;
@@ -286,10 +286,10 @@ pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, Stri
         }
         JsJsonConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16();
+            let object_size = buffer.get_u16()?;
 
             for _ in 0..object_size {
-                let str_len = buffer.get_u32();
+                let str_len = buffer.get_u32()?;
                 let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_json_inner(buffer)?;
diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index a9af77e..ea08deb 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -275,7 +275,7 @@ fn write_string_to(value: &str, buff: &mut MemoryBlockWrite) {
 }
 
 fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String> {
-    let type_param = buffer.get_byte();
+    let type_param = buffer.get_byte()?;
 
     let Some(type_param) = JsValueConst::from_byte(type_param) else {
         return Err(format!("JsValue: Unknown data type prefix {type_param}"));
@@ -283,23 +283,23 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
 
     let result = match type_param {
         JsValueConst::U32 => {
-            let value = buffer.get_u32();
+            let value = buffer.get_u32()?;
             JsValue::U32(value)
         }
         JsValueConst::I32 => {
-            let value = buffer.get_i32();
+            let value = buffer.get_i32()?;
             JsValue::I32(value)
         }
         JsValueConst::U64 => {
-            let value = buffer.get_u64();
+            let value = buffer.get_u64()?;
             JsValue::U64(value)
         }
         JsValueConst::I64 => {
-            let value = buffer.get_i64();
+            let value = buffer.get_i64()?;
             JsValue::I64(value)
         }
         JsValueConst::F64 => {
-            let value = buffer.get_f64();
+            let value = buffer.get_f64()?;
             JsValue::F64(value)
         }
         JsValueConst::True => JsValue::True,
@@ -307,19 +307,19 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
         JsValueConst::Null => JsValue::Null,
         JsValueConst::Undefined => JsValue::Undefined,
         JsValueConst::Vec => {
-            let len = buffer.get_u32();
-            let param = buffer.get_vec(len);
+            let len = buffer.get_u32()?;
+            let param = buffer.get_vec(len)?;
             JsValue::Vec(param)
         }
         JsValueConst::String => {
-            let str_len = buffer.get_u32();
+            let str_len = buffer.get_u32()?;
             let param = buffer.get_string(str_len)?;
             JsValue::String(param)
         }
         JsValueConst::List => {
             let mut param_list = Vec::new();
 
-            let list_size = buffer.get_u32();
+            let list_size = buffer.get_u32()?;
 
             for _ in 0..list_size {
                 let param = decode_js_value_inner(buffer)?;
@@ -330,7 +330,7 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
         }
         JsValueConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16();
+            let object_size = buffer.get_u16()?;
 
             for _ in 0..object_size {
                 let prop_name = decode_js_value_inner(buffer)?;
diff --git a/crates/vertigo/src/driver_module/js_value/memory_block_read.rs b/crates/vertigo/src/driver_module/js_value/memory_block_read.rs
index 98864d2..ed32a87 100644
--- a/crates/vertigo/src/driver_module/js_value/memory_block_read.rs
+++ b/crates/vertigo/src/driver_module/js_value/memory_block_read.rs
@@ -28,106 +28,60 @@ impl MemoryBlockRead {
         log::info!("MemoryBlockRead DEBUG REST = {:02X?}", rest);
     }
 
-    pub fn get_byte(&mut self) -> u8 {
-        let result = self.block[self.offset as usize];
-        self.offset += 1;
-        result
-    }
+    fn take(&mut self, len: u32) -> Result<&[u8], String> {
+        let from = self.offset as usize;
 
-    pub fn get_u16(&mut self) -> u16 {
-        let bytes: [u8; 2] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-        ];
+        let Some(slice) = self.block.get(from..).and_then(|rest| rest.get(..len as usize)) else {
+            return Err(format!(
+                "Unexpected end of data size={} offset={from} expected={len}",
+                self.block.len()
+            ));
+        };
 
-        self.offset += 2;
-        u16::from_be_bytes(bytes)
+        self.offset += len;
+        Ok(slice)
     }
 
-    pub fn get_u32(&mut self) -> u32 {
-        let bytes: [u8; 4] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-        ];
+    fn take_array<const N: usize>(&mut self) -> Result<[u8; N], String> {
+        let mut bytes = [0; N];
+        bytes.copy_from_slice(self.take(N as u32)?);
+        Ok(bytes)
+    }
 
-        self.offset += 4;
-        u32::from_be_bytes(bytes)
+    pub fn get_byte(&mut self) -> Result<u8, String> {
+        self.take_array().map(u8::from_be_bytes)
     }
 
-    pub fn get_i32(&mut self) -> i32 {
-        let bytes: [u8; 4] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-        ];
+    pub fn get_u16(&mut self) -> Result<u16, String> {
+        self.take_array().map(u16::from_be_bytes)
+    }
 
-        self.offset += 4;
-        i32::from_be_bytes(bytes)
+    pub fn get_u32(&mut self) -> Result<u32, String> {
+        self.take_array().map(u32::from_be_bytes)
     }
 
-    pub fn get_u64(&mut self) -> u64 {
-        let bytes: [u8; 8] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-            self.block[self.offset as usize + 4],
-            self.block[self.offset as usize + 5],
-            self.block[self.offset as usize + 6],
-            self.block[self.offset as usize + 7],
-        ];
-
-        self.offset += 8;
-        u64::from_be_bytes(bytes)
+    pub fn get_i32(&mut self) -> Result<i32, String> {
+        self.take_array().map(i32::from_be_bytes)
     }
 
-    pub fn get_f64(&mut self) -> f64 {
-        let bytes: [u8; 8] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-            self.block[self.offset as usize + 4],
-            self.block[self.offset as usize + 5],
-            self.block[self.offset as usize + 6],
-            self.block[self.offset as usize + 7],
-        ];
-
-        self.offset += 8;
-        f64::from_be_bytes(bytes)
+    pub fn get_u64(&mut self) -> Result<u64, String> {
+        self.take_array().map(u64::from_be_bytes)
     }
 
-    pub fn get_i64(&mut self) -> i64 {
-        let bytes: [u8; 8] = [
-            self.block[self.offset as usize],
-            self.block[self.offset as usize + 1],
-            self.block[self.offset as usize + 2],
-            self.block[self.offset as usize + 3],
-            self.block[self.offset as usize + 4],
-            self.block[self.offset as usize + 5],
-            self.block[self.offset as usize + 6],
-            self.block[self.offset as usize + 7],
-        ];
-
-        self.offset += 8;
-        i64::from_be_bytes(bytes)
+    pub fn get_f64(&mut self) -> Result<f64, String> {
+        self.take_array().map(f64::from_be_bytes)
+    }
+
+    pub fn get_i64(&mut self) -> Result<i64, String> {
+        self.take_array().map(i64::from_be_bytes)
     }
 
     pub fn get_string(&mut self, len: u32) -> Result<String, String> {
-        let vec = self.get_vec(len);
+        let vec = self.get_vec(len)?;
         String::from_utf8(vec).map_err(|_| String::from("String decoding error"))
     }
 
-    pub fn get_vec(&mut self, len: u32) -> Vec<u8> {
-        let from = self.offset as usize;
-        let to = (self.offset + len) as usize;
-        let slice = &self.block[from..to];
-
-        self.offset += len;
-
-        slice.to_vec()
+    pub fn get_vec(&mut self, len: u32) -> Result<Vec<u8>, String> {
+        self.take(len).map(|slice| slice.to_vec())
     }
 }
-- 
2.43.0


From f47d7b32cf2199e43e11f5fc4cd5297eb1c11ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 08/70] fix: decode object values the way they are encoded

---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index ea08deb..8419868 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -333,10 +333,8 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
             let object_size = buffer.get_u16()?;
 
             for _ in 0..object_size {
-                let prop_name = decode_js_value_inner(buffer)?;
-                let JsValue::String(prop_name) = prop_name else {
-                    return Err("string expected".into());
-                };
+                let str_len = buffer.get_u32()?;
+                let prop_name = buffer.get_string(str_len)?;
 
                 let prop_value = decode_js_value_inner(buffer)?;
 
-- 
2.43.0


From 7d23aa401dbeb16027ec1f45567568e68495b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 09/70] fix: equal JSON objects hash equally

---
 crates/vertigo/src/driver_module/js_value/js_json_struct.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 10a659b..03c248e 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -113,7 +113,11 @@ impl Hash for JsJson {
             }
             Self::Object(map) => {
                 state.write_u8(JsJsonConst::Object.into());
-                for (name, value) in map {
+                // The order of iteration differs between equal maps
+                let mut items = map.iter().collect::<Vec<_>>();
+                items.sort_by(|(name1, _), (name2, _)| name1.cmp(name2));
+
+                for (name, value) in items {
                     name.hash(state);
                     value.hash(state);
                 }
-- 
2.43.0


From e1119fb0710ca239f02ce0f284e70c415c0607c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 10/70] fix: objects with more than 65535 properties

---
 crates/vertigo/src/driver_module/js_value/js_json_struct.rs | 6 +++---
 .../vertigo/src/driver_module/js_value/js_value_struct.rs   | 6 +++---
 crates/vertigo/src/driver_module/src_js/jsjson.ts           | 6 +++---
 crates/vertigo/src/driver_module/src_js/jsvalue.ts          | 6 +++---
 crates/vertigo/src/driver_module/wasm_run.js                | 2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
index 03c248e..35f7e07 100644
--- a/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_json_struct.rs
@@ -7,7 +7,7 @@ use super::{memory_block_read::MemoryBlockRead, memory_block_write::MemoryBlockW
 const PARAM_TYPE: u32 = 1;
 const STRING_SIZE: u32 = 4;
 const LIST_COUNT: u32 = 4;
-const OBJECT_COUNT: u32 = 2;
+const OBJECT_COUNT: u32 = 4;
 
 enum JsJsonConst {
     True = 1,
@@ -190,7 +190,7 @@ impl JsJson {
             }
             Self::Object(map) => {
                 buff.write_u8(JsJsonConst::Object);
-                buff.write_u16(map.len() as u16);
+                buff.write_u32(map.len() as u32);
 
                 for (key, value) in map {
                     write_string_to(key.as_str(), buff);
@@ -290,7 +290,7 @@ pub fn decode_js_json_inner(buffer: &mut MemoryBlockRead) -> Result<JsJson, Stri
         }
         JsJsonConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16()?;
+            let object_size = buffer.get_u32()?;
 
             for _ in 0..object_size {
                 let str_len = buffer.get_u32()?;
diff --git a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
index 8419868..d9f7e71 100644
--- a/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
+++ b/crates/vertigo/src/driver_module/js_value/js_value_struct.rs
@@ -12,7 +12,7 @@ const PARAM_TYPE: u32 = 1;
 const STRING_SIZE: u32 = 4;
 const VEC_SIZE: u32 = 4;
 const LIST_COUNT: u32 = 4;
-const OBJECT_COUNT: u32 = 2;
+const OBJECT_COUNT: u32 = 4;
 
 enum JsValueConst {
     U32 = 1,
@@ -206,7 +206,7 @@ impl JsValue {
             }
             Self::Object(map) => {
                 buff.write_u8(JsValueConst::Object);
-                buff.write_u16(map.len() as u16);
+                buff.write_u32(map.len() as u32);
 
                 for (key, value) in map {
                     write_string_to(key.as_str(), buff);
@@ -330,7 +330,7 @@ fn decode_js_value_inner(buffer: &mut MemoryBlockRead) -> Result<JsValue, String
         }
         JsValueConst::Object => {
             let mut props = HashMap::new();
-            let object_size = buffer.get_u16()?;
+            let object_size = buffer.get_u32()?;
 
             for _ in 0..object_size {
                 let str_len = buffer.get_u32()?;
diff --git a/crates/vertigo/src/driver_module/src_js/jsjson.ts b/crates/vertigo/src/driver_module/src_js/jsjson.ts
index 457c1e4..c5f61b9 100644
--- a/crates/vertigo/src/driver_module/src_js/jsjson.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsjson.ts
@@ -52,7 +52,7 @@ export const jsJsonGetSize = (value: JsJsonType): number => {
     }
 
     //object
-    let sum = 1 + 2;
+    let sum = 1 + 4;
 
     for (const [key, propertyValue] of Object.entries(value)) {
         sum += 4 + getStringSize(key);
@@ -100,7 +100,7 @@ export const jsJsonDecodeItem = (cursor: BufferCursor): JsJsonType => {
     //object
     const out: Record<string, JsJsonType> = {};
 
-    const listSize = cursor.getU16();
+    const listSize = cursor.getU32();
 
     for (let i=0; i<listSize; i++) {
         const key = cursor.getString();
@@ -158,7 +158,7 @@ export const saveJsJsonToBufferItem = (value: JsJsonType, cursor: BufferCursor)
     }
 
     cursor.setByte(JsJsonConst.Object);
-    cursor.setU16(list.length);
+    cursor.setU32(list.length);
 
     for (const [key, propertyValue] of list) {
         cursor.setString(key);
diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 552f640..90c7264 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -124,7 +124,7 @@ const jsValueDecodeItem = (cursor: BufferCursor): JsValueType => {
     if (typeParam === JsValueConst.Object) {
         const out: Record<string, JsValueType> = {};
 
-        const listSize = cursor.getU16();
+        const listSize = cursor.getU32();
 
         for (let i=0; i<listSize; i++) {
             const key = cursor.getString();
@@ -198,7 +198,7 @@ const getSize = (value: JsValueType): number => {
     }
 
     if (value.type === JsValueConst.Object) {
-        let sum = 1 + 2;
+        let sum = 1 + 4;
 
         for (const [key, propertyValue] of Object.entries(value.value)) {
             sum += 4 + getStringSize(key);
@@ -297,7 +297,7 @@ const saveToBufferItem = (value: JsValueType, cursor: BufferCursor) => {
         }
 
         cursor.setByte(JsValueConst.Object);
-        cursor.setU16(list.length);
+        cursor.setU32(list.length);
 
         for (const [key, propertyValue] of list) {
             cursor.setString(key);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index f383581..f1d8da4 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=3;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU16();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU16(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU16();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=3;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU16(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 8f59d79dca41f7516b383c711e365443921ad2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 11/70] fix: keep a byte order mark at the start of strings

---
 crates/vertigo/src/driver_module/src_js/buffer_cursor.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
index 0e03584..cecec55 100644
--- a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
+++ b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
@@ -1,6 +1,6 @@
 ///https://javascript.info/arraybuffer-binary-arrays#dataview
 
-const decoder = new TextDecoder("utf-8");
+const decoder = new TextDecoder("utf-8", { ignoreBOM: true });
 const encoder = new TextEncoder();
 
 export class BufferCursor {
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index f1d8da4..74d7981 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8"),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 241ec4d1f1836555073af0ef649e2fadfc32a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 12/70] fix: hand binary values to JavaScript as a copy

---
 crates/vertigo/src/driver_module/src_js/buffer_cursor.ts | 3 ++-
 crates/vertigo/src/driver_module/wasm_run.js             | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
index cecec55..442bfef 100644
--- a/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
+++ b/crates/vertigo/src/driver_module/src_js/buffer_cursor.ts
@@ -98,9 +98,10 @@ export class BufferCursor {
 
     public getBuffer(): Uint8Array {
         const size = this.getU32();
+        //A copy, because the memory of the message is reused as soon as it is processed
         const result = this
             .getUint8Memory()
-            .subarray(
+            .slice(
                 this.ptr + this.pointer,
                 this.ptr + this.pointer + size
             );
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 74d7981..6c9c425 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 5e0d9e72ab34e4651e25011d9e280e5f2153375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 13/70] fix: return big integers above the i64 range unchanged

---
 crates/vertigo/src/driver_module/src_js/jsvalue.ts | 8 ++++++++
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 90c7264..3eacc5d 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -436,6 +436,14 @@ export const convertToJsValue = (value: unknown): JsValueType => {
     }
 
     if (typeof value === 'bigint') {
+        if (value >= BigInt(2) ** BigInt(63)) {
+            // does not fit in i64
+            return {
+                type: JsValueConst.U64,
+                value
+            };
+        }
+
         return {
             type: JsValueConst.I64,
             value
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 6c9c425..f3caf9a 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 54262865768919d3c168a3395e76c23df8b12721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 14/70] fix: return arrays that are not JSON as lists

---
 .../src/driver_module/src_js/jsvalue.ts       | 24 +++++++++----------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 3eacc5d..242b6df 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -454,6 +454,18 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         return value;
     }
 
+    if (Array.isArray(value)) {
+        try {
+            const list = value.map(convertToJsJson);
+            return {
+                type: JsValueConst.Json,
+                value: list
+            };
+        } catch (_error) {
+            return value.map(convertToJsValue);
+        }
+    }
+
     if (typeof value === 'object') {
         try {
             const json = convertToJsJson(value);
@@ -476,18 +488,6 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         };
     }
 
-    if (Array.isArray(value)) {
-        try {
-            const list = value.map(convertToJsJson);
-            return {
-                type: JsValueConst.Json,
-                value: list
-            };
-        } catch (_error) {
-            return value.map(convertToJsValue);
-        }
-    }
-
     console.warn('convertToJsValue', value);
     throw Error('It is not possible to convert this data to JsValue');
 };
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index f3caf9a..2d41d84 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From aa5b67a81a2bcdb4c915f56a18997d88b3f92702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 15/70] fix: keep binary data inside returned lists and objects

---
 crates/vertigo/src/driver_module/src_js/jsvalue.ts | 2 +-
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 242b6df..11400a3 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -502,7 +502,7 @@ export const convertToJsJson = (value: unknown): JsJsonType => {
         return value.map(convertToJsJson);
     }
 
-    if (typeof value === 'object') {
+    if (typeof value === 'object' && !(value instanceof Uint8Array)) {
         const result: Record<string, JsJsonType> = {};
 
         for (const [propName, propValue] of Object.entries(value)) {
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 2d41d84..4177e57 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 9714a7ef90e3ff8935672bfa19635e343c1fd14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:06 +0000
Subject: [PATCH 16/70] fix: keep properties named __proto__ when converting
 objects

---
 .../src/driver_module/src_js/jsjson.ts        |  7 +++---
 .../src/driver_module/src_js/jsvalue.ts       | 24 +++++++++----------
 crates/vertigo/src/driver_module/wasm_run.js  |  2 +-
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/jsjson.ts b/crates/vertigo/src/driver_module/src_js/jsjson.ts
index c5f61b9..76a58dd 100644
--- a/crates/vertigo/src/driver_module/src_js/jsjson.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsjson.ts
@@ -98,17 +98,18 @@ export const jsJsonDecodeItem = (cursor: BufferCursor): JsJsonType => {
     }
 
     //object
-    const out: Record<string, JsJsonType> = {};
+    const out: Array<[string, JsJsonType]> = [];
 
     const listSize = cursor.getU32();
 
     for (let i=0; i<listSize; i++) {
         const key = cursor.getString();
         const value = jsJsonDecodeItem(cursor);
-        out[key] = value;
+        out.push([key, value]);
     }
 
-    return out;
+    //fromEntries also keeps a property named __proto__
+    return Object.fromEntries(out);
 }
 
 export const saveJsJsonToBufferItem = (value: JsJsonType, cursor: BufferCursor) => {
diff --git a/crates/vertigo/src/driver_module/src_js/jsvalue.ts b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
index 11400a3..5e7d41e 100644
--- a/crates/vertigo/src/driver_module/src_js/jsvalue.ts
+++ b/crates/vertigo/src/driver_module/src_js/jsvalue.ts
@@ -122,19 +122,19 @@ const jsValueDecodeItem = (cursor: BufferCursor): JsValueType => {
     }
 
     if (typeParam === JsValueConst.Object) {
-        const out: Record<string, JsValueType> = {};
+        const out: Array<[string, JsValueType]> = [];
 
         const listSize = cursor.getU32();
 
         for (let i=0; i<listSize; i++) {
             const key = cursor.getString();
             const value = jsValueDecodeItem(cursor);
-            out[key] = value;
+            out.push([key, value]);
         }
 
         return {
             type: JsValueConst.Object,
-            value: out
+            value: Object.fromEntries(out)
         };
     }
 
@@ -386,13 +386,13 @@ export const convertFromJsValue = (value: JsValueType): unknown => {
     }
 
     if (value.type === JsValueConst.Object) {
-        const result: Record<string, unknown> = {};
+        const result: Array<[string, unknown]> = [];
 
         for (const [key, propertyValue] of Object.entries(value.value)) {
-            result[key] = convertFromJsValue(propertyValue);
+            result.push([key, convertFromJsValue(propertyValue)]);
         }
 
-        return result;
+        return Object.fromEntries(result);
     }
 
     if (value.type === JsValueConst.Json) {
@@ -476,15 +476,15 @@ export const convertToJsValue = (value: unknown): JsValueType => {
         } catch (_error) {
         }
 
-        const result: Record<string, JsValueType> = {};
+        const result: Array<[string, JsValueType]> = [];
 
         for (const [propName, propValue] of Object.entries(value)) {
-            result[propName] = convertToJsValue(propValue);
+            result.push([propName, convertToJsValue(propValue)]);
         }
 
         return {
             type: JsValueConst.Object,
-            value: result
+            value: Object.fromEntries(result)
         };
     }
 
@@ -503,13 +503,13 @@ export const convertToJsJson = (value: unknown): JsJsonType => {
     }
 
     if (typeof value === 'object' && !(value instanceof Uint8Array)) {
-        const result: Record<string, JsJsonType> = {};
+        const result: Array<[string, JsJsonType]> = [];
 
         for (const [propName, propValue] of Object.entries(value)) {
-            result[propName] = convertToJsJson(propValue);
+            result.push([propName, convertToJsJson(propValue)]);
         }
 
-        return result;
+        return Object.fromEntries(result);
     }
 
     console.warn('convertToJsJson', value);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 4177e57..18f253b 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r={},s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r[t]=s}return r},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t={},r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t[r]=s}return{type:g.Object,value:t}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e={};for(const[r,s]of Object.entries(t.value))e[r]=_(s);return e}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t={};for(const[r,s]of Object.entries(e))t[r]=b(s);return{type:g.Object,value:t}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t={};for(const[r,s]of Object.entries(e))t[r]=k(s);return t}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 3bbff3fa84bb924f6ec9de8c4b078cc4c8fe0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 17/70] fix: find the element of a DomElementRef

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index 2a6e12d..9e9d1e1 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -98,8 +98,8 @@ export class JsNode {
             return null;
         }
 
-        if (GuardJsValue.isNumber(firstName) && rest.length === 0) {
-            const domId = firstName.value;
+        if ((GuardJsValue.isNumber(firstName) || GuardJsValue.isBigInt(firstName)) && rest.length === 0) {
+            const domId = Number(firstName.value);
 
             const node = this.nodes.get_any_option(domId);
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 18f253b..37e1ff3 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if(n.isNumber(r)&&0===s.length){const s=r.value,o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From d8b122e620170b5626ec7849a84206733e644ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 18/70] fix: return the values of get_props themselves

---
 crates/vertigo/src/driver_module/src_js/js_node.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/js_node.ts b/crates/vertigo/src/driver_module/src_js/js_node.ts
index 9e9d1e1..ba36c87 100644
--- a/crates/vertigo/src/driver_module/src_js/js_node.ts
+++ b/crates/vertigo/src/driver_module/src_js/js_node.ts
@@ -172,7 +172,7 @@ export class JsNode {
     }
 
     nextGetProps(path: Array<JsValueType>, args: Array<JsValueType>): JsNode | null {
-        const result: Record<string, JsValueType> = {};
+        const result: Record<string, unknown> = {};
 
         for (const property of args) {
             if (GuardJsValue.isString(property)) {
@@ -181,7 +181,7 @@ export class JsNode {
                     return null;
                 }
 
-                result[property] = value.toValue();
+                result[property] = value.wsk;
             } else {
                 console.error('JsNode.nextGetProps - wrong parameters', { path, args, property });
                 return null;
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 37e1ff3..4dae29a 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.toValue()}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 0a9a96d9b64510cd6566bf16ce62eed78a0f0eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 19/70] fix: answer undefined for results that cannot be passed
 to the program

---
 .../vertigo/src/driver_module/src_js/wasm_module.ts  | 12 +++++++++++-
 crates/vertigo/src/driver_module/wasm_run.js         |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/wasm_module.ts b/crates/vertigo/src/driver_module/src_js/wasm_module.ts
index fc02975..ac49101 100644
--- a/crates/vertigo/src/driver_module/src_js/wasm_module.ts
+++ b/crates/vertigo/src/driver_module/src_js/wasm_module.ts
@@ -1,6 +1,7 @@
 import { wasmInit, ModuleControllerType } from './wasm_init';
 import { ApiBrowser as ApiBrowser } from './api_browser';
 import { JsNode } from './js_node';
+import { JsValueType } from './jsvalue';
 
 //Number -> u32 or i32
 //BigInt -> u64 or i64
@@ -71,7 +72,16 @@ export class WasmModule {
                             wsk = newWsk;
                         }
 
-                        return getWasm().valueSaveToBuffer(wsk.toValue());
+                        let result: JsValueType;
+
+                        try {
+                            result = wsk.toValue();
+                        } catch (error) {
+                            console.error('dom_access - the result cannot be passed to wasm', error);
+                            return 0;
+                        }
+
+                        return getWasm().valueSaveToBuffer(result);
                     }
 
                     console.error('dom_access - wrong parameters', args);
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 4dae29a..aac3f06 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}return r().valueSaveToBuffer(t.toValue())}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From e206d54a3b7ea41959f6670607f44050286cbb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 20/70] fix: pass any text through the hash part of the address

---
 .../driver_module/src_js/api_browser/hashrouter.ts    | 11 +++++++++--
 crates/vertigo/src/driver_module/wasm_run.js          |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts b/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
index dd178aa..88f5e27 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/hashrouter.ts
@@ -33,11 +33,18 @@ export class HashRouter {
             return;
         }
 
-        location.hash = new_hash;
+        location.hash = '#' + encodeURI(new_hash);
         this.trigger();
     }
 
     public get(): string {
-        return decodeURIComponent(location.hash.substr(1));
+        const hash = location.hash.substr(1);
+
+        try {
+            return decodeURIComponent(hash);
+        } catch (_error) {
+            //the address typed in by the user does not have to be properly encoded
+            return hash;
+        }
     }
 }
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index aac3f06..326602f 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash=e,this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){return decodeURIComponent(location.hash.substr(1))}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 904de850b0d5b563f21b304f72485f935f478d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:01 +0000
Subject: [PATCH 21/70] fix: show the current address in routers nobody
 observed when it changed

---
 crates/vertigo/src/router.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo/src/router.rs b/crates/vertigo/src/router.rs
index d82bed9..c0d65ce 100644
--- a/crates/vertigo/src/router.rs
+++ b/crates/vertigo/src/router.rs
@@ -85,15 +85,10 @@ impl<T: Clone + ToString + From<String> + PartialEq + 'static> Router<T> {
     fn new(use_history_api: bool) -> Self {
         let driver = get_driver();
 
-        let init_value = match use_history_api {
-            false => T::from(driver.inner.api.get_hash_location()),
-            true => T::from(driver.inner.api.get_history_location()),
-        };
-
-        let route = Value::with_connect(init_value, move |value| {
+        let location_change = Value::with_connect((), move |value| {
             let value = value.clone();
-            let callback = move |url: String| {
-                value.set_value_and_compare(T::from(url));
+            let callback = move |_url: String| {
+                value.set(());
             };
 
             match use_history_api {
@@ -102,6 +97,16 @@ impl<T: Clone + ToString + From<String> + PartialEq + 'static> Router<T> {
             }
         });
 
+        // The location is read here, because it also changes when the router is not observed by anyone.
+        let route = Computed::from(move |context| {
+            location_change.get(context);
+
+            T::from(match use_history_api {
+                false => driver.inner.api.get_hash_location(),
+                true => driver.inner.api.get_history_location(),
+            })
+        });
+
         Self {
             use_history_api,
             route,
-- 
2.43.0


From 339fe640c108c4d8091afbdf7d79efb82984724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 22/70] fix: close the socket of a websocket handle dropped
 while connecting

---
 .../src_js/api_browser/websocket/connection.ts            | 8 ++++++--
 .../src_js/api_browser/websocket/websocket.ts             | 1 +
 crates/vertigo/src/driver_module/wasm_run.js              | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
index cd9b19e..ede5dc4 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/connection.ts
@@ -30,6 +30,7 @@ export type UnsubscribeFnType = () => void;
 interface OpenSocketResult {
     socket: Promise<SocketConnection | null>,
     done: Promise<void>,
+    close: () => void,
 }
 
 export interface SocketConnectionController {
@@ -130,7 +131,8 @@ export class SocketConnection {
 
         return {
             socket: result.promise,
-            done: done.promise
+            done: done.promise,
+            close: closeSocket
         };
     }
 
@@ -142,12 +144,14 @@ export class SocketConnection {
     ): SocketConnectionController {
         let isConnect: boolean = true;
         let socketConnection: SocketConnection | null = null;
+        let closeSocket: (() => void) | null = null;
 
         const log = new LogContext(host);
 
         (async (): Promise<void> => {
             while (isConnect) {
                 const openSocketResult = SocketConnection.connect(log, host, timeout_connection);
+                closeSocket = openSocketResult.close;
 
                 const socket = await openSocketResult.socket;
 
@@ -198,7 +202,7 @@ export class SocketConnection {
             },
             dispose: (): void => {
                 isConnect = false;
-                socketConnection?.close();
+                closeSocket?.();
             }
         };
     }
diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/websocket.ts b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/websocket.ts
index cad8aa7..a2963e8 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/websocket/websocket.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/websocket/websocket.ts
@@ -69,6 +69,7 @@ export class DriverWebsocket {
 
         controller.dispose();
         this.controllerList.delete(callback_id);
+        this.socket.delete(callback_id);
     }
 
     public websocket_send_message = (
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 326602f..b545ed8 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise}}static startSocket(e,t,r,s){let o=!0,n=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t),c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,n?.close()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e),this.socket.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From ba47f8895a9e916f08bc5a0045665f5c25a007e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 23/70] fix: report an error for requests with invalid headers

---
 crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts | 4 ++--
 crates/vertigo/src/driver_module/wasm_run.js                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
index edac527..4605f1d 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
@@ -120,9 +120,9 @@ export class Fetch {
     ): Promise<void> => {
         const wasm = this.getWasm();
 
-        const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
-
         try {
+            const [fetchHeaders, fetchBody] = getHeadersAndBody(headers, body);
+
             const response = await fetch(url, {
                 method,
                 headers: fetchHeaders,
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index b545ed8..5459fb6 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,s,o)=>{const n=this.getWasm(),[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(s,o);try{const s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e),this.socket.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,l,c)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(l,c),s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e),this.socket.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From abcf73823d6f8f151374f01177ab713656f2879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 24/70] fix: send JSON strings in request bodies as JSON

---
 crates/vertigo-cli/src/serve/wasm/decode_commands.rs   |  5 ++++-
 crates/vertigo/src/driver_module/api/api_import.rs     |  6 +++++-
 .../src/driver_module/src_js/api_browser/fetch.ts      | 10 ++++++----
 crates/vertigo/src/driver_module/wasm_run.js           |  2 +-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
index 07279b3..504795c 100644
--- a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
+++ b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
@@ -7,7 +7,10 @@ use super::{get_now::get_now, js_value_match::Match, message::CallWebsocketResul
 
 pub fn convert_value_to_body(body: JsValue) -> Result<Option<RequestBody>, String> {
     match body {
-        JsValue::Json(json) => Ok(Some(RequestBody::Json(json))),
+        JsValue::Object(mut map) => match map.remove("json") {
+            Some(JsValue::Json(json)) => Ok(Some(RequestBody::Json(json))),
+            _ => Err("expected JsValue::Json in the field json".to_string()),
+        },
         JsValue::String(text) => Ok(Some(RequestBody::Text(text))),
         JsValue::Vec(buffer) => Ok(Some(RequestBody::Binary(buffer))),
         JsValue::Undefined => Ok(None),
diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index abbf899..0bd0519 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -539,7 +539,11 @@ impl ApiImport {
                     JsValue::Json(headers),
                     match body {
                         Some(RequestBody::Text(body)) => JsValue::String(body),
-                        Some(RequestBody::Json(json)) => JsValue::Json(json),
+                        // wrapped, so that a JSON string differs from a text
+                        Some(RequestBody::Json(json)) => JsValue::Object(HashMap::from([(
+                            "json".to_string(),
+                            JsValue::Json(json),
+                        )])),
                         Some(RequestBody::Binary(bin)) => JsValue::Vec(bin),
                         None => JsValue::Undefined,
                     },
diff --git a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
index 4605f1d..eba9a11 100644
--- a/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
+++ b/crates/vertigo/src/driver_module/src_js/api_browser/fetch.ts
@@ -50,7 +50,9 @@ const catchError = async (
     }
 };
 
-const getHeadersAndBody = (headersRecord: Record<string, string>, body: undefined | string | Uint8Array | JsJsonType | undefined): [Headers, string | ArrayBuffer | undefined] => {
+type RequestBody = undefined | string | Uint8Array | { json: JsJsonType };
+
+const getHeadersAndBody = (headersRecord: Record<string, string>, body: RequestBody): [Headers, string | ArrayBuffer | undefined] => {
     const headers = new Headers(headersRecord);
 
     if (body === undefined) {
@@ -90,7 +92,7 @@ const getHeadersAndBody = (headersRecord: Record<string, string>, body: undefine
 
     return [
         headers,
-        JSON.stringify(body),
+        JSON.stringify(body.json),
     ];
 };
 
@@ -106,7 +108,7 @@ export class Fetch {
         method: string,
         url: string,
         headers: Record<string, string>,
-        body: string | Uint8Array | JsJsonType | undefined,
+        body: RequestBody,
     ) => {
         this.fetch_send_request_inner(callback_id, method, url, headers, body);
     }
@@ -116,7 +118,7 @@ export class Fetch {
         method: string,
         url: string,
         headers: Record<string, string>,
-        body: string | Uint8Array | JsJsonType | undefined,
+        body: RequestBody,
     ): Promise<void> => {
         const wasm = this.getWasm();
 
diff --git a/crates/vertigo/src/driver_module/wasm_run.js b/crates/vertigo/src/driver_module/wasm_run.js
index 5459fb6..dab6eba 100644
--- a/crates/vertigo/src/driver_module/wasm_run.js
+++ b/crates/vertigo/src/driver_module/wasm_run.js
@@ -1,2 +1,2 @@
-"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,l,c)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t)])})(l,c),s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e),this.socket.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
+"use strict";const e=e=>{throw Error("assert never")},t=new TextDecoder("utf-8",{ignoreBOM:!0}),r=new TextEncoder;class s{constructor(e,t,r){this.getUint8Memory=e,this.ptr=t,this.size=r,this.pointer=0,this.dataView=new DataView(this.getUint8Memory().buffer,this.ptr,this.size)}getByte(){const e=this.dataView.getUint8(this.pointer);return this.pointer+=1,e}setByte(e){this.dataView.setUint8(this.pointer,e),this.pointer+=1}getU16(){const e=this.dataView.getUint16(this.pointer);return this.pointer+=2,e}setU16(e){this.dataView.setUint16(this.pointer,e),this.pointer+=2}getU32(){const e=this.dataView.getUint32(this.pointer);return this.pointer+=4,e}setU32(e){this.dataView.setUint32(this.pointer,e),this.pointer+=4}getI32(){const e=this.dataView.getInt32(this.pointer);return this.pointer+=4,e}setI32(e){this.dataView.setInt32(this.pointer,e),this.pointer+=4}getU64(){const e=this.dataView.getBigUint64(this.pointer);return this.pointer+=8,e}setU64(e){this.dataView.setBigUint64(this.pointer,e),this.pointer+=8}getI64(){const e=this.dataView.getBigInt64(this.pointer);return this.pointer+=8,e}setI64(e){this.dataView.setBigInt64(this.pointer,e),this.pointer+=8}getF64(){const e=this.dataView.getFloat64(this.pointer);return this.pointer+=8,e}setF64(e){this.dataView.setFloat64(this.pointer,e),this.pointer+=8}getBuffer(){const e=this.getU32(),t=this.getUint8Memory().slice(this.ptr+this.pointer,this.ptr+this.pointer+e);return this.pointer+=e,t}setBuffer(e){const t=e.length;this.setU32(t);this.getUint8Memory().subarray(this.ptr+this.pointer,this.ptr+this.pointer+t).set(e),this.pointer+=t}getString(){return t.decode(this.getBuffer())}setString(e){const t=r.encode(e);this.setBuffer(t)}getSavedSize(){return this.pointer}}const o=e=>(new TextEncoder).encode(e).length;var n;!function(e){e.isString=e=>"string"==typeof e,e.isStringOrNull=e=>null===e||"string"==typeof e,e.isNumber=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I32||e.type===g.U32),e.isBigInt=e=>"object"==typeof e&&null!==e&&"type"in e&&(e.type===g.I64||e.type===g.U64)}(n||(n={}));const i=1,a=2,c=3,l=4,u=5,h=6,d=7,f=e=>{if("boolean"==typeof e)return 1;if(null===e)return 1;if("string"==typeof e)return 5+o(e);if(Array.isArray(e)){let t=5;for(const r of e)t+=f(r);return t}if("number"==typeof e)return 9;let t=5;for(const[r,s]of Object.entries(e))t+=4+o(r),t+=f(s);return t},p=e=>{const t=e.getByte();if(t===i)return!0;if(t===a)return!1;if(t===c)return null;if(t===l)return e.getString();if(t===u)return e.getF64();if(t===h){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(p(e));return t}const r=[],s=e.getU32();for(let t=0;t<s;t++){const t=e.getString(),s=p(e);r.push([t,s])}return Object.fromEntries(r)},m=(e,t)=>{if(!0===e)return void t.setByte(i);if(!1===e)return void t.setByte(a);if(null===e)return void t.setByte(c);if("string"==typeof e)return t.setByte(l),void t.setString(e);if("number"==typeof e)return t.setByte(u),void t.setF64(e);if(Array.isArray(e)){t.setByte(h),t.setU32(e.length);for(const r of e)m(r,t);return}const r=[];for(const[t,s]of Object.entries(e))r.push([t,s]);t.setByte(d),t.setU32(r.length);for(const[e,s]of r)t.setString(e),m(s,t)},g={U32:1,I32:2,U64:3,I64:4,F64:5,True:6,False:7,Null:8,Undefined:9,Vec:10,String:11,List:12,Object:13,Json:14},y=e=>{const t=e.getByte();if(t===g.U32)return{type:g.U32,value:e.getU32()};if(t===g.I32)return{type:g.I32,value:e.getI32()};if(t===g.U64)return{type:g.U64,value:e.getU64()};if(t===g.I64)return{type:g.I64,value:e.getI64()};if(t===g.F64)return{type:g.F64,value:e.getF64()};if(t===g.True)return!0;if(t===g.False)return!1;if(t===g.Null)return null;if(t!==g.Undefined){if(t===g.Vec)return e.getBuffer();if(t===g.String)return e.getString();if(t===g.List){const t=[],r=e.getU32();for(let s=0;s<r;s++)t.push(y(e));return t}if(t===g.Object){const t=[],r=e.getU32();for(let s=0;s<r;s++){const r=e.getString(),s=y(e);t.push([r,s])}return{type:g.Object,value:Object.fromEntries(t)}}if(t===g.Json){const t=p(e);return{type:g.Json,value:t}}throw console.error("typeParam",t),Error("Invalid branch")}},w=t=>{if(!0===t||!1===t||null==t)return 1;if(n.isString(t))return 5+o(t);if(Array.isArray(t)){let e=5;for(const r of t)e+=w(r);return e}if(t instanceof Uint8Array)return 5+t.length;if(t.type===g.I32||t.type===g.U32)return 5;if(t.type===g.I64||t.type===g.U64||t.type==g.F64)return 9;if(t.type===g.Object){let e=5;for(const[r,s]of Object.entries(t.value))e+=4+o(r),e+=w(s);return e}return t.type===g.Json?1+f(t.value):e()},v=(t,r)=>{if(!0!==t)if(!1!==t)if(null!==t)if(void 0!==t){if(t instanceof Uint8Array)return r.setByte(g.Vec),void r.setBuffer(t);if(n.isString(t))return r.setByte(g.String),void r.setString(t);if(Array.isArray(t)){r.setByte(g.List),r.setU32(t.length);for(const e of t)v(e,r)}else{if(t.type===g.U32)return r.setByte(g.U32),void r.setU32(t.value);if(t.type===g.I32)return r.setByte(g.I32),void r.setI32(t.value);if(t.type===g.U64)return r.setByte(g.U64),void r.setU64(t.value);if(t.type===g.I64)return r.setByte(g.I64),void r.setI64(t.value);if(t.type===g.F64)return r.setByte(g.F64),void r.setF64(t.value);if(t.type!==g.Object)return t.type===g.Json?(r.setByte(g.Json),void m(t.value,r)):e();{const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,s]);r.setByte(g.Object),r.setU32(e.length);for(const[t,s]of e)r.setString(t),v(s,r)}}}else r.setByte(g.Undefined);else r.setByte(g.Null);else r.setByte(g.False);else r.setByte(g.True)},_=t=>{if(!0===t)return!0;if(!1===t)return!1;if(null===t)return null;if(void 0!==t){if(t instanceof Uint8Array)return t;if(n.isString(t))return t;if(Array.isArray(t)){const e=[];for(const r of t)e.push(_(r));return e}if(t.type===g.U32||t.type===g.I32)return t.value;if(t.type===g.U64||t.type===g.I64||t.type===g.F64)return t.value;if(t.type===g.Object){const e=[];for(const[r,s]of Object.entries(t.value))e.push([r,_(s)]);return Object.fromEntries(e)}return t.type===g.Json?t.value:e()}},b=e=>{if("string"==typeof e)return e;if(!0===e||!1===e||null==e)return e;if("number"==typeof e)return e===(0|e)?-(2**31)<=e&&e<2**31?{type:g.I32,value:e}:{type:g.I64,value:BigInt(e)}:{type:g.F64,value:e};if("bigint"==typeof e)return e>=BigInt(2)**BigInt(63)?{type:g.U64,value:e}:{type:g.I64,value:e};if(e instanceof Uint8Array)return e;if(Array.isArray(e))try{const t=e.map(k);return{type:g.Json,value:t}}catch(t){return e.map(b)}if("object"==typeof e){try{const t=k(e);return{type:g.Json,value:t}}catch(e){}const t=[];for(const[r,s]of Object.entries(e))t.push([r,b(s)]);return{type:g.Object,value:Object.fromEntries(t)}}throw console.warn("convertToJsValue",e),Error("It is not possible to convert this data to JsValue")},k=e=>{if("boolean"==typeof e||null===e||"number"==typeof e||"string"==typeof e)return e;if(Array.isArray(e))return e.map(k);if("object"==typeof e&&!(e instanceof Uint8Array)){const t=[];for(const[r,s]of Object.entries(e))t.push([r,k(s)]);return Object.fromEntries(t)}throw console.warn("convertToJsJson",e),Error("It is not possible to convert this data to JsJson")},U=async(e,t)=>{const r=await(async(e,t)=>{if("function"==typeof WebAssembly.instantiateStreaming){const r=fetch(e);try{return await WebAssembly.instantiateStreaming(r,t)}catch(e){console.warn("`WebAssembly.instantiateStreaming` failed. This could happen if your server does not serve wasm with `application/wasm` MIME type, but check the original error too. Falling back to `WebAssembly.instantiate` which is slower. Original error:\n",e)}}console.info("fetchModule by WebAssembly.instantiate");const r=await fetch(e),s=await r.arrayBuffer();return await WebAssembly.instantiate(s,t)})(e,t);let o=new Uint8Array(1);const n=()=>{if(r.instance.exports.memory instanceof WebAssembly.Memory)return o.buffer!==r.instance.exports.memory.buffer&&(o=new Uint8Array(r.instance.exports.memory.buffer)),o;throw Error("Missing memory")},i=r.instance.exports,a=(e,t)=>((e,t,r)=>{try{const o=new s(e,t,r);return y(o)}catch(e){return console.error(e),[]}})(n,e,t),c=e=>((e,t,r)=>{if(void 0===r)return 0;const o=w(r),n=t(o),i=new s(e,n,o);if(v(r,i),o!==i.getSavedSize())throw console.error({size:o,savedSize:i.getSavedSize()}),Error("Mismatch between calculated and recorded size");return n})(n,i.alloc,e);return{exports:i,decodeArguments:a,getUint8Memory:n,wasm_callback:(e,t)=>{const r=c(t);let s=i.wasm_callback(e,r);if(0n===s)return;const o=s%2n**32n,n=s>>32n;n>=2n**32n&&console.error(`Overflow of a variable with a pointer result_ptr_and_size=${s}`);const l=a(Number(n),Number(o));return i.free(Number(n)),l},valueSaveToBuffer:c}};class x{constructor(){this.get=e=>{for(const t of document.cookie.split(";")){if(""===t)continue;const r=t.trim().split("=");if(2!==r.length){console.warn(`Cookies.get: Incorrect number of cookieChunk => ${r.length} in ${t}`);continue}const s=r[0],o=r[1];if(void 0!==s&&void 0!==o){if(s===e)return decodeURIComponent(o)}else console.warn(`Cookies.get: Broken cookie part => ${t}`)}return""},this.get_json=e=>{let t=this.get(e);if(0!==t.length)try{return JSON.parse(t)}catch(e){console.error("Error deserializing cookie",e)}return null},this.set=(e,t,r)=>{const s=null==t?"":encodeURIComponent(t),o=new Date;o.setTime(o.getTime()+1e3*Number(r));let n="expires="+o.toUTCString();document.cookie=`${e}=${s};${n};path=/;samesite=strict"`},this.set_json=(e,t,r)=>{let s=JSON.stringify(t);this.set(e,s,r)}}}class E{constructor(e){this.interval_set=(e,t)=>setInterval((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.interval_clear=e=>{clearInterval(e)},this.timeout_set=(e,t)=>setTimeout((()=>{this.getWasm().wasm_callback(t,void 0)}),e),this.timeout_clear=e=>{clearTimeout(e)},this.getWasm=e}}class A{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(location.hash="#"+encodeURI(e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("hashchange",this.trigger)}get(){const e=location.hash.substr(1);try{return decodeURIComponent(e)}catch(t){return e}}}const S=async(e,t,r,s)=>{try{await s(r)}catch(s){console.error("fetch error (2) - json",s);const o=new String(s).toString();e.wasm_callback(t,[!1,{type:g.U32,value:r.status},o])}};class B{constructor(e){this.fetch_send_request=(e,t,r,s,o)=>{this.fetch_send_request_inner(e,t,r,s,o)},this.fetch_send_request_inner=async(e,t,r,l,c)=>{const n=this.getWasm();try{const[i,a]=((e,t)=>{const r=new Headers(e);return void 0===t?[r,void 0]:"string"==typeof t?(!1===r.has("content-type")&&r.set("content-type","text/plain; charset=utf-8"),[r,t]):t instanceof Uint8Array?(!1===r.has("content-type")&&r.set("content-type","application/octet-stream"),[r,t]):(!1===r.has("content-type")&&r.set("content-type","application/json; charset=utf-8"),[r,JSON.stringify(t.json)])})(l,c),s=await fetch(r,{method:t,headers:i,body:a}),o=(e=>{if(null===e)return console.info("Missing header content-type"),"bin";const[t]=e.split(";");if(void 0===t)return console.error("Missing value for content-type"),"bin";const r=t.toLowerCase().trim();return"application/json"===r?"json":"text/plain"===r?"text":(console.error(`No match found for content-type=${e}`),"bin")})(s.headers.get("content-type"));if("json"===o)return void S(n,e,s,(async t=>{const r=await t.json();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},{type:g.Json,value:r}])}));if("text"===o)return void S(n,e,s,(async t=>{const r=await t.text();n.wasm_callback(e,[!0,{type:g.U32,value:t.status},r])}));S(n,e,s,(async t=>{const r=await t.arrayBuffer(),s=new Uint8Array(r);n.wasm_callback(e,[!0,{type:g.U32,value:t.status},s])}))}catch(t){console.error("fetch error (1)",t);const r=new String(t).toString();n.wasm_callback(e,[!1,{type:g.U32,value:0},r])}},this.getWasm=e}}class I{constructor(){this.events=new Set}on(e){let t=!0;const r=r=>{t&&e(r)};return this.events.add(r),()=>{t=!1,this.events.delete(r)}}trigger(e){const t=Array.from(this.events.values());for(const r of t)try{r(e)}catch(e){console.error(e)}}get size(){return this.events.size}}class L{constructor(){this.promiseResolveReject=null,this.resolve=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.resolve(e)},this.reject=e=>{const t=this.promiseResolveReject;this.promiseResolveReject=null,null!==t&&t.reject(e)},this.isFulfilled=()=>null===this.promiseResolveReject;const[e,t]=(()=>{let e=null,t=null;const r=new Promise(((r,s)=>{e=r,t=s}));if(null===e)throw Error("createPromiseValue - resolve is null");if(null===t)throw Error("createPromiseValue - reject is null");return[{resolve:e,reject:t},r]})();this.promiseResolveReject=e,this.promise=t}}const T=async(e,t)=>{console.info(`${e} wait ${t}ms`),await(async e=>new Promise((t=>{setTimeout(t,e)})))(t),console.info(`${e} go forth`)};class W{constructor(e){this.host=e,this.formatLog=e=>`Socket ${this.host} ==> ${e}`}}class ${constructor(e,t){this.eventMessage=new I,this.close=e,this.send=t}static connect(e,t,r){const s=new L,o=new L,n=new WebSocket(t);let i=!1;console.info(e.formatLog("starting ..."));const a=()=>{i||(console.info(e.formatLog("close")),i=!0,s.resolve(null),o.resolve(),n.close())},c=new $(a,(e=>{i||n.send(e)}));setTimeout((()=>{!1===s.isFulfilled()&&(console.error(e.formatLog(`timeout (${r}ms)`)),a())}),r);return n.addEventListener("open",(()=>{console.info(e.formatLog("open")),s.resolve(c)})),n.addEventListener("error",(t=>{console.error(e.formatLog("error"),t),a()})),n.addEventListener("close",a),n.addEventListener("message",(t=>{if(i)return;const r=t.data;"string"!=typeof r?console.error(e.formatLog("onMessage - expected string"),r):c.eventMessage.trigger(r)})),{socket:s.promise,done:o.promise,close:a}}static startSocket(e,t,r,s){let o=!0,n=null,l=null;const i=new W(e);return(async()=>{for(;o;){const a=$.connect(i,e,t);l=a.close;const c=await a.socket;if(null!==c){if(n=c,s({type:"socket",socket:c}),c.eventMessage.on((e=>{s({type:"message",message:e})})),await a.done,s({type:"close"}),!o)return void console.info(i.formatLog("disconnect (1)"));await T(i.formatLog("reconnect after close"),r)}else await T(i.formatLog("reconnect after error"),r)}console.info(i.formatLog("disconnect (2)"))})().catch((e=>{console.error(e)})),{send:e=>{null===n?console.error("send fail - missing connection",e):n.send(e)},dispose:()=>{o=!1,l?.()}}}}class j{constructor(e){this.websocket_register_callback=(e,t)=>{const r=this.getWasm();let s=$.startSocket(e,5e3,3e3,(e=>{if(!1!==this.controllerList.has(t)){if("socket"===e.type)return this.socket.set(t,e.socket),void r.wasm_callback(t,!0);if("message"!==e.type)return"close"===e.type?(this.socket.delete(t),void r.wasm_callback(t,!1)):(e=>{throw console.error(e),Error("unknown message")})(e);r.wasm_callback(t,e.message)}}));this.controllerList.set(t,s)},this.websocket_unregister_callback=e=>{const t=this.controllerList.get(e);void 0!==t?(t.dispose(),this.controllerList.delete(e),this.socket.delete(e)):console.error("Expected controller")},this.websocket_send_message=(e,t)=>{const r=this.socket.get(e);void 0===r?console.error(`Missing socket connection for callback_id=${e}`):r.send(t)},this.getWasm=e,this.controllerList=new Map,this.socket=new Map}}class M{constructor(){this.data=new Map}get_root_html(){return document.documentElement}get_root_head(){return document.head}get_root_body(){return document.body}set(e,t){1===e||2===e||3===e||this.data.set(e,t)}get_any_option(e){return 1===e?this.get_root_html():2===e?this.get_root_head():3===e?this.get_root_body():this.data.get(e)}get_any(e,t){const r=this.get_any_option(t);if(void 0===r)throw Error(`${e} -> item not found=${t}`);return r}get(e,t){const r=this.get_any_option(t);if(void 0===r)throw new Error(`${e}->get: Item id not found = ${t}`);return r}get_node_element(e,t){const r=this.get(e,t);if(r instanceof HTMLElement)return r;throw Error(`Expected id=${t} as HTMLElement`)}get_node(e,t){const r=this.get(e,t);if(r instanceof Element)return r;throw Error(`Expected id=${t} as Element`)}get_text(e,t){const r=this.get(e,t);if(r instanceof Text)return r;throw Error(`Expected id=${t} as Text`)}get_comment(e,t){const r=this.get(e,t);if(r instanceof Comment)return r;throw Error(`Expected id=${t} as Comment`)}delete(e,t){const r=this.get_any_option(t);if(this.data.delete(t),void 0===r)throw new Error(`${e}->delete: Item id not found = ${t}`);return r}}class N{constructor(e,t){this.get_node_to_clear=e=>{const t=[];return e.childNodes.forEach((e=>{t.push(e)})),t},this.get_to_clear=()=>!0===this.initBeforeFirstUpdate?[[],[]]:(this.initBeforeFirstUpdate=!0,[this.get_node_to_clear(this.nodes.get_root_head()),this.get_node_to_clear(this.nodes.get_root_body())]),this.dom_bulk_update=e=>{const[t,r]=this.get_to_clear(),s=new Set;for(const t of e){try{this.bulk_update_command(t)}catch(e){console.error("bulk_update - item",e,t)}"set_attr"===t.type&&"autofocus"===t.name.toLocaleLowerCase()&&s.add(t.id)}s.size>0&&setTimeout((()=>{for(const e of s){const t=this.nodes.get_any_option(e);t instanceof HTMLElement&&t.focus()}}),0);for(const e of r)e.remove();for(const e of t)e.remove()},this.historyLocation=e,this.getWasm=t,this.nodes=new M,this.callbacks=new Map,this.initBeforeFirstUpdate=!1,document.addEventListener("dragover",(e=>{e.preventDefault()}))}debugNodes(...e){const t={};for(const r of e){const e=this.nodes.get_any_option(r);t[r]=e}console.info("debug nodes",t)}create_node(e,t){const r=(e=>"path"==e||"svg"==e?document.createElementNS("http://www.w3.org/2000/svg",e):document.createElement(e))(t);this.nodes.set(e,r),"a"===t.toLowerCase().trim()&&r.addEventListener("click",(e=>{let t=r.getAttribute("href");null!==t&&(t.startsWith("#")||t.startsWith("//")||/^[a-z][a-z0-9+.-]*:/i.test(t)||(e.preventDefault(),this.historyLocation.push(t),window.scrollTo(0,0)))}))}set_attribute(e,t,r){const s=this.nodes.get_node("set_attribute",e);if(s.setAttribute(t,r),"value"==t){if(s instanceof HTMLInputElement)return void(s.value=r);if(s instanceof HTMLTextAreaElement)return s.value=r,void(s.defaultValue=r)}}remove_attribute(e,t){const r=this.nodes.get_node("remove_attribute",e);if(r.removeAttribute(t),"value"==t){if(r instanceof HTMLInputElement)return void(r.value="");if(r instanceof HTMLTextAreaElement)return r.value="",void(r.defaultValue="")}}remove_node(e){this.nodes.delete("remove_node",e).remove()}create_text(e,t){const r=document.createTextNode(t);this.nodes.set(e,r)}remove_text(e){this.nodes.delete("remove_node",e).remove()}update_text(e,t){this.nodes.get_text("set_attribute",e).textContent=t}insert_before(e,t,r){const s=this.nodes.get("insert_before",e),o=this.nodes.get_any("insert_before child",t);if(null==r)s.insertBefore(o,null);else{const e=this.nodes.get_any("insert_before ref",r);s.insertBefore(o,e)}}insert_css(e,t){const r=document.createElement("style"),s=document.createTextNode(`${e} { ${t} }`);r.appendChild(s),this.nodes.get_root_head().appendChild(r)}callback_click(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_input(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_change(e,t){const r=e.target;r instanceof HTMLInputElement||r instanceof HTMLTextAreaElement||r instanceof HTMLSelectElement?this.getWasm().wasm_callback(t,r.value):console.warn("event input ignore",r)}callback_blur(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mousedown(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseup(e,t){this.getWasm().wasm_callback(t,void 0)&&e.preventDefault()}callback_mouseenter(e,t){this.getWasm().wasm_callback(t,void 0)}callback_mouseleave(e,t){this.getWasm().wasm_callback(t,void 0)}callback_drop(e,t){if(e.preventDefault(),e instanceof DragEvent)if(null===e.dataTransfer)console.error("dom -> drop -> dataTransfer null");else{const r=[];for(let t=0;t<e.dataTransfer.items.length;t++){const s=e.dataTransfer.items[t];if(void 0===s)console.error("dom -> drop -> item - undefined");else{const e=s.getAsFile();null===e?console.error(`dom -> drop -> index:${t} -> It's not a file`):r.push(e.arrayBuffer().then((t=>({name:e.name,data:new Uint8Array(t)}))))}}r.length?Promise.all(r).then((e=>{const r=[];for(const t of e)r.push([t.name,t.data]);this.getWasm().wasm_callback(t,[r])})).catch((e=>{console.error("callback_drop -> promise.all -> ",e)})):console.error("No files to send")}else console.warn("event drop ignore",e)}callback_keydown(e,t){if(e instanceof KeyboardEvent){!0===this.getWasm().wasm_callback(t,[e.key,e.code,e.altKey,e.ctrlKey,e.shiftKey,e.metaKey])&&(e.preventDefault(),e.stopPropagation())}else console.warn("keydown ignore",e)}callback_load(e,t){e.preventDefault(),this.getWasm().wasm_callback(t,void 0)}callback_add(e,t,r){const s=e=>"click"===t?this.callback_click(e,r):"input"===t?this.callback_input(e,r):"change"===t?this.callback_change(e,r):"blur"===t?this.callback_blur(e,r):"mousedown"===t?this.callback_mousedown(e,r):"mouseup"===t?this.callback_mouseup(e,r):"mouseenter"===t?this.callback_mouseenter(e,r):"mouseleave"===t?this.callback_mouseleave(e,r):"keydown"===t||"hook_keydown"===t?this.callback_keydown(e,r):"drop"===t?this.callback_drop(e,r):"load"===t?this.callback_load(e,r):void console.error(`No support for the event ${t}`);if(this.callbacks.has(r))console.error(`There was already a callback added with the callback_id=${r}`);else if(this.callbacks.set(r,s),"hook_keydown"===t)document.addEventListener("keydown",s,!1);else{this.nodes.get("callback_add",e).addEventListener(t,s,!1)}}callback_remove(e,t,r){const s=this.callbacks.get(r);if(this.callbacks.delete(r),void 0!==s)if("hook_keydown"===t)document.removeEventListener("keydown",s);else{this.nodes.get("callback_remove",e).removeEventListener(t,s)}else console.error(`The callback is missing with the id=${r}`)}bulk_update_command(e){if("remove_node"!==e.type)if("insert_before"!==e.type)if("create_node"!==e.type)if("create_text"!==e.type)if("update_text"!==e.type)if("set_attr"!==e.type)if("remove_attr"!==e.type)if("remove_text"!==e.type)if("insert_css"!==e.type)if("create_comment"!==e.type)if("remove_comment"!==e.type)if("callback_add"!==e.type){if("callback_remove"!==e.type)return(e=>{throw console.error(e),Error("unknown command")})(e);this.callback_remove(e.id,e.event_name,BigInt(e.callback_id))}else this.callback_add(e.id,e.event_name,BigInt(e.callback_id));else{this.nodes.delete("remove_comment",e.id).remove()}else{const t=document.createComment(e.value);this.nodes.set(e.id,t)}else this.insert_css(e.selector,e.value);else this.remove_text(e.id);else this.remove_attribute(e.id,e.name);else this.set_attribute(e.id,e.name,e.value);else this.update_text(e.id,e.value);else this.create_text(e.id,e.value);else this.create_node(e.id,e.name);else this.insert_before(e.parent,e.child,null===e.ref_id?null:e.ref_id);else this.remove_node(e.id)}}class J{constructor(e){this.trigger=()=>{for(const e of Array.from(this.callback.values()))e()},this.add=e=>{this.callback.set(e,(()=>{this.getWasm().wasm_callback(e,this.get())}))},this.remove=e=>{this.callback.delete(e)},this.push=e=>{this.get()!==e&&(window.history.pushState(null,"",e),this.trigger())},this.replace=e=>{this.get()!==e&&(window.history.replaceState(null,"",e),this.trigger())},this.getWasm=e,this.callback=new Map,window.addEventListener("popstate",this.trigger)}get(){return window.location.pathname+window.location.search+window.location.hash}}class V{constructor(e){this.getRandom=(e,t)=>{const r=t-e+1;return e+Math.floor(Math.random()*r)},this.isBrowser=()=>!0,this.get_env=e=>document.documentElement.getAttribute(`data-env-${e}`),this.getTimezoneOffset=()=>(new Date).getTimezoneOffset(),this.cookie=new x,this.interval=new E(e),this.hashRouter=new A(e),this.historyLocation=new J(e),this.fetch=new B(e),this.websocket=new j(e),this.dom=new N(this.historyLocation,e)}}class F{constructor(e,t,r){this.api=e,this.nodes=t,this.wsk=r}getByProperty(e,t){try{const e=this.wsk[t];return new F(this.api,this.nodes,e)}catch(r){return console.error("A problem with get",{path:e,property:t,error:r}),null}}toValue(){return b(this.wsk)}next(e,t){if(Array.isArray(t)){const[r,...s]=t;return"api"===r?this.nextApi(e,s):"root"===r?this.nextRoot(e,s):"get"===r?this.nextGet(e,s):"set"===r?this.nextSet(e,s):"call"===r?this.nextCall(e,s):"get_props"===r?this.nextGetProps(e,s):(console.error("JsNode.next - wrong commandName",r),null)}return console.error("JsNode.next - array was expected",{path:e,command:t}),null}nextApi(e,t){return 0===t.length?new F(this.api,this.nodes,this.api):(console.error("nextApi: wrong parameter",{path:e,args:t}),null)}nextRoot(e,t){const[r,...s]=t;if(n.isString(r)&&0===s.length)return"window"===r?new F(this.api,this.nodes,window):"document"===r?new F(this.api,this.nodes,document):(console.error(`JsNode.nextRoot: Global name not found -> ${r}`,{path:e,args:t}),null);if((n.isNumber(r)||n.isBigInt(r))&&0===s.length){const s=Number(r.value),o=this.nodes.get_any_option(s);return void 0!==o?new F(this.api,this.nodes,o):(console.error(`JsNode.nextRoot: No node with id=${s}`,{path:e,args:t}),null)}return console.error("JsNode.nextRoot: wrong parameter",{path:e,args:t}),null}nextGet(e,t){const[r,...s]=t;return n.isString(r)&&0===s.length?this.getByProperty(e,r):(console.error("JsNode.nextGet - wrong parameters",{path:e,args:t}),null)}nextSet(e,t){const[r,s,...o]=t;if(n.isString(r)&&0===o.length)try{return this.wsk[r]=_(s),new F(this.api,this.nodes,void 0)}catch(t){return console.error("A problem with set",{path:e,property:r,error:t}),null}return console.error("JsNode.nextSet - wrong parameters",{path:e,args:t}),null}nextCall(e,t){const[r,...s]=t;if(n.isString(r))try{let e=s.map(_);const t=this.wsk[r](...e);return new F(this.api,this.nodes,t)}catch(t){return console.error("A problem with call",{path:e,property:r,error:t}),null}return console.error("JsNode.nextCall - wrong parameters",{path:e,args:t}),null}nextGetProps(e,t){const r={};for(const s of t){if(!n.isString(s))return console.error("JsNode.nextGetProps - wrong parameters",{path:e,args:t,property:s}),null;{const t=this.getByProperty(e,s);if(null===t)return null;r[s]=t.wsk}}return new F(this.api,this.nodes,r)}}class R{constructor(e){this.wasm=e}vertigo_entry_function(e,t){this.wasm.exports.vertigo_entry_function(e,t)}static async create(e){let t=null;const r=()=>{if(null===t)throw Error("Wasm is no initialized");return t},s=new V(r);return window.$vertigoApi=s,t=await U(e,{mod:{panic_message:(e,t)=>{const s=new TextDecoder("utf-8"),o=r().getUint8Memory().subarray(e,e+t),n=s.decode(o);console.error("PANIC",n)},dom_access:(e,t)=>{let o=r().decodeArguments(e,t);if(Array.isArray(o)){const e=o;let t=new F(s,s.dom.nodes,null);for(const r of e){const s=t.next(e,r);if(null===s)return 0;t=s}let n;try{n=t.toValue()}catch(e){return console.error("dom_access - the result cannot be passed to wasm",e),0}return r().valueSaveToBuffer(n)}return console.error("dom_access - wrong parameters",o),0}}}),new R(t)}}const O=new Set,C=async()=>{document.querySelectorAll("*[data-vertigo-run-wasm]").forEach((e=>{const t=e.getAttribute("data-vertigo-run-wasm");"string"==typeof t?(async e=>{if(O.has(e))return;if(O.size>0)return void console.error("Only one wasm module can be run",{moduleRun:O,wasm:e});O.add(e),console.info(`Wasm module: "${e}" -> start`);const t=await R.create(e);console.info(`Wasm module: "${e}" -> initialized`),t.vertigo_entry_function(0,6),console.info(`Wasm module: "${e}" -> launched vertigo_entry_function with version 0.6`)})(t):console.error("Run error",e)}))};window.addEventListener("load",C),setTimeout(C,3e3);
 //# sourceMappingURL=wasm_run.js.map
-- 
2.43.0


From 747a18ac8fd46647c07998ce72bbe50c7cfe09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 25/70] fix: keep a forced refresh requested while an update is
 scheduled

---
 crates/vertigo/src/fetch/lazy_cache.rs | 52 +++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/crates/vertigo/src/fetch/lazy_cache.rs b/crates/vertigo/src/fetch/lazy_cache.rs
index 97552f3..a13f948 100644
--- a/crates/vertigo/src/fetch/lazy_cache.rs
+++ b/crates/vertigo/src/fetch/lazy_cache.rs
@@ -71,6 +71,18 @@ impl<T> Clone for ApiResponse<T> {
     }
 }
 
+/// State of the update of a [LazyCache]
+#[derive(Clone, Copy, Debug, PartialEq)]
+enum Queued {
+    No,
+    /// Will start in a moment, until then it can be extended
+    Scheduled {
+        with_loading: bool,
+        force: bool,
+    },
+    Running,
+}
+
 /// A structure similar to [Value] but supports Loading/Error states and automatic refresh
 /// after defined amount of time.
 ///
@@ -110,7 +122,7 @@ impl<T> Clone for ApiResponse<T> {
 pub struct LazyCache<T: 'static> {
     id: u64,
     value: Value<ApiResponse<T>>,
-    queued: Rc<ValueMut<bool>>,
+    queued: Rc<ValueMut<Queued>>,
     request: Rc<RequestBuilder>,
     map_response: Rc<dyn Fn(u32, RequestBody) -> MapResponse<T>>,
 }
@@ -143,7 +155,7 @@ impl<T> LazyCache<T> {
         Self {
             id: get_unique_id(),
             value: Value::new(ApiResponse::Uninitialized),
-            queued: Rc::new(ValueMut::new(false)),
+            queued: Rc::new(ValueMut::new(Queued::No)),
             request: Rc::new(request),
             map_response: Rc::new(map_response),
         }
@@ -153,7 +165,7 @@ impl<T> LazyCache<T> {
     pub fn get(&self, context: &Context) -> Resource<Rc<T>> {
         let api_response = self.value.get(context);
 
-        if !self.queued.get() && api_response.needs_update() {
+        if self.queued.get() == Queued::No && api_response.needs_update() {
             self.update(false, false);
         }
 
@@ -172,20 +184,40 @@ impl<T> LazyCache<T> {
 
     /// Update the value if expired
     pub fn update(&self, with_loading: bool, force: bool) {
-        if self.queued.get() {
-            return;
+        match self.queued.get() {
+            Queued::No => {}
+            Queued::Scheduled {
+                with_loading: scheduled_with_loading,
+                force: scheduled_force,
+            } => {
+                self.queued.set(Queued::Scheduled {
+                    with_loading: scheduled_with_loading || with_loading,
+                    force: scheduled_force || force,
+                });
+                return;
+            }
+            Queued::Running => return,
         }
 
-        self.queued.set(true); //set lock
+        self.queued.set(Queued::Scheduled {
+            with_loading,
+            force,
+        }); //set lock
         get_driver().inner.api.on_fetch_start.trigger(());
 
         let self_clone = self.clone();
 
         get_driver().spawn(async move {
-            if !self_clone.queued.get() {
-                log::error!("force_update_spawn: queued.get() in spawn -> expected false");
+            let Queued::Scheduled {
+                with_loading,
+                force,
+            } = self_clone.queued.get()
+            else {
+                log::error!("force_update_spawn: queued.get() in spawn -> expected scheduled");
                 return;
-            }
+            };
+
+            self_clone.queued.set(Queued::Running);
 
             let api_response = transaction(|context| self_clone.value.get(context));
 
@@ -213,7 +245,7 @@ impl<T> LazyCache<T> {
                 self_clone.value.set(ApiResponse::new(new_value, expiry));
             }
 
-            self_clone.queued.set(false);
+            self_clone.queued.set(Queued::No);
             get_driver().inner.api.on_fetch_stop.trigger(());
         });
     }
-- 
2.43.0


From f150c402d13daffdafc41e8263cd07023a957106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 26/70] fix: use the default of a field only when the field is
 missing

---
 crates/vertigo-macro/src/jsjson/structs.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/vertigo-macro/src/jsjson/structs.rs b/crates/vertigo-macro/src/jsjson/structs.rs
index 08edbb4..34af409 100644
--- a/crates/vertigo-macro/src/jsjson/structs.rs
+++ b/crates/vertigo-macro/src/jsjson/structs.rs
@@ -32,16 +32,18 @@ pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<Tok
             (#field_unraw.to_string(), self.#field_name.to_json()),
         });
 
-        let unpack_expr = if let Some(default_expr) = attrs.default {
+        list_from_json.push(if let Some(default_expr) = attrs.default {
             quote! {
-                .unwrap_or_else(|_| #default_expr)
+                #field_name: if matches!(&json, vertigo::JsJson::Object(map) if !map.contains_key(#field_unraw)) {
+                    #default_expr
+                } else {
+                    json.get_property(&context, #field_unraw)?
+                },
             }
         } else {
-            quote! { ? }
-        };
-
-        list_from_json.push(quote! {
-            #field_name: json.get_property(&context, #field_unraw)#unpack_expr,
+            quote! {
+                #field_name: json.get_property(&context, #field_unraw)?,
+            }
         })
     }
 
-- 
2.43.0


From 5d8fa3733eeaba7f43c1cb633532bed622134926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 27/70] fix: reject JSON that is no object when decoding
 structures without required fields

---
 crates/vertigo-macro/src/jsjson/structs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/vertigo-macro/src/jsjson/structs.rs b/crates/vertigo-macro/src/jsjson/structs.rs
index 34af409..8e24d77 100644
--- a/crates/vertigo-macro/src/jsjson/structs.rs
+++ b/crates/vertigo-macro/src/jsjson/structs.rs
@@ -58,6 +58,10 @@ pub(super) fn impl_js_json_struct(name: &Ident, data: &DataStruct) -> Result<Tok
 
         impl vertigo::JsJsonDeserialize for #name {
             fn from_json(context: vertigo::JsJsonContext, mut json: vertigo::JsJson) -> Result<Self, vertigo::JsJsonContext> {
+                if !matches!(&json, vertigo::JsJson::Object(_)) {
+                    return Err(context.add(["object expected, received ", json.typename()].concat()));
+                }
+
                 Ok(Self {
                     #(#list_from_json)*
                 })
-- 
2.43.0


From c86b5af098fb46c54a3ffd53520f6c9949b3a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 28/70] fix: reject numbers an integer type cannot represent

---
 .../src/driver_module/js_value/serialize.rs   | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/driver_module/js_value/serialize.rs b/crates/vertigo/src/driver_module/js_value/serialize.rs
index 0f6f99b..028c571 100644
--- a/crates/vertigo/src/driver_module/js_value/serialize.rs
+++ b/crates/vertigo/src/driver_module/js_value/serialize.rs
@@ -1,4 +1,5 @@
 use std::collections::{BTreeMap, HashMap};
+use std::ops::RangeBounds;
 use std::rc::Rc;
 
 use super::js_json_struct::JsJson;
@@ -77,6 +78,11 @@ impl JsJsonDeserialize for String {
     }
 }
 
+/// Fractions and numbers outside of the range can't be represented by the integer type
+fn is_integer(value: f64, range: impl RangeBounds<f64>) -> bool {
+    value.fract() == 0.0 && range.contains(&value)
+}
+
 impl JsJsonSerialize for u64 {
     fn to_json(self) -> JsJson {
         JsJson::Number(self as f64)
@@ -86,7 +92,12 @@ impl JsJsonSerialize for u64 {
 impl JsJsonDeserialize for u64 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as u64),
+            JsJson::Number(value) if is_integer(value, u64::MIN as f64..=u64::MAX as f64) => {
+                Ok(value as u64)
+            }
+            JsJson::Number(value) => {
+                Err(context.add(format!("number(u64) expected, received {value}")))
+            }
             other => {
                 let message = ["number(u64) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -104,7 +115,12 @@ impl JsJsonSerialize for i64 {
 impl JsJsonDeserialize for i64 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as i64),
+            JsJson::Number(value) if is_integer(value, i64::MIN as f64..=i64::MAX as f64) => {
+                Ok(value as i64)
+            }
+            JsJson::Number(value) => {
+                Err(context.add(format!("number(i64) expected, received {value}")))
+            }
             other => {
                 let message = ["number(i64) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -122,7 +138,12 @@ impl JsJsonSerialize for u32 {
 impl JsJsonDeserialize for u32 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as u32),
+            JsJson::Number(value) if is_integer(value, u32::MIN as f64..=u32::MAX as f64) => {
+                Ok(value as u32)
+            }
+            JsJson::Number(value) => {
+                Err(context.add(format!("number(u32) expected, received {value}")))
+            }
             other => {
                 let message = ["number(u32) expected, received ", other.typename()].concat();
                 Err(context.add(message))
@@ -140,7 +161,12 @@ impl JsJsonSerialize for i32 {
 impl JsJsonDeserialize for i32 {
     fn from_json(context: JsJsonContext, json: JsJson) -> Result<Self, JsJsonContext> {
         match json {
-            JsJson::Number(value) => Ok(value as i32),
+            JsJson::Number(value) if is_integer(value, i32::MIN as f64..=i32::MAX as f64) => {
+                Ok(value as i32)
+            }
+            JsJson::Number(value) => {
+                Err(context.add(format!("number(i32) expected, received {value}")))
+            }
             other => {
                 let message = ["number(i32) expected, received ", other.typename()].concat();
                 Err(context.add(message))
-- 
2.43.0


From 01489dada1ad68884c9e31d8c0c95590659bad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 29/70] fix: release elements with a loading indication

The class of an element held its loading callback, which in turn held the class.
---
 crates/vertigo/src/dom/dom_element_class.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/dom/dom_element_class.rs b/crates/vertigo/src/dom/dom_element_class.rs
index 6284b7c..c462ff3 100644
--- a/crates/vertigo/src/dom/dom_element_class.rs
+++ b/crates/vertigo/src/dom/dom_element_class.rs
@@ -117,12 +117,17 @@ impl DomElementClassMerge {
                 .dom
                 .dom_suspense
                 .set_layer_callback(state.id_dom, {
-                    let self_clone = self.clone();
+                    // The callback is held by the state it refreshes
+                    let inner = Rc::downgrade(&self.inner);
 
                     move |is_loading: bool| {
+                        let Some(inner) = inner.upgrade() else {
+                            return;
+                        };
+
                         let css = callback(is_loading);
 
-                        self_clone.inner.change(|state| {
+                        inner.change(|state| {
                             state.suspense_css = Some(css);
                             state.refresh_dom();
                         });
-- 
2.43.0


From 0cebaa1f87c0e15d8c4f416a69784b0efc669b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 30/70] fix: let the last declared loading indication of an
 element apply

---
 crates/vertigo/src/dom/dom_element_class.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/dom/dom_element_class.rs b/crates/vertigo/src/dom/dom_element_class.rs
index c462ff3..9ec8a4e 100644
--- a/crates/vertigo/src/dom/dom_element_class.rs
+++ b/crates/vertigo/src/dom/dom_element_class.rs
@@ -107,8 +107,12 @@ impl DomElementClassMerge {
 
     pub fn set_suspense_attr(&self, callback: Option<fn(bool) -> Css>) {
         self.inner.change(|state| {
+            // The previous indication ends before the next one is declared
+            state._suspense_drop = None;
+
             let Some(callback) = callback else {
-                state._suspense_drop = None;
+                state.suspense_css = None;
+                state.refresh_dom();
                 return;
             };
 
-- 
2.43.0


From 9530f5c42b6454b618ed6bb719c5f950e2ae3878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 31/70] fix: read strings, urls and non-latin characters in
 styles

Semicolons, colons and brackets inside of strings, comments and unquoted urls are
part of the value (data urls were cut), brackets are found by their byte position,
and a block may begin without a colon before it (@media print).
---
 .../vertigo/src/css/transform_css/splits.rs   | 99 ++++++++++++++-----
 1 file changed, 74 insertions(+), 25 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 7e00253..8316907 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -19,15 +19,12 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
     let mut row_side = RowSideState::Left;
     let mut start = 0;
 
-    for (index, char) in css.char_indices() {
+    for (index, char) in structural_chars(css) {
         if char == '{' {
-            if row_side == RowSideState::Right {
-                row_side = RowSideState::BracketsOpened(1);
-            } else if let RowSideState::BracketsOpened(counter) = &mut row_side {
+            if let RowSideState::BracketsOpened(counter) = &mut row_side {
                 *counter += 1;
             } else {
-                log::info!("css input: {css}");
-                panic!("unsupported use case at opening bracket");
+                row_side = RowSideState::BracketsOpened(1);
             }
         }
 
@@ -65,6 +62,74 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
     out.into_iter().filter(|item| item.trim() != "").collect()
 }
 
+// Characters (with their positions) outside of strings, comments, escapes and unquoted urls
+fn structural_chars(css: &str) -> impl DoubleEndedIterator<Item = (usize, char)> {
+    let mut out = Vec::new();
+    let mut index = 0;
+
+    while let Some(char) = css[index..].chars().next() {
+        let end = token_end(css, index, char);
+
+        if end == index + char.len_utf8() {
+            out.push((index, char));
+        }
+
+        index = end;
+    }
+
+    out.into_iter()
+}
+
+fn token_end(css: &str, index: usize, char: char) -> usize {
+    let rest = &css[index..];
+
+    let len = match char {
+        '\\' => 1 + rest[1..].chars().next().map_or(0, char::len_utf8),
+        '"' | '\'' => 1 + end_of(&rest[1..], char),
+        '/' if rest.starts_with("/*") => rest[2..].find("*/").map_or(rest.len(), |end| end + 4),
+        'u' | 'U' if is_url(css, index) => {
+            let content = rest[4..].trim_start();
+
+            if content.starts_with(['"', '\'']) {
+                4
+            } else {
+                4 + end_of(&rest[4..], ')')
+            }
+        }
+        _ => char.len_utf8(),
+    };
+
+    index + len
+}
+
+// Length of the text up to and including the first (not escaped) terminator
+fn end_of(text: &str, terminator: char) -> usize {
+    let mut escaped = false;
+
+    for (index, char) in text.char_indices() {
+        if escaped {
+            escaped = false;
+        } else if char == '\\' {
+            escaped = true;
+        } else if char == terminator {
+            return index + char.len_utf8();
+        }
+    }
+
+    text.len()
+}
+
+fn is_url(css: &str, index: usize) -> bool {
+    let is_prefix = css
+        .get(index..index + 4)
+        .is_some_and(|prefix| prefix.eq_ignore_ascii_case("url("));
+
+    let is_part_of_name = css[..index]
+        .ends_with(|char: char| char.is_alphanumeric() || char == '-' || char == '_');
+
+    is_prefix && !is_part_of_name
+}
+
 // Split rule into key and value
 pub fn css_row_split_to_pair(row: &str) -> Option<(&str, String)> {
     let chunks: Vec<&str> = row.split(':').collect();
@@ -80,26 +145,10 @@ pub fn css_row_split_to_pair(row: &str) -> Option<(&str, String)> {
 }
 
 pub fn find_brackets(line: &str) -> Option<(&str, &str, &str)> {
-    let mut start: Option<usize> = None;
-    let mut end: Option<usize> = None;
-
-    let chars: Vec<char> = line.chars().collect();
-
-    for (index, char) in chars.iter().enumerate() {
-        if *char == '{' {
-            start = Some(index);
-            break;
-        }
-    }
-
-    for (index, char) in chars.iter().enumerate().rev() {
-        if *char == '}' {
-            end = Some(index);
-            break;
-        }
-    }
+    let start = structural_chars(line).find(|(_, char)| *char == '{');
+    let end = structural_chars(line).rfind(|(_, char)| *char == '}');
 
-    if let (Some(start), Some(end)) = (start, end) {
+    if let (Some((start, _)), Some((end, _))) = (start, end) {
         let start_word = &line[0..start];
         let central_word = &line[start + 1..end];
         let end_word = &line[end + 1..];
-- 
2.43.0


From a78cf77aaceac26120979279f6bf401b5e5fedb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 32/70] fix: let media queries override the rules of their
 class

---
 crates/vertigo/src/css/css_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/css/css_manager.rs b/crates/vertigo/src/css/css_manager.rs
index d16084d..5665c68 100644
--- a/crates/vertigo/src/css/css_manager.rs
+++ b/crates/vertigo/src/css/css_manager.rs
@@ -29,7 +29,10 @@ impl CssManagerInner {
     }
 
     fn insert_css(&self, css: &str) -> u64 {
-        let (class_id, css_selectors) = transform_css(css, &self.next_id);
+        let (class_id, mut css_selectors) = transform_css(css, &self.next_id);
+
+        // The rules of the class itself, which come last, go first: media queries have to override them
+        css_selectors.rotate_right(1);
 
         for (selector, selector_data) in css_selectors {
             (self.insert_css)(&selector, &selector_data);
-- 
2.43.0


From 90243a619ef9d98a4c2d3dc5d63339d796808e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 33/70] fix: attach every selector of a list to the class of
 the style

---
 crates/vertigo/src/css/transform_css/mod.rs   |  8 ++++--
 .../vertigo/src/css/transform_css/splits.rs   | 26 +++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo/src/css/transform_css/mod.rs b/crates/vertigo/src/css/transform_css/mod.rs
index 40db079..638243d 100644
--- a/crates/vertigo/src/css/transform_css/mod.rs
+++ b/crates/vertigo/src/css/transform_css/mod.rs
@@ -1,7 +1,7 @@
 use super::{get_selector::get_selector, next_id::NextId};
 
 mod splits;
-use splits::{css_row_split_to_pair, css_split_rows, find_brackets};
+use splits::{css_row_split_to_pair, css_split_rows, find_brackets, split_selectors};
 
 #[cfg(test)]
 mod tests;
@@ -34,7 +34,11 @@ pub fn transform_css_selector_value(row: &str, parent_selector: &str) -> Option<
         if !trash.trim().is_empty() {
             log::error!("Unexpected input after pseudo-selector rule set, missing semi-colon?");
         }
-        let new_selector = [parent_selector, pseudo_selector].concat();
+        let new_selector = split_selectors(pseudo_selector)
+            .into_iter()
+            .map(|selector| [parent_selector, selector].concat())
+            .collect::<Vec<_>>()
+            .join(", ");
         return Some((new_selector, rules.into()));
     }
 
diff --git a/crates/vertigo/src/css/transform_css/splits.rs b/crates/vertigo/src/css/transform_css/splits.rs
index 8316907..3bf3add 100644
--- a/crates/vertigo/src/css/transform_css/splits.rs
+++ b/crates/vertigo/src/css/transform_css/splits.rs
@@ -62,6 +62,32 @@ pub fn css_split_rows(css: &str) -> Vec<&str> {
     out.into_iter().filter(|item| item.trim() != "").collect()
 }
 
+// Splits a list of selectors
+//
+// ":hover, :focus" -> [":hover", ":focus"]
+//
+pub fn split_selectors(selectors: &str) -> Vec<&str> {
+    let mut out: Vec<&str> = Vec::new();
+
+    let mut level = 0;
+    let mut start = 0;
+
+    for (index, char) in structural_chars(selectors) {
+        match char {
+            '(' | '[' => level += 1,
+            ')' | ']' => level -= 1,
+            ',' if level == 0 => {
+                out.push(selectors[start..index].trim());
+                start = index + 1;
+            }
+            _ => {}
+        }
+    }
+
+    out.push(selectors[start..].trim());
+    out
+}
+
 // Characters (with their positions) outside of strings, comments, escapes and unquoted urls
 fn structural_chars(css: &str) -> impl DoubleEndedIterator<Item = (usize, char)> {
     let mut out = Vec::new();
-- 
2.43.0


From 378157e61d291fe557b484609b79f1f4b7bc09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 34/70] fix: send pages without added whitespace

---
 crates/vertigo-cli/src/serve/html/html_response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_response.rs b/crates/vertigo-cli/src/serve/html/html_response.rs
index 8f3f545..9841fa0 100644
--- a/crates/vertigo-cli/src/serve/html/html_response.rs
+++ b/crates/vertigo-cli/src/serve/html/html_response.rs
@@ -113,7 +113,7 @@ impl HtmlResponse {
 
         if success {
             let document = HtmlDocument::new(root_html);
-            ResponseState::html(document.convert_to_string(true))
+            ResponseState::html(document.convert_to_string(false))
         } else {
             ResponseState::internal_error("Missing <body> element")
         }
-- 
2.43.0


From 4a9d493eb2064ad47fd968fd9b256ac70ee8df7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 35/70] fix: render void elements regardless of the case of
 their name

---
 crates/vertigo-cli/src/serve/html/html_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index 4e6aa22..3fb29c7 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -133,7 +133,7 @@ fn is_self_closing(element: &HtmlElement) -> bool {
         "source", "track", "wbr",
     ];
 
-    tags.contains(&element.name.as_str())
+    tags.iter().any(|tag| element.name.eq_ignore_ascii_case(tag))
 }
 
 fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
-- 
2.43.0


From 0a62de5637cc66f52dc28cb844ff049587c7bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:53 +0000
Subject: [PATCH 36/70] fix: render pages whose elements lose an attribute

---
 crates/vertigo-cli/src/serve/html/dom_command.rs |  6 ++++++
 crates/vertigo-cli/src/serve/html/element.rs     | 11 +++++++++++
 crates/vertigo-cli/src/serve/html/ordered_map.rs |  5 +++++
 3 files changed, 22 insertions(+)

diff --git a/crates/vertigo-cli/src/serve/html/dom_command.rs b/crates/vertigo-cli/src/serve/html/dom_command.rs
index 344bf43..c0dd597 100644
--- a/crates/vertigo-cli/src/serve/html/dom_command.rs
+++ b/crates/vertigo-cli/src/serve/html/dom_command.rs
@@ -16,6 +16,8 @@ pub enum DomCommand {
         name: String,
         value: String,
     },
+    #[serde(rename = "remove_attr")]
+    RemoveAttr { id: u64, name: String },
     #[serde(rename = "remove_node")]
     RemoveNode { id: u64 },
     #[serde(rename = "remove_text")]
@@ -68,6 +70,10 @@ impl JsJsonDeserialize for DomCommand {
                 name: json.get_property(&context, "name")?,
                 value: json.get_property(&context, "value")?,
             },
+            "remove_attr" => Self::RemoveAttr {
+                id: json.get_property(&context, "id")?,
+                name: json.get_property(&context, "name")?,
+            },
             "remove_node" => Self::RemoveNode {
                 id: json.get_property(&context, "id")?,
             },
diff --git a/crates/vertigo-cli/src/serve/html/element.rs b/crates/vertigo-cli/src/serve/html/element.rs
index dbb50f1..6d3c35a 100644
--- a/crates/vertigo-cli/src/serve/html/element.rs
+++ b/crates/vertigo-cli/src/serve/html/element.rs
@@ -67,6 +67,14 @@ impl AllElements {
         element.attr.set(name, value);
     }
 
+    fn remove_attr(&mut self, id: u64, name: &str) {
+        let Some(Node::Element(element)) = self.all.get_mut(&id) else {
+            unreachable!();
+        };
+
+        element.attr.remove(name);
+    }
+
     fn remove_from_parent(&mut self, child_id: u64) {
         let Some(parent_id) = self.parent.get(&child_id) else {
             return;
@@ -130,6 +138,9 @@ impl AllElements {
                 DomCommand::SetAttr { id, name, value } => {
                     self.set_attr(id, name, value);
                 }
+                DomCommand::RemoveAttr { id, name } => {
+                    self.remove_attr(id, &name);
+                }
                 DomCommand::RemoveNode { id } => {
                     self.remove(id);
                 }
diff --git a/crates/vertigo-cli/src/serve/html/ordered_map.rs b/crates/vertigo-cli/src/serve/html/ordered_map.rs
index 21f3e63..1a766f5 100644
--- a/crates/vertigo-cli/src/serve/html/ordered_map.rs
+++ b/crates/vertigo-cli/src/serve/html/ordered_map.rs
@@ -36,6 +36,11 @@ impl OrderedMap {
         }
     }
 
+    pub fn remove(&mut self, name: &str) {
+        self.data.remove(name);
+        self.order.retain(|item_name| item_name != name);
+    }
+
     pub fn get_iter(&self) -> Vec<(String, String)> {
         let mut result = Vec::new();
 
-- 
2.43.0


From 84f1ee8afd294764ab8983578733d712b06d0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 37/70] fix: keep text of script and style elements inside of
 them

---
 .../src/serve/html/html_element.rs            | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index 3fb29c7..555c2e6 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -68,6 +68,33 @@ fn attributes_to_string(attr: OrderedMap) -> String {
     line.concat()
 }
 
+/// The content of script and style elements is not decoded by browsers,
+/// so only the sequences which would end such an element too early (or prevent it from ending) are escaped.
+/// A backslash there does not change strings, neither in scripts nor in styles.
+fn encode_raw_text(el_name: &str, text: String) -> String {
+    let mut result = String::with_capacity(text.len());
+    let mut rest = text.as_str();
+
+    while let Some(pos) = rest.find('<') {
+        let (before, after) = rest.split_at(pos + 1);
+        result.push_str(before);
+
+        let ends_element = after.strip_prefix('/').is_some_and(|name| {
+            name.get(..el_name.len())
+                .is_some_and(|name| name.eq_ignore_ascii_case(el_name))
+        });
+
+        if ends_element || after.starts_with("!--") {
+            result.push('\\');
+        }
+
+        rest = after;
+    }
+
+    result.push_str(rest);
+    result
+}
+
 enum ChildMode {
     Child(Vec<HtmlNode>),
     Text(String),
@@ -172,7 +199,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                 ChildMode::Text(text) => {
                     let escaped_text =
                         if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {
-                            Cow::from(text)
+                            Cow::from(encode_raw_text(&element.name, text))
                         } else {
                             encode_safe(&text)
                         };
-- 
2.43.0


From 0fb267ee6014948faf3cc58e6821645bbef106c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 38/70] fix: keep a leading line break of preformatted elements

---
 .../src/serve/html/html_element.rs            | 23 ++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_element.rs b/crates/vertigo-cli/src/serve/html/html_element.rs
index 555c2e6..1b0ddf7 100644
--- a/crates/vertigo-cli/src/serve/html/html_element.rs
+++ b/crates/vertigo-cli/src/serve/html/html_element.rs
@@ -163,6 +163,19 @@ fn is_self_closing(element: &HtmlElement) -> bool {
     tags.iter().any(|tag| element.name.eq_ignore_ascii_case(tag))
 }
 
+/// Browsers drop a line break at the very beginning of these elements, so it needs to be doubled
+fn first_line_break(element_name: &str, text: &str) -> &'static str {
+    let drops_first = ["pre", "textarea", "listing"]
+        .iter()
+        .any(|tag| element_name.eq_ignore_ascii_case(tag));
+
+    if drops_first && text.starts_with(['\n', '\r']) {
+        "\n"
+    } else {
+        ""
+    }
+}
+
 fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
     let ident_str = ident.get();
 
@@ -181,8 +194,13 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
 
             match get_render_child_mode(element.children) {
                 ChildMode::Child(children) => {
+                    let line_break = match children.first() {
+                        Some(HtmlNode::Text(text)) => first_line_break(&element.name, text),
+                        _ => "",
+                    };
+
                     //open tag
-                    let line = [&ident_str, "<", &el_name, &attrs, ">"];
+                    let line = [&ident_str, "<", &el_name, &attrs, ">", line_break];
 
                     result.push(line.concat());
 
@@ -197,6 +215,8 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                     result.push(line.concat());
                 }
                 ChildMode::Text(text) => {
+                    let line_break = first_line_break(&element.name, &text);
+
                     let escaped_text =
                         if ["script", "style"].contains(&element.name.to_lowercase().as_str()) {
                             Cow::from(encode_raw_text(&element.name, text))
@@ -211,6 +231,7 @@ fn html_node_to_string(result: &mut Vec<String>, ident: Ident, node: HtmlNode) {
                         &el_name,
                         &attrs,
                         ">",
+                        line_break,
                         // content
                         &escaped_text,
                         //close tag
-- 
2.43.0


From 275e8f6f03f8eaa59a726e111fa949f18cbc9a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 39/70] fix: make requests of every method while rendering on
 the server

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 2a54bb1..20090a2 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -1,4 +1,4 @@
-use reqwest::Response;
+use reqwest::{Method, Response};
 use serde_json::{Map, Number, Value};
 use std::{
     collections::{HashMap, VecDeque},
@@ -178,14 +178,16 @@ fn get_response_type(response: &Response) -> ResponseType {
 async fn send_request_inner(request_params: Arc<FetchRequest>) -> Option<(u32, RequestBody)> {
     let client = reqwest::Client::new();
 
-    let mut request = match request_params.method.trim().to_lowercase().as_str() {
-        "get" => client.get(&request_params.url),
-        "post" => client.post(&request_params.url),
-        _ => {
-            unreachable!();
+    let method = match Method::from_bytes(request_params.method.trim().to_uppercase().as_bytes()) {
+        Ok(method) => method,
+        Err(error) => {
+            log::error!("Incorrect method {}: {error}", request_params.method);
+            return None;
         }
     };
 
+    let mut request = client.request(method, &request_params.url);
+
     let headers = clear_headers(&request_params.headers);
     let (headers, body) = get_headers_and_body(headers, &request_params.body);
 
-- 
2.43.0


From b60b7a0032dc06ce9356885f6ccc993d43991553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 40/70] fix: recognise equal requests regardless of the order
 of their headers

---
 crates/vertigo-cli/src/serve/wasm/message.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/message.rs b/crates/vertigo-cli/src/serve/wasm/message.rs
index 38425d9..31c5841 100644
--- a/crates/vertigo-cli/src/serve/wasm/message.rs
+++ b/crates/vertigo-cli/src/serve/wasm/message.rs
@@ -42,10 +42,10 @@ impl Hash for FetchRequest {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.method.hash(state);
         self.url.hash(state);
-        for (key, value) in self.headers.iter() {
-            key.hash(state);
-            value.hash(state);
-        }
+        // Equal maps may be iterated in different orders
+        let mut headers = self.headers.iter().collect::<Vec<_>>();
+        headers.sort();
+        headers.hash(state);
         self.body.hash(state);
     }
 }
-- 
2.43.0


From 66814aa19c4ebdc59a5dd9e662734475f0243337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 41/70] fix: send NaN and infinities as null in JSON bodies on
 the server

---
 crates/vertigo-cli/src/serve/html/send_request.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/html/send_request.rs b/crates/vertigo-cli/src/serve/html/send_request.rs
index 20090a2..0c96ef1 100644
--- a/crates/vertigo-cli/src/serve/html/send_request.rs
+++ b/crates/vertigo-cli/src/serve/html/send_request.rs
@@ -56,7 +56,10 @@ fn convert_to_jsvalue(value: JsJson) -> Value {
         JsJson::True => Value::Bool(true),
         JsJson::False => Value::Bool(false),
         JsJson::Null => Value::Null,
-        JsJson::Number(value) => Value::Number(Number::from_f64(value).unwrap()),
+        JsJson::Number(value) => {
+            // As in the browser - JSON has no representation of NaN and infinities
+            Number::from_f64(value).map_or(Value::Null, Value::Number)
+        }
         JsJson::String(value) => Value::String(value),
         JsJson::List(list) => {
             let list = list.into_iter().map(convert_to_jsvalue).collect::<Vec<_>>();
-- 
2.43.0


From 2d24cce24e3e659fc12457acb576e92753813ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 42/70] fix: answer with an error status when the program
 crashes on the server

---
 .../src/serve/html/html_response.rs           | 15 ++++----
 crates/vertigo-cli/src/serve/server_state.rs  | 34 ++++++++++++++-----
 .../src/serve/wasm/wasm_instance.rs           | 15 ++++----
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/html/html_response.rs b/crates/vertigo-cli/src/serve/html/html_response.rs
index 9841fa0..9815a6f 100644
--- a/crates/vertigo-cli/src/serve/html/html_response.rs
+++ b/crates/vertigo-cli/src/serve/html/html_response.rs
@@ -119,8 +119,9 @@ impl HtmlResponse {
         }
     }
 
-    pub fn process_message(&mut self, message: Message) -> Option<ResponseState> {
-        match message {
+    /// Returns an error if the wasm module has crashed while processing the message
+    pub fn process_message(&mut self, message: Message) -> Result<Option<ResponseState>, String> {
+        let response = match message {
             Message::TimeoutAndSendResponse => {
                 log::info!("timeout");
                 Some(self.build_response())
@@ -143,7 +144,7 @@ impl HtmlResponse {
                 Some(ResponseState::internal_error(message))
             }
             Message::SetTimeoutZero { callback_id } => {
-                let result = self.inst.wasm_callback(callback_id, JsValue::Undefined);
+                let result = self.inst.wasm_callback(callback_id, JsValue::Undefined)?;
                 assert_eq!(result, JsValue::Undefined);
                 None
             }
@@ -159,7 +160,7 @@ impl HtmlResponse {
                             callbacks.push(callback_id);
                         }
                         FetchStatus::Response { response } => {
-                            self.inst.send_fetch_response(callback_id, response.clone());
+                            self.inst.send_fetch_response(callback_id, response.clone())?;
                         }
                     }
                 } else {
@@ -193,7 +194,7 @@ impl HtmlResponse {
                     Some(state) => match state {
                         FetchStatus::Requested { callbacks } => {
                             for callback_id in callbacks {
-                                self.inst.send_fetch_response(callback_id, response.clone());
+                                self.inst.send_fetch_response(callback_id, response.clone())?;
                             }
                             FetchStatus::Response { response }
                         }
@@ -210,6 +211,8 @@ impl HtmlResponse {
             }
 
             Message::PlainResponse(body) => Some(ResponseState::plain(body)),
-        }
+        };
+
+        Ok(response)
     }
 }
diff --git a/crates/vertigo-cli/src/serve/server_state.rs b/crates/vertigo-cli/src/serve/server_state.rs
index 7653d70..146912c 100644
--- a/crates/vertigo-cli/src/serve/server_state.rs
+++ b/crates/vertigo-cli/src/serve/server_state.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use tokio::sync::mpsc::{error::TryRecvError, unbounded_channel};
+use tokio::sync::mpsc::{error::TryRecvError, unbounded_channel, UnboundedReceiver};
 use wasmtime::{Engine, Module};
 
 use crate::commons::spawn::SpawnOwner;
@@ -48,7 +48,9 @@ impl ServerState {
 
         let mut inst = WasmInstance::new(sender.clone(), &self.engine, &self.module, request);
 
-        inst.call_vertigo_entry_function();
+        if let Err(error) = inst.call_vertigo_entry_function() {
+            return crash_response(receiver, error);
+        }
 
         let spawn_resource = SpawnOwner::new({
             let sender = sender.clone();
@@ -67,10 +69,11 @@ impl ServerState {
 
             match message {
                 Ok(message) => {
-                    if let Some(response) = html_response.process_message(message) {
-                        return response;
-                    };
-                    continue;
+                    match html_response.process_message(message) {
+                        Ok(Some(response)) => return response,
+                        Ok(None) => continue,
+                        Err(error) => return crash_response(receiver, error),
+                    }
                 }
                 Err(TryRecvError::Empty) => {
                     //continue this iteration
@@ -87,9 +90,11 @@ impl ServerState {
             } else {
                 let message = receiver.recv().await;
                 if let Some(message) = message {
-                    if let Some(response) = html_response.process_message(message) {
-                        return response;
-                    };
+                    match html_response.process_message(message) {
+                        Ok(Some(response)) => return response,
+                        Ok(None) => {}
+                        Err(error) => return crash_response(receiver, error),
+                    }
                 }
             }
         }
@@ -99,6 +104,17 @@ impl ServerState {
     }
 }
 
+/// The wasm module has crashed, the message reported by its panic hook tells more than the trap itself
+fn crash_response(mut receiver: UnboundedReceiver<Message>, error: String) -> ResponseState {
+    while let Ok(message) = receiver.try_recv() {
+        if let Message::Panic(Some(message)) = message {
+            return ResponseState::internal_error(message);
+        }
+    }
+
+    ResponseState::internal_error(error)
+}
+
 fn build_module_wasm(engine: &Engine, mount_path: &MountPathConfig) -> Result<Module, i32> {
     let full_wasm_path = mount_path.translate_to_fs(&mount_path.wasm_path)?;
 
diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index f644adc..e93e618 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -162,38 +162,37 @@ impl WasmInstance {
             .map_err(|error| format!("{error}"))
     }
 
-    pub fn call_vertigo_entry_function(&mut self) {
+    pub fn call_vertigo_entry_function(&mut self) -> Result<(), String> {
         self.call_function::<(u32, u32), ()>(
             "vertigo_entry_function",
             (super::VERTIGO_VERSION_MAJOR, super::VERTIGO_VERSION_MINOR),
         )
-        .unwrap();
     }
 
-    pub fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> JsValue {
+    pub fn wasm_callback(&mut self, callback_id: u64, params: JsValue) -> Result<JsValue, String> {
         let mut data_context = DataContext::from_store(&mut self.store, self.instance);
         let params_ptr = data_context.save_value(params);
 
         let result = self
-            .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr))
-            .unwrap();
+            .call_function::<(u64, u32), u64>("wasm_callback", (callback_id, params_ptr))?;
 
         if result == 0 {
-            JsValue::Undefined
+            Ok(JsValue::Undefined)
         } else {
             //TODO - to implement
             todo!()
         }
     }
 
-    pub fn send_fetch_response(&mut self, callback_id: u64, response: FetchResponse) {
+    pub fn send_fetch_response(&mut self, callback_id: u64, response: FetchResponse) -> Result<(), String> {
         let params = JsValue::List(vec![
             JsValue::bool(response.success),
             JsValue::U32(response.status),
             convert_body_to_value(response.body),
         ]);
 
-        let result = self.wasm_callback(callback_id, params);
+        let result = self.wasm_callback(callback_id, params)?;
         assert_eq!(result, JsValue::Undefined);
+        Ok(())
     }
 }
-- 
2.43.0


From dfe8a94015e19c3ce6ab4d4cdbb7861236263de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 43/70] fix: send the page even if a request made at the start
 is never answered

---
 crates/vertigo/src/driver_module/dom.rs | 9 +++++++++
 crates/vertigo/src/lib.rs               | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/vertigo/src/driver_module/dom.rs b/crates/vertigo/src/driver_module/dom.rs
index 7705b31..1485eea 100644
--- a/crates/vertigo/src/driver_module/dom.rs
+++ b/crates/vertigo/src/driver_module/dom.rs
@@ -116,6 +116,10 @@ impl Commands {
         }
     }
 
+    fn stop_waiting(&self) {
+        self.state.set(StateInitiation::Ready);
+    }
+
     fn fetch_up(&self) {
         self.state.change(|state| {
             state.up();
@@ -287,6 +291,11 @@ impl DriverDom {
         self.commands.flush_dom_changes();
     }
 
+    /// Pass the changes on from now on, even if there are unanswered requests
+    pub fn stop_waiting(&self) {
+        self.commands.stop_waiting();
+    }
+
     pub fn node_parent(&self, node_id: DomId, callback: impl Fn(DomId) + 'static) -> DropResource {
         self.node_parent_callback.insert(node_id, Rc::new(callback));
 
diff --git a/crates/vertigo/src/lib.rs b/crates/vertigo/src/lib.rs
index 47ac574..5ae4b13 100644
--- a/crates/vertigo/src/lib.rs
+++ b/crates/vertigo/src/lib.rs
@@ -380,6 +380,12 @@ fn start_app_inner(root_view: DomNode) {
         state.set_root(root_view);
 
         state.driver.inner.api.on_fetch_stop.trigger(());
+
+        if state.driver.is_server() {
+            // The server itself decides how long it waits for responses
+            state.driver.inner.dom.stop_waiting();
+        }
+
         get_driver().inner.dom.flush_dom_changes();
     });
 }
-- 
2.43.0


From 9b47656de2e49b40999c9fbf9673cea9002a32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 44/70] fix: pass requests of every method through the proxy
 with their headers and body unchanged

---
 crates/vertigo-cli/src/serve/serve_run.rs | 142 ++++++++++------------
 1 file changed, 64 insertions(+), 78 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index ad0ea66..cfdd30f 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -1,13 +1,11 @@
 use axum::{
-    body::BoxBody,
-    extract::{Json, RawQuery, State},
-    http::{header::HeaderMap, HeaderValue, StatusCode, Uri},
-    response::Response,
-    routing::get,
+    body::{BoxBody, Bytes},
+    extract::{DefaultBodyLimit, RawQuery, State},
+    http::{header::HeaderMap, HeaderValue, Method, StatusCode, Uri},
+    response::{IntoResponse, Response},
     Router,
 };
 use reqwest::header;
-use serde_json::Value;
 use std::{
     sync::Arc,
     time::{Duration, Instant},
@@ -52,8 +50,10 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     let mut app = Router::new().nest_service(&serve_mount_path, serve_dir)
         .layer(axum::middleware::map_response(set_cache_header));
 
+    let client = reqwest::Client::new();
+
     for (path, target) in proxy {
-        app = install_proxy(app, path, target, ref_state.clone());
+        app = install_proxy(app, path, target, client.clone(), ref_state.clone());
     }
 
     let app = app.fallback(handler).with_state(ref_state.clone());
@@ -72,52 +72,51 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     Ok(())
 }
 
-async fn get_response(target_url: String) -> Response<BoxBody> {
-    let response = match reqwest::get(target_url.clone()).await {
-        Ok(response) => response,
-        Err(error) => {
-            let message = format!("Error fetching from url={target_url} error={error}");
-
-            let mut response = message.into_response();
-            *response.status_mut() = StatusCode::INTERNAL_SERVER_ERROR;
-
-            return response;
-        }
-    };
-
-    let headers = response.headers().clone();
-    let status = response.status();
-    let body = match response.bytes().await {
-        Ok(body) => body.to_vec(),
-        Err(error) => {
-            let message = format!("Error fetching body from url={target_url} error={error}");
-
-            let mut response = message.into_response();
-            *response.status_mut() = StatusCode::INTERNAL_SERVER_ERROR;
-
-            return response;
-        }
-    };
-
-    use axum::response::IntoResponse;
-    let mut response: Response<BoxBody> = body.into_response();
-
-    *response.headers_mut() = headers;
-    *response.status_mut() = status;
+/// Headers which describe a single connection, so these are not passed through the proxy
+fn remove_connection_headers(headers: &mut HeaderMap) {
+    let connection: Vec<String> = headers
+        .get_all(header::CONNECTION)
+        .iter()
+        .filter_map(|value| value.to_str().ok())
+        .flat_map(|value| value.split(','))
+        .map(|name| name.trim().to_lowercase())
+        .collect();
+
+    for name in connection {
+        headers.remove(name);
+    }
 
-    response
+    for name in [
+        "connection",
+        "keep-alive",
+        "proxy-connection",
+        "te",
+        "trailer",
+        "transfer-encoding",
+        "upgrade",
+    ] {
+        headers.remove(name);
+    }
 }
 
-async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> Response<BoxBody> {
-    let client = reqwest::Client::new();
-    let body = serde_json::to_vec(&body).unwrap();
-    let response = match client
-        .post(target_url.clone())
-        .headers(headers)
-        .body(body)
-        .send()
-        .await
-    {
+async fn proxy_response(
+    client: reqwest::Client,
+    target_url: String,
+    method: Method,
+    mut headers: HeaderMap,
+    body: Bytes,
+) -> Response<BoxBody> {
+    remove_connection_headers(&mut headers);
+    headers.remove(header::HOST);
+    headers.remove(header::EXPECT);
+    headers.remove(header::CONTENT_LENGTH);
+
+    let mut request = client.request(method, target_url.clone()).headers(headers);
+    if !body.is_empty() {
+        request = request.body(body);
+    }
+
+    let response = match request.send().await {
         Ok(response) => response,
         Err(error) => {
             let message = format!("Error fetching from url={target_url} error={error}");
@@ -129,7 +128,8 @@ async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> R
         }
     };
 
-    let headers = response.headers().clone();
+    let mut headers = response.headers().clone();
+    remove_connection_headers(&mut headers);
     let status = response.status();
     let body = match response.bytes().await {
         Ok(body) => body.to_vec(),
@@ -143,7 +143,6 @@ async fn post_response(target_url: String, headers: HeaderMap, body: Value) -> R
         }
     };
 
-    use axum::response::IntoResponse;
     let mut response: Response<BoxBody> = body.into_response();
 
     *response.headers_mut() = headers;
@@ -156,35 +155,22 @@ fn install_proxy(
     app: Router<Arc<RwLock<Arc<ServerState>>>>,
     path: String,
     target: String,
+    client: reqwest::Client,
     ref_state: Arc<RwLock<Arc<ServerState>>>,
 ) -> Router<Arc<RwLock<Arc<ServerState>>>> {
     let router = Router::new()
-        .fallback(
-            get({
-                let path = path.clone();
-                let target = target.clone();
-
-                move |url: Uri| async move {
-                    let from_url = format!("{path}{url}");
-                    let target_url = format!("{target}{url}");
-                    log::info!("proxy get {from_url} -> {target_url}");
-
-                    get_response(target_url).await
-                }
-            })
-            .post({
-                let path = path.clone();
-
-                move |url: Uri, headers: HeaderMap, body: Json<Value>| async move {
-                    let from_url = format!("{path}{url}");
-                    let target_url = format!("{target}{url}");
-                    let Json(body) = body;
-                    log::info!("proxy post {from_url} -> {target_url}");
-
-                    post_response(target_url, headers, body).await
-                }
-            }),
-        )
+        .fallback({
+            let path = path.clone();
+
+            move |url: Uri, method: Method, headers: HeaderMap, body: Bytes| async move {
+                let from_url = format!("{path}{url}");
+                let target_url = format!("{target}{url}");
+                log::info!("proxy {method} {from_url} -> {target_url}");
+
+                proxy_response(client, target_url, method, headers, body).await
+            }
+        })
+        .layer(DefaultBodyLimit::disable())
         .with_state(ref_state);
 
     app.nest_service(path.as_str(), router)
-- 
2.43.0


From f3ad60a7b325a57d3844304ca66a729379ed96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 45/70] fix: pass redirections of a proxied upstream to the
 browser

---
 crates/vertigo-cli/src/serve/serve_run.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index cfdd30f..8198a04 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -50,7 +50,14 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     let mut app = Router::new().nest_service(&serve_mount_path, serve_dir)
         .layer(axum::middleware::map_response(set_cache_header));
 
-    let client = reqwest::Client::new();
+    // The answers, including redirections, are passed to the browser as they are
+    let client = reqwest::Client::builder()
+        .redirect(reqwest::redirect::Policy::none())
+        .build()
+        .map_err(|error| {
+            log::error!("Error creating http client: {error}");
+            -1
+        })?;
 
     for (path, target) in proxy {
         app = install_proxy(app, path, target, client.clone(), ref_state.clone());
-- 
2.43.0


From e5ce022df7ac119e907d5bff74bdfd895804cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 46/70] fix: take the page over only after the answers took
 effect

---
 crates/vertigo/src/driver_module/dom.rs | 32 +++++++++++--------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/crates/vertigo/src/driver_module/dom.rs b/crates/vertigo/src/driver_module/dom.rs
index 1485eea..b90f0d0 100644
--- a/crates/vertigo/src/driver_module/dom.rs
+++ b/crates/vertigo/src/driver_module/dom.rs
@@ -33,27 +33,21 @@ impl StateInitiation {
         }
     }
 
-    ///
-    /// Returns true if we have gone to zero while decreasing
-    ///
-    pub fn down(&mut self) -> bool {
-        let send_commands = if let Self::Waiting { counter } = self {
+    pub fn down(&mut self) {
+        if let Self::Waiting { counter } = self {
             *counter -= 1;
-            *counter == 0
-        } else {
-            false
-        };
 
-        if send_commands {
-            *self = Self::Ready;
+            if *counter == 0 {
+                *self = Self::Ready;
+            }
         }
-
-        send_commands
     }
 }
 
 struct Commands {
     state: ValueMut<StateInitiation>,
+    // Requests which ended in the current transaction
+    stopped: Cell<u32>,
     api: ApiImport,
     commands: VecMut<DriverDomCommand>,
     // For testing/debuging purposes
@@ -65,6 +59,7 @@ impl Commands {
     pub fn new(api: &ApiImport) -> &'static Self {
         Box::leak(Box::new(Commands {
             state: ValueMut::new(StateInitiation::new()),
+            stopped: Cell::new(0),
             api: api.clone(),
             commands: VecMut::new(),
             log_enabled: Cell::new(false),
@@ -109,6 +104,10 @@ impl Commands {
     }
 
     fn flush_dom_changes(&self) {
+        for _ in 0..self.stopped.take() {
+            self.state.change(|state| state.down());
+        }
+
         let is_ready = self.state.map(|state| state.is_ready());
 
         if is_ready {
@@ -127,11 +126,8 @@ impl Commands {
     }
 
     fn fetch_down(&self) {
-        let send_commands = self.state.change(|state| state.down());
-
-        if send_commands {
-            self.flush_dom_changes_inner();
-        }
+        // The response takes effect when the transaction ends: it may start next requests
+        self.stopped.set(self.stopped.get() + 1);
     }
 }
 
-- 
2.43.0


From 6e4015141c25ec1d8a5efae19a0efaf416a1fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 47/70] fix: new refuses a destination whose content it cannot
 read

---
 crates/vertigo-cli/src/new/mod.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo-cli/src/new/mod.rs b/crates/vertigo-cli/src/new/mod.rs
index 5a71686..b5fcee9 100644
--- a/crates/vertigo-cli/src/new/mod.rs
+++ b/crates/vertigo-cli/src/new/mod.rs
@@ -1,6 +1,6 @@
 use clap::Args;
 use include_dir::{include_dir, Dir};
-use std::{fs, path::Path};
+use std::{fs, io::ErrorKind, path::Path};
 
 static TEMPLATE: Dir = include_dir!("$CARGO_MANIFEST_DIR/src/new/template");
 
@@ -17,11 +17,22 @@ pub fn run(opts: NewOpts) -> Result<(), i32> {
     let target_path = Path::new(&opts.dest_dir).join(&opts.package_name);
 
     // Check if dir is empty or non-existent
-    if let Ok(mut dir) = target_path.read_dir() {
-        if dir.next().is_some() {
+    match target_path.read_dir() {
+        Ok(mut dir) => {
+            if dir.next().is_some() {
+                log::error!(
+                    "Destination dir ({}) is not empty",
+                    target_path.to_string_lossy()
+                );
+                return Err(-1);
+            }
+        }
+        Err(err) if err.kind() == ErrorKind::NotFound => {}
+        Err(err) => {
             log::error!(
-                "Destination dir ({}) is not empty",
-                target_path.to_string_lossy()
+                "Can't check if destination dir ({}) is empty: {}",
+                target_path.to_string_lossy(),
+                err
             );
             return Err(-1);
         }
-- 
2.43.0


From 8de6cd340f4be6efacce22039ac189f73c7e4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:41 +0000
Subject: [PATCH 48/70] fix: build looks for the wasm file in the workspace's
 target directory

---
 crates/vertigo-cli/src/build/build_run.rs   |  6 +++---
 crates/vertigo-cli/src/build/cargo_build.rs |  7 ++++++-
 crates/vertigo-cli/src/build/find_target.rs | 20 +++++++++-----------
 3 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/crates/vertigo-cli/src/build/build_run.rs b/crates/vertigo-cli/src/build/build_run.rs
index 33346d0..502f4b3 100644
--- a/crates/vertigo-cli/src/build/build_run.rs
+++ b/crates/vertigo-cli/src/build/build_run.rs
@@ -4,7 +4,7 @@ use crate::commons::models::IndexModel;
 
 use super::{
     build_opts::BuildOpts,
-    cargo_build::run_cargo_build,
+    cargo_build::{get_target_path, run_cargo_build},
     cargo_workspace::{get_workspace, Workspace},
     wasm_opt::run_wasm_opt,
     wasm_path::WasmPath,
@@ -47,7 +47,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Delete rlibs to re-generate static files
 
-    find_package_rlib_in_target(&package_name).remove_file();
+    find_package_rlib_in_target(&get_target_path(ws), &package_name).remove_file();
 
     // Run build
 
@@ -80,7 +80,7 @@ pub fn run_with_ws(opts: BuildOpts, ws: &Workspace) -> Result<(), i32> {
 
     // Copy .wasm to destination
 
-    let wasm_path_target = find_wasm_in_target(&package_name);
+    let wasm_path_target = find_wasm_in_target(&target_path, &package_name);
     let wasm_path = opts.new_path_in_static_from(&wasm_path_target);
 
     // Optimize .wasm
diff --git a/crates/vertigo-cli/src/build/cargo_build.rs b/crates/vertigo-cli/src/build/cargo_build.rs
index 82600bd..6318a8c 100644
--- a/crates/vertigo-cli/src/build/cargo_build.rs
+++ b/crates/vertigo-cli/src/build/cargo_build.rs
@@ -7,6 +7,11 @@ use super::Workspace;
 const TARGET: &str = "wasm32-unknown-unknown";
 const MODE: &str = "release";
 
+/// Directory with the results of the build
+pub fn get_target_path(ws: &Workspace) -> PathBuf {
+    ws.get_target_dir().join(TARGET).join(MODE)
+}
+
 pub fn run_cargo_build(
     package_name: &str,
     public_path: &str,
@@ -26,7 +31,7 @@ pub fn run_cargo_build(
         .output_with_status();
 
     if status.success() {
-        Ok(ws.get_target_dir().join(TARGET).join(MODE))
+        Ok(get_target_path(ws))
     } else {
         Err(output)
     }
diff --git a/crates/vertigo-cli/src/build/find_target.rs b/crates/vertigo-cli/src/build/find_target.rs
index 49a2cb4..370348e 100644
--- a/crates/vertigo-cli/src/build/find_target.rs
+++ b/crates/vertigo-cli/src/build/find_target.rs
@@ -1,19 +1,17 @@
-use std::path::PathBuf;
+use std::path::Path;
 
 use super::wasm_path::WasmPath;
 
-pub fn find_wasm_in_target(package_name: &str) -> WasmPath {
+pub fn find_wasm_in_target(target_path: &Path, package_name: &str) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/{wasm_file_name}.wasm"
-    ));
-    WasmPath::new(path)
+    WasmPath::new(target_path.join(format!("{wasm_file_name}.wasm")))
 }
 
-pub fn find_package_rlib_in_target(package_name: &str) -> WasmPath {
+pub fn find_package_rlib_in_target(target_path: &Path, package_name: &str) -> WasmPath {
     let wasm_file_name = package_name.replace('-', "_");
-    let path = PathBuf::from(format!(
-        "target/wasm32-unknown-unknown/release/deps/lib{wasm_file_name}.rlib"
-    ));
-    WasmPath::new(path)
+    WasmPath::new(
+        target_path
+            .join("deps")
+            .join(format!("lib{wasm_file_name}.rlib")),
+    )
 }
-- 
2.43.0


From 3cab75ab4be5dac1cf739a0df0323d9b1f371a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 49/70] fix: include_static accepts files without an extension

---
 crates/vertigo-macro/src/wasm_path.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo-macro/src/wasm_path.rs b/crates/vertigo-macro/src/wasm_path.rs
index 325bc0a..c816401 100644
--- a/crates/vertigo-macro/src/wasm_path.rs
+++ b/crates/vertigo-macro/src/wasm_path.rs
@@ -32,12 +32,10 @@ impl WasmPath {
             .into_owned()
     }
 
-    pub fn file_extension(&self) -> String {
+    pub fn file_extension(&self) -> Option<String> {
         self.path
             .extension()
-            .unwrap()
-            .to_string_lossy()
-            .into_owned()
+            .map(|extension| extension.to_string_lossy().into_owned())
     }
 
     pub fn save(&self, content: &[u8]) {
@@ -51,10 +49,12 @@ impl WasmPath {
     pub fn save_with_hash(&self, content: &[u8]) -> String {
         let file_name = self.file_stem();
         let hash = get_hash(content);
-        let file_ext = self.file_extension();
 
         let parent = self.path.parent().unwrap();
-        let target_file_name = format!("{file_name}.{hash}.{file_ext}");
+        let target_file_name = match self.file_extension() {
+            Some(file_ext) => format!("{file_name}.{hash}.{file_ext}"),
+            None => format!("{file_name}.{hash}"),
+        };
         let target_path = Self::new(parent.join(&target_file_name));
 
         target_path.save(content);
-- 
2.43.0


From a247709c06a96320f8b3e48d0eaf8997477aff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:51 +0000
Subject: [PATCH 50/70] fix: include_static stores files where build collects
 them, CARGO_TARGET_DIR or not

---
 crates/vertigo-macro/src/include_static.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/vertigo-macro/src/include_static.rs b/crates/vertigo-macro/src/include_static.rs
index 88e27aa..779f76b 100644
--- a/crates/vertigo-macro/src/include_static.rs
+++ b/crates/vertigo-macro/src/include_static.rs
@@ -39,16 +39,18 @@ fn bundle_file(mut file_path: PathBuf, file: String) -> Result<String, String> {
         // Intermediate directory
         let file_name = file_path.file_name();
         let file_static_target = {
-            let mut target_path = WasmPath::new(PathBuf::from(
-                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| {
-                    format!(
-                        "target/{}/release",
-                        std::env::var("TARGET")
-                            .unwrap_or_else(|_| "wasm32-unknown-unknown".to_string())
-                    )
-                }),
-            ));
-            target_path.push(&["static", "included", file_name.as_str()]);
+            let target_dir =
+                std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "target".to_string());
+            let target = std::env::var("TARGET")
+                .unwrap_or_else(|_| "wasm32-unknown-unknown".to_string());
+            let mut target_path = WasmPath::new(PathBuf::from(target_dir));
+            target_path.push(&[
+                target.as_str(),
+                "release",
+                "static",
+                "included",
+                file_name.as_str(),
+            ]);
             target_path
         };
 
-- 
2.43.0


From 18a08b3b74c67784a78dbf82a7bf0441c3c16a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 51/70] fix: css! expressions inside values keep the text
 around them

---
 crates/vertigo-macro/src/css.pest      |  6 ++++--
 crates/vertigo-macro/src/css_parser.rs | 16 ++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/crates/vertigo-macro/src/css.pest b/crates/vertigo-macro/src/css.pest
index 1bf91a0..5025785 100644
--- a/crates/vertigo-macro/src/css.pest
+++ b/crates/vertigo-macro/src/css.pest
@@ -274,10 +274,12 @@ unknown_rule = {
 }
 
 rule_ident = { (ASCII_ALPHA_LOWER | "@" | "-" ) ~ (ASCII_ALPHA_LOWER | "-")+ }
-value = _{ url_value | (simple_value)+ }
+value = _{ (url_value | simple_value)+ }
 simple_value = _{ expression | color_value | unquoted_value | quoted_value }
 
-unquoted_value = { (!semicolon ~ ANY)+ }
+unquoted_value = { (quoted_text | (!(semicolon | brace_left) ~ ANY))+ }
+quoted_text = _{ (singlequote ~ (escaped | !singlequote ~ ANY)* ~ singlequote) | (doublequote ~ (escaped | !doublequote ~ ANY)* ~ doublequote) }
+escaped = _{ "\\" ~ ANY }
 quoted_value = { PUSH(quote) ~ (!PEEK ~ ANY)+ ~ POP }
 
 color_value = { hexa_value | hex_value | rgba_value | rgb_value | hsla_value | hsl_value }
diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 1366cdf..6ce4041 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -110,9 +110,16 @@ impl CssParser {
         let rule_ident = pairs.next().unwrap();
 
         let ident_str = rule_ident.as_str();
-        let mut value_strs = Vec::new();
+        let mut value_text = String::new();
+        let mut value_end = None;
 
         for value in pairs {
+            // Keep the values apart only if they are apart in the source
+            if value_end.is_some_and(|end| end < value.as_span().start()) {
+                value_text.push(' ');
+            }
+            value_end = Some(value.as_span().end());
+
             let value_str = match value.as_rule() {
                 Rule::color_value => value.as_str().to_string(),
                 Rule::unquoted_value => value.as_str().to_string(),
@@ -144,13 +151,10 @@ impl CssParser {
                     "".to_string()
                 }
             };
-            value_strs.push(value_str);
+            value_text.push_str(&value_str);
         }
 
-        format!(
-            "{ident_str}: {};",
-            value_strs.join(" ").replace("} px", "}px")
-        )
+        format!("{ident_str}: {value_text};")
     }
 
     fn generate_animation_rule(&mut self, pair: Pair<Rule>) -> String {
-- 
2.43.0


From 021d61f84d4cc6a1e0b05593be2ec92080ba05bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 52/70] fix: css! with nineteen different expressions used the
 keyword 'as' as a key

---
 crates/vertigo-macro/src/css_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index 6ce4041..c7bcbdf 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -271,7 +271,8 @@ impl Default for ParamsEnumerator {
                 (0..2)
                     .map(|_| (b'a'..=b'z'))
                     .multi_cartesian_product()
-                    .map(|letters| String::from_utf8(letters).unwrap()),
+                    // underscore keeps the key different from keywords
+                    .map(|letters| String::from_utf8(letters).unwrap() + "_"),
             ),
             params: HashMap::default(),
         }
-- 
2.43.0


From d454cb9981fddaae2f6513c5641beae2b5b1d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 53/70] fix: css! reference to a style of several groups gave a
 broken selector

---
 crates/vertigo-macro/src/css_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-macro/src/css_parser.rs b/crates/vertigo-macro/src/css_parser.rs
index c7bcbdf..3cc51b8 100644
--- a/crates/vertigo-macro/src/css_parser.rs
+++ b/crates/vertigo-macro/src/css_parser.rs
@@ -316,7 +316,8 @@ pub(crate) fn generate_css_string(input: TokenStream) -> (TokenStream2, bool, To
                 #replacements
                 let css_output = css_output.replace(
                     &["[", #ref_str, "]"].concat(),
-                    &[".", &vertigo::get_driver().class_name_for(&#reference)].concat(),
+                    // style composed of several groups has several classes
+                    &[".", &vertigo::get_driver().class_name_for(&#reference).replace(' ', ".")].concat(),
                 );
             };
         }
-- 
2.43.0


From d8744c8aa33ff3ba666e45d452c6302a36232876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 54/70] fix: bind_spawn! moved variables named by a field path
 out of their owner

---
 crates/vertigo-macro/src/bind.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-macro/src/bind.rs b/crates/vertigo-macro/src/bind.rs
index 4d946b1..818261c 100644
--- a/crates/vertigo-macro/src/bind.rs
+++ b/crates/vertigo-macro/src/bind.rs
@@ -71,6 +71,15 @@ pub(crate) fn bind_spawn_inner(input: TokenStream) -> Result<TokenStream, String
         body,
     } = split_params_and_body(tokens.as_slice())?;
 
+    // The future uses clones made by the closure, not the original variables
+    let Some(param_names) = bind_params
+        .iter()
+        .map(|item| find_param_name(item))
+        .collect::<Option<Vec<_>>>()
+    else {
+        return Ok(quote! {""}.into());
+    };
+
     let bind_params: Vec<TokenStream2> = bind_params
         .into_iter()
         .map(convert_tokens_to_stream)
@@ -81,7 +90,7 @@ pub(crate) fn bind_spawn_inner(input: TokenStream) -> Result<TokenStream, String
     Ok(quote! {
         {
             vertigo::bind!(#(#bind_params,)* || {
-                vertigo::get_driver().spawn(vertigo::bind!(#(#bind_params,)* #body));
+                vertigo::get_driver().spawn(vertigo::bind!(#(#param_names,)* #body));
             })
         }
     }
-- 
2.43.0


From f65b18a65e40ec5ecb31c47fcd93ceb40aa7af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:19 +0000
Subject: [PATCH 55/70] fix: window! and document! use the value of the
 literal, not its spelling

---
 crates/vertigo-macro/src/api_access.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-macro/src/api_access.rs b/crates/vertigo-macro/src/api_access.rs
index 53f3327..e5ffafa 100644
--- a/crates/vertigo-macro/src/api_access.rs
+++ b/crates/vertigo-macro/src/api_access.rs
@@ -19,8 +19,8 @@ pub(crate) fn api_access_inner(root: &str, input: TokenStream) -> TokenStream {
         Expr::Lit(expr_lit) => {
             match expr_lit.lit {
                 Lit::Str(param_lit) => {
-                    let param_repr = param_lit.token().to_string();
-                    let param_str = param_repr.trim_matches('"');
+                    let param_value = param_lit.value();
+                    let param_str = param_value.as_str();
                     if let Some(func_name) = param_str.strip_suffix("()") {
                         // Function call
                         let mut args = vec![];
-- 
2.43.0


From 78121f10ce9692317b077d563a194f911fe86963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 56/70] fix: watch listened for the browser on port 5555
 whatever --port-watch said

---
 crates/vertigo-cli/src/watch/watch_run.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index b0a7d48..a555c68 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -110,8 +110,10 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
             .with(cors_middleware)
             .data(rx);
 
+        let address = format!("127.0.0.1:{}", opts.port_watch);
+
         async move {
-            Server::new(TcpListener::bind("127.0.0.1:5555"))
+            Server::new(TcpListener::bind(address))
                 .run(app)
                 .await
         }
-- 
2.43.0


From 5084179769104273d86fee8d4c5c5679fb3bd052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 57/70] fix: watch never announced a new version when --host
 was not served at 127.0.0.1

---
 crates/vertigo-cli/src/watch/is_http_server_listening.rs | 4 ++--
 crates/vertigo-cli/src/watch/watch_run.rs                | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo-cli/src/watch/is_http_server_listening.rs b/crates/vertigo-cli/src/watch/is_http_server_listening.rs
index 2148c53..862985d 100644
--- a/crates/vertigo-cli/src/watch/is_http_server_listening.rs
+++ b/crates/vertigo-cli/src/watch/is_http_server_listening.rs
@@ -1,9 +1,9 @@
-pub async fn is_http_server_listening(port: u16) -> Result<(), ()> {
+pub async fn is_http_server_listening(host: &str, port: u16) -> Result<(), ()> {
     use tokio::io::AsyncReadExt;
     use tokio::io::AsyncWriteExt;
     use tokio::net::TcpStream;
 
-    match TcpStream::connect(("127.0.0.1", port)).await {
+    match TcpStream::connect(format!("{host}:{port}")).await {
         Ok(mut stream) => {
             // Send a HEAD request to the HTTP server
             match stream.write_all(b"HEAD / HTTP/1.0\r\n\r\n").await {
diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index a555c68..a80f22c 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -161,10 +161,13 @@ fn build_and_watch(
             Ok(()) => {
                 log::info!("build run ok");
 
+                let host = opts.serve.host.clone();
+                let port = opts.serve.port;
+
                 let check_spawn = SpawnOwner::new(async move {
                     let _ = Retry::spawn(
                         FibonacciBackoff::from_millis(100).max_delay(Duration::from_secs(4)),
-                        || is_http_server_listening(opts.serve.port),
+                        || is_http_server_listening(&host, port),
                     )
                     .await;
 
-- 
2.43.0


From eb3bd950022d40888f0cd7381e95ba5cb819e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 58/70] fix: watch rebuilt endlessly when the destination or
 target folder lay in a watched folder

---
 crates/vertigo-cli/src/watch/watch_run.rs | 27 ++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index a80f22c..11ee350 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -2,7 +2,7 @@ use notify::RecursiveMode;
 use poem::http::Method;
 use poem::middleware::Cors;
 use poem::{get, listener::TcpListener, EndpointExt, Route, Server};
-use std::path::Path;
+use std::path::{Component, Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::watch::Sender;
@@ -58,7 +58,11 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
         return Err(-1);
     };
 
-    let excludes = [path.join("target"), path.join(opts.common.dest_dir.clone())];
+    let excludes = [
+        path.join("target"),
+        ws.get_target_dir(),
+        absolute_path(Path::new(&opts.common.dest_dir)),
+    ];
 
     let notify_build = Arc::new(Notify::new());
 
@@ -125,7 +129,7 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
     for watch_path in &opts.add_watch_path {
         log::info!("Adding `{watch_path}` to watched directories");
         watcher
-            .watch(Path::new(watch_path), RecursiveMode::Recursive)
+            .watch(&absolute_path(Path::new(watch_path)), RecursiveMode::Recursive)
             .expect("Error adding watch dir");
     }
     let mut version = 0;
@@ -146,6 +150,23 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
     }
 }
 
+/// Path without `.` and `..`, relative to the current directory, to be compared with paths of events
+fn absolute_path(path: &Path) -> PathBuf {
+    let mut result = std::env::current_dir().unwrap_or_default();
+
+    for component in path.components() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir => {
+                result.pop();
+            }
+            component => result.push(component),
+        }
+    }
+
+    result
+}
+
 fn build_and_watch(
     version: u32,
     tx: Arc<Sender<Status>>,
-- 
2.43.0


From 9f8b0f22b2d99578e2545059492b4d2fb27c7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 59/70] fix: watch served a superseded build instead of the
 newest one

---
 crates/vertigo-cli/src/serve/serve_run.rs |  3 +++
 crates/vertigo-cli/src/watch/watch_run.rs | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/serve_run.rs b/crates/vertigo-cli/src/serve/serve_run.rs
index 8198a04..b976b4d 100644
--- a/crates/vertigo-cli/src/serve/serve_run.rs
+++ b/crates/vertigo-cli/src/serve/serve_run.rs
@@ -33,6 +33,9 @@ pub async fn run(opts: ServeOpts, port_watch: Option<u16>) -> Result<(), i32> {
     let mount_path = MountPathConfig::new(opts.common.dest_dir)?;
     let state = Arc::new(ServerState::new(mount_path, port_watch, env)?);
 
+    // Stop here if in the meantime (in watch mode) a newer version has been requested
+    tokio::task::yield_now().await;
+
     let ref_state = STATE
         .get_or_init({
             let state = state.clone();
diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index 11ee350..1f51043 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -6,7 +6,8 @@ use std::path::{Component, Path, PathBuf};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::watch::Sender;
-use tokio::sync::Notify;
+use tokio::sync::{Mutex, Notify};
+use tokio::task::yield_now;
 use tokio::time::sleep;
 use tokio_retry::{strategy::FibonacciBackoff, Retry};
 
@@ -133,6 +134,7 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
             .expect("Error adding watch dir");
     }
     let mut version = 0;
+    let build_lock = Arc::new(Mutex::new(()));
 
     loop {
         version += 1;
@@ -144,7 +146,7 @@ pub async fn run(mut opts: WatchOpts) -> Result<(), i32> {
 
         log::info!("build run ...");
 
-        let spawn = build_and_watch(version, tx.clone(), &opts, &ws);
+        let spawn = build_and_watch(version, tx.clone(), &opts, &ws, build_lock.clone());
         notify_build.notified().await;
         spawn.off();
     }
@@ -172,13 +174,22 @@ fn build_and_watch(
     tx: Arc<Sender<Status>>,
     opts: &WatchOpts,
     ws: &Workspace,
+    build_lock: Arc<Mutex<()>>,
 ) -> SpawnOwner {
     let opts = opts.clone();
     let ws = ws.clone();
     SpawnOwner::new(async move {
         sleep(Duration::from_millis(200)).await;
 
-        match crate::build::run_with_ws(opts.to_build_opts(), &ws) {
+        // A build which has been started can't be interrupted
+        let guard = build_lock.lock().await;
+        let result = crate::build::run_with_ws(opts.to_build_opts(), &ws);
+        drop(guard);
+
+        // Stop here if something was changed in the meantime
+        yield_now().await;
+
+        match result {
             Ok(()) => {
                 log::info!("build run ok");
 
-- 
2.43.0


From 1e5f6a6976b6d5517aa92c72b36c92494a0a4649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 60/70] fix: watch script was inserted at every </body> of the
 page, also in scripts and attributes

---
 crates/vertigo-cli/src/serve/response_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/serve/response_state.rs b/crates/vertigo-cli/src/serve/response_state.rs
index 0990b57..a34a8e7 100644
--- a/crates/vertigo-cli/src/serve/response_state.rs
+++ b/crates/vertigo-cli/src/serve/response_state.rs
@@ -69,9 +69,11 @@ impl ResponseState {
             ];
 
             // Usually body tag is in the response, but better be prepared
-            if self.body.contains("</body>") {
+            // (the last one, as the text may also occur in scripts and attributes)
+            if let Some(position) = self.body.rfind("</body>") {
                 let script = chunks[1..6].join("\n");
-                self.body = self.body.replace("</body>", &script);
+                self.body
+                    .replace_range(position..position + "</body>".len(), &script);
             } else {
                 self.body = chunks[0..5].join("\n");
             }
-- 
2.43.0


From 934a86a45d9d8a48940e34a89f22bc2bfe67743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:15 +0000
Subject: [PATCH 61/70] fix: page opened during a build kept its message and
 did not reload when the build was done

---
 crates/vertigo-cli/src/serve/watch.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/watch.js b/crates/vertigo-cli/src/serve/watch.js
index 5ba5318..f6517aa 100644
--- a/crates/vertigo-cli/src/serve/watch.js
+++ b/crates/vertigo-cli/src/serve/watch.js
@@ -26,7 +26,8 @@ function start_watch(url) {
             return;
         }
 
-        if (last_message === null) {
+        // The build which has been announced to this page is newer than the page
+        if (last_message === null && building_message === null) {
             console.info(`Watch - init version ${message}`);
             last_message = message;
             return;
-- 
2.43.0


From f48a966bc62497d2cea13c546d40e483a85e6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 62/70] fix: elapsed time of an instant crashed (or wrapped
 around) after the clock was set back

---
 crates/vertigo/src/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo/src/instant.rs b/crates/vertigo/src/instant.rs
index b676f54..0f83f22 100644
--- a/crates/vertigo/src/instant.rs
+++ b/crates/vertigo/src/instant.rs
@@ -28,7 +28,8 @@ impl Instant {
     }
 
     pub fn elapsed(&self) -> InstantType {
-        self.api.instant_now() - self.instant
+        // The clock of the system may have been set back in the meantime
+        self.api.instant_now().saturating_sub(self.instant)
     }
 
     pub fn seconds_elapsed(&self) -> InstantType {
-- 
2.43.0


From 2fc0ca7af08ad05b55e603e1ee66326f8a4afe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 63/70] fix: get_random crashed when the number drawn was above
 the range of i32

---
 .../vertigo/src/driver_module/api/api_import.rs   | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/vertigo/src/driver_module/api/api_import.rs b/crates/vertigo/src/driver_module/api/api_import.rs
index 0bd0519..bc03df0 100644
--- a/crates/vertigo/src/driver_module/api/api_import.rs
+++ b/crates/vertigo/src/driver_module/api/api_import.rs
@@ -659,12 +659,15 @@ impl ApiImport {
             .call("getRandom", vec![JsValue::U32(min), JsValue::U32(max)])
             .fetch();
 
-        if let JsValue::I32(result) = result {
-            result as u32
-        } else {
-            self.panic_message
-                .show(format!("api.get_random -> incorrect result {result:?}"));
-            min
+        match result {
+            JsValue::I32(result) => result as u32,
+            // Numbers which do not fit in i32
+            JsValue::F64(result) => result as u32,
+            _ => {
+                self.panic_message
+                    .show(format!("api.get_random -> incorrect result {result:?}"));
+                min
+            }
         }
     }
 
-- 
2.43.0


From 4dc365f28978bd3a80c0d035080247d12a2da3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 64/70] fix: get_random and timezone_offset on the server made
 the page fail

---
 .../src/serve/wasm/decode_commands.rs         | 40 ++++++++++++++++++-
 .../src/serve/wasm/wasm_instance.rs           |  8 ++++
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
index 504795c..2b0f667 100644
--- a/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
+++ b/crates/vertigo-cli/src/serve/wasm/decode_commands.rs
@@ -1,4 +1,5 @@
-use std::collections::HashMap;
+use std::collections::{hash_map::RandomState, HashMap};
+use std::hash::{BuildHasher, Hasher};
 use vertigo::{from_json, JsJson, JsValue};
 
 use crate::serve::html::RequestBody;
@@ -150,6 +151,43 @@ pub fn match_date_now(arg: &JsValue) -> Result<JsValue, ()> {
     Ok(JsValue::I64(time as i64))
 }
 
+pub fn match_get_random(arg: &JsValue) -> Result<JsValue, ()> {
+    let matcher = Match::new(arg)?;
+    let matcher = matcher.test_list(&["api"])?;
+    let (matcher, (min, max)) =
+        matcher.test_list_with_fn(|matcher: Match| -> Result<(u32, u32), ()> {
+            let matcher = matcher.str("call")?;
+            let matcher = matcher.str("getRandom")?;
+            let (matcher, min) = matcher.u32()?;
+            let (matcher, max) = matcher.u32()?;
+            matcher.end()?;
+
+            Ok((min, max))
+        })?;
+    matcher.end()?;
+
+    let range = max.saturating_sub(min) as u64 + 1;
+    let random = RandomState::new().build_hasher().finish();
+    let offset = (random % range) as u32;
+
+    // The same type of value as in the browser
+    let result = min + offset;
+    Ok(match i32::try_from(result) {
+        Ok(result) => JsValue::I32(result),
+        Err(_) => JsValue::F64(result as f64),
+    })
+}
+
+/// There is no browser, so no time zone is known, the server renders in UTC
+pub fn match_timezone_offset(arg: &JsValue) -> Result<JsValue, ()> {
+    let matcher = Match::new(arg)?;
+    let matcher = matcher.test_list(&["api"])?;
+    let matcher = matcher.test_list(&["call", "getTimezoneOffset"])?;
+    matcher.end()?;
+
+    Ok(JsValue::I32(0))
+}
+
 pub fn match_websocket(arg: &JsValue) -> Result<(), ()> {
     let matcher = Match::new(arg)?;
 
diff --git a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
index e93e618..be47928 100644
--- a/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
+++ b/crates/vertigo-cli/src/serve/wasm/wasm_instance.rs
@@ -97,6 +97,14 @@ impl WasmInstance {
                         return data_context.save_value(current_time);
                     }
 
+                    if let Ok(random) = match_get_random(&value) {
+                        return data_context.save_value(random);
+                    }
+
+                    if let Ok(offset) = match_timezone_offset(&value) {
+                        return data_context.save_value(offset);
+                    }
+
                     if let Ok(result) = match_interval(&value) {
                         match result {
                             CallWebsocketResult::TimeoutSet { time, callback_id } => {
-- 
2.43.0


From a3636ae5eb3286aa94af2ec09892bb51f6baf4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 65/70] fix: watch server of messages stood still during a
 build

---
 crates/vertigo-cli/src/watch/watch_run.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/vertigo-cli/src/watch/watch_run.rs b/crates/vertigo-cli/src/watch/watch_run.rs
index 1f51043..21b09a9 100644
--- a/crates/vertigo-cli/src/watch/watch_run.rs
+++ b/crates/vertigo-cli/src/watch/watch_run.rs
@@ -7,7 +7,7 @@ use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::watch::Sender;
 use tokio::sync::{Mutex, Notify};
-use tokio::task::yield_now;
+use tokio::task::{block_in_place, yield_now};
 use tokio::time::sleep;
 use tokio_retry::{strategy::FibonacciBackoff, Retry};
 
@@ -183,7 +183,8 @@ fn build_and_watch(
 
         // A build which has been started can't be interrupted
         let guard = build_lock.lock().await;
-        let result = crate::build::run_with_ws(opts.to_build_opts(), &ws);
+        // and must not keep the server of messages from working
+        let result = block_in_place(|| crate::build::run_with_ws(opts.to_build_opts(), &ws));
         drop(guard);
 
         // Stop here if something was changed in the meantime
-- 
2.43.0


From d7997aea834fb30d066d0e95312a67acc5560c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 66/70] fix: a value with a connection routine was never
 released

---
 crates/vertigo/src/computed/value.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/vertigo/src/computed/value.rs b/crates/vertigo/src/computed/value.rs
index 05b3b39..b280185 100644
--- a/crates/vertigo/src/computed/value.rs
+++ b/crates/vertigo/src/computed/value.rs
@@ -94,13 +94,18 @@ impl<T: Clone + 'static> Value<T> {
             }),
         };
 
-        let computed = value.to_computed();
+        // The connection routine must not keep the value alive, it is unregistered when the value is dropped
+        let weak_inner = Rc::downgrade(&value.inner);
 
-        deps.graph
-            .external_connections
-            .register_connect(id, Rc::new(move || create(&value)));
+        deps.graph.external_connections.register_connect(
+            id,
+            Rc::new(move || match weak_inner.upgrade() {
+                Some(inner) => create(&Value { inner }),
+                None => DropResource::new(|| {}),
+            }),
+        );
 
-        computed
+        value.to_computed()
     }
 
     pub fn set(&self, value: T) {
-- 
2.43.0


From 3b002d54a79f348a6d5bb3633a46c0581d83fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 67/70] fix: inspector kept styles of earlier classes and never
 removed a class

---
 crates/vertigo/src/inspect.rs | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/crates/vertigo/src/inspect.rs b/crates/vertigo/src/inspect.rs
index 68f8f68..cfaf7ab 100644
--- a/crates/vertigo/src/inspect.rs
+++ b/crates/vertigo/src/inspect.rs
@@ -60,29 +60,12 @@ impl DomDebugFragment {
                 }
                 DriverDomCommand::SetAttr { id, name, value } => {
                     if let Some(node) = map.get_mut(&id) {
-                        if name == "class".into() {
-                            if let Some(new_styles) = css.get(&format!(".{value}")) {
-                                let mut styles = String::new();
-                                if let Some(old_styles) = node.attrs.get(&("style".into())) {
-                                    styles.push_str(old_styles);
-                                }
-                                styles.push_str(new_styles);
-                                node.attrs.insert("style".into(), styles);
-                            } else {
-                                node.attrs.insert(name, value);
-                            }
-                        } else {
-                            node.attrs.insert(name, value);
-                        }
+                        node.attrs.insert(name, value);
                     }
                 }
                 DriverDomCommand::RemoveAttr { id, name } => {
                     if let Some(node) = map.get_mut(&id) {
-                        if name == "class".into() {
-                            // TODO
-                        } else {
-                            node.attrs.remove(&name);
-                        }
+                        node.attrs.remove(&name);
                     }
                 }
                 DriverDomCommand::RemoveNode { id }
@@ -164,6 +147,22 @@ impl DomDebugFragment {
             }
         }
 
+        // Show the styles instead of the generated class
+        for node in map.values_mut() {
+            let new_styles = node
+                .attrs
+                .get(&("class".into()))
+                .and_then(|class| css.get(&format!(".{class}")));
+
+            if let Some(new_styles) = new_styles {
+                node.attrs.remove(&("class".into()));
+                node.attrs
+                    .entry("style".into())
+                    .or_default()
+                    .push_str(new_styles);
+            }
+        }
+
         // Try to return real root node
         let root_node = if let Some(root_node) = map
             .iter()
-- 
2.43.0


From 8c643c161047d15a490407b475bf1c80eb27cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 68/70] fix: a cell dropped its previous value in place, so
 drop code which used the cell found half-dropped data

---
 crates/vertigo/src/computed/struct_mut/value_mut.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/vertigo/src/computed/struct_mut/value_mut.rs b/crates/vertigo/src/computed/struct_mut/value_mut.rs
index 2a8e56b..c79c366 100644
--- a/crates/vertigo/src/computed/struct_mut/value_mut.rs
+++ b/crates/vertigo/src/computed/struct_mut/value_mut.rs
@@ -13,7 +13,9 @@ impl<T> ValueMut<T> {
     }
 
     pub fn set(&self, value: T) {
-        *self.value.get_mut() = value;
+        // The previous value is dropped only after the new one is in its place: its drop may use this cell
+        let prev = std::mem::replace(self.value.get_mut(), value);
+        drop(prev);
     }
 
     pub fn map<K>(&self, fun: impl Fn(&T) -> K) -> K {
@@ -52,9 +54,8 @@ impl<T: Clone> ValueMut<T> {
 
 impl<T: PartialEq> ValueMut<T> {
     pub fn set_and_check(&self, value: T) -> bool {
-        let state = self.value.get_mut();
-        let is_change = *state != value;
-        *state = value;
+        let is_change = *self.value.get() != value;
+        self.set(value);
         is_change
     }
 }
-- 
2.43.0


From b885656521a1d7a7d85720af8256fad523b184bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:32 +0000
Subject: [PATCH 69/70] fix: a memory block was allocated with the alignment of
 usize and released with the one of u8 once converted to Vec<u8>

---
 crates/vertigo/src/driver_module/js_value/memory_block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vertigo/src/driver_module/js_value/memory_block.rs b/crates/vertigo/src/driver_module/js_value/memory_block.rs
index b933911..e0b248f 100644
--- a/crates/vertigo/src/driver_module/js_value/memory_block.rs
+++ b/crates/vertigo/src/driver_module/js_value/memory_block.rs
@@ -4,7 +4,7 @@ use std::mem;
 use super::memory_block_write::MemoryBlockWrite;
 
 fn alloc_memory(size: usize) -> (*mut u8, Layout) {
-    let align = mem::align_of::<usize>();
+    let align = mem::align_of::<u8>();
 
     if let Ok(layout) = Layout::from_size_align(size, align) {
         unsafe {
-- 
2.43.0


From d483d0000cecf787d513bc7d7231b9e0f951f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:20 +0000
Subject: [PATCH 70/70] fix: functions of loading indications were called while
 the table of indications was walked through, so one that made or dropped such
 elements crashed the program

---
 .../dom_suspense/dom_suspense_mod.rs          | 54 ++++++++++++++-----
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/crates/vertigo/src/driver_module/dom_suspense/dom_suspense_mod.rs b/crates/vertigo/src/driver_module/dom_suspense/dom_suspense_mod.rs
index b5055ef..b665efe 100644
--- a/crates/vertigo/src/driver_module/dom_suspense/dom_suspense_mod.rs
+++ b/crates/vertigo/src/driver_module/dom_suspense/dom_suspense_mod.rs
@@ -26,24 +26,25 @@ impl DomSuspenseState {
         }
     }
 
-    fn refresh_subscribers(&mut self) {
+    //The next layer that has to be told about a change
+    fn next_change(&mut self) -> Option<(Rc<dyn Fn(bool)>, bool)> {
         for (id, layer) in self.layer_callback.iter_mut() {
             if let Some(id) = self.dom_connection.get_parent(*id) {
                 let show_loading = self.suspense.contains(&id);
 
                 if layer.last_show_loading != show_loading {
                     layer.last_show_loading = show_loading;
-                    (layer.callback)(show_loading);
+                    return Some((layer.callback.clone(), show_loading));
                 }
             }
         }
+
+        None
     }
 
     fn refresh_paths(&mut self) {
         self.suspense.refresh_paths(&self.dom_connection);
         self.layer.refresh_paths(&self.dom_connection);
-
-        self.refresh_subscribers();
     }
 
     pub fn set_node_suspense(&mut self, suspense_id: DomId) {
@@ -57,22 +58,27 @@ impl DomSuspenseState {
         self.refresh_paths();
     }
 
-    pub fn remove(&mut self, node_id: DomId) {
+    //Returns information whether the layers may have changed
+    pub fn remove(&mut self, node_id: DomId) -> bool {
         self.dom_connection.remove(node_id);
         let is_suspense_removed = self.suspense.remove(node_id);
         let is_layer_removed = self.layer.remove(node_id);
 
-        if is_suspense_removed || is_layer_removed {
+        let is_removed = is_suspense_removed || is_layer_removed;
+
+        if is_removed {
             self.refresh_paths();
         }
-    }
 
-    pub fn set_layer_callback(&mut self, node_id: DomId, callback: impl Fn(bool) + 'static) {
-        let show_loading = self.suspense.contains(&node_id);
-
-        let callback = Rc::new(callback);
-        callback(show_loading);
+        is_removed
+    }
 
+    pub fn set_layer_callback(
+        &mut self,
+        node_id: DomId,
+        callback: Rc<dyn Fn(bool)>,
+        show_loading: bool,
+    ) {
         let state = LayerCallback {
             callback,
             last_show_loading: show_loading,
@@ -112,16 +118,20 @@ impl DomSuspense {
     //Function called when a new <vertigo-suspense /> node is created
     pub fn set_node_suspense(&self, node_id: DomId) {
         self.inner.get_mut().set_node_suspense(node_id);
+        self.refresh_subscribers();
     }
 
     //Called when a node is attached to a parent
     pub fn set_parent(&self, node_id: DomId, parent_id: DomId) {
         self.inner.get_mut().set_parent(node_id, parent_id);
+        self.refresh_subscribers();
     }
 
     //Called when a node is destroyed
     pub fn remove(&self, node_id: DomId) {
-        self.inner.get_mut().remove(node_id);
+        if self.inner.get_mut().remove(node_id) {
+            self.refresh_subscribers();
+        }
     }
 
     //Set up a subscription that provides information about whether a layer should be shown or hidden
@@ -131,10 +141,26 @@ impl DomSuspense {
         node_id: DomId,
         callback: impl Fn(bool) + 'static,
     ) -> DropResource {
-        self.inner.get_mut().set_layer_callback(node_id, callback);
+        let callback: Rc<dyn Fn(bool)> = Rc::new(callback);
+
+        let show_loading = self.inner.get().suspense.contains(&node_id);
+        callback(show_loading);
+
+        self.inner
+            .get_mut()
+            .set_layer_callback(node_id, callback, show_loading);
+        self.refresh_subscribers();
 
         DropResource::new(move || {
             self.inner.get_mut().remove_layer_callback(node_id);
+            self.refresh_subscribers();
         })
     }
+
+    //The callbacks may create, move and remove nodes, so the state can't be borrowed while they are called
+    fn refresh_subscribers(&self) {
+        while let Some((callback, show_loading)) = self.inner.get_mut().next_change() {
+            callback(show_loading);
+        }
+    }
 }
-- 
2.43.0

