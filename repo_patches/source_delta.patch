From 75178953fefc49ad42a20b231a780a18e44136ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 01/22] fix: document_element returns the first child that is
 an element

A comment or processing instruction before the root element was returned
as the document element.
---
 src/level2/trait_impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..d2f96b4 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -234,7 +234,9 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes()
+            .into_iter()
+            .find(|child| child.node_type() == NodeType::Element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From c2750a05148a3a471dbb2091bd2f471457b05438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/22] fix: names starting with a non-ASCII character no
 longer panic

is_xml_name sliced the string at byte 1, which is inside the first character
when that character is not ASCII.
---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..d34b1b6 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s.chars().skip(1).all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From 78ee307578fb629f581cf379fdc73db8886cb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:44 +0000
Subject: [PATCH 03/22] fix: inserting a node into itself or a descendant is a
 HierarchyRequest error

It created a cycle, or panicked when a node was appended to itself.
---
 src/level2/trait_impls.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d2f96b4..c0fdf9d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -935,6 +935,11 @@ impl Node for RefNode {
             return Err(Error::HierarchyRequest);
         }
 
+        if is_self_or_ancestor(&new_child, self) {
+            warn!("cannot add a node to itself or to one of its descendants");
+            return Err(Error::HierarchyRequest);
+        }
+
         //
         // Special case for Document only.
         //
@@ -1245,6 +1250,22 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     }
     Ok(())
 }
+
+//
+// CHECK: Raise `Error::HierarchyRequest` if the node to insert is one of this node's ancestors or
+// this node itself.
+//
+fn is_self_or_ancestor(candidate: &RefNode, node: &RefNode) -> bool {
+    let mut current = Some(node.clone());
+    while let Some(current_node) = current {
+        if &current_node == candidate {
+            return true;
+        }
+        current = current_node.parent_node();
+    }
+    false
+}
+
 //
 // From [https://www.w3.org/TR/DOM-Level-2-Core/core.html#ID-1590626202]
 //
-- 
2.43.0


From 4a845136b2190f90a40c25c5e24d1a98f7b4ca16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 04/22] fix: insert_before puts a moved earlier sibling
 directly before ref_child

The position of ref_child was taken before new_child was removed from the
same child list, so the node ended up one place too late.
---
 src/level2/trait_impls.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c0fdf9d..6759cca 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -957,7 +957,7 @@ impl Node for RefNode {
         //
         // Find the index in `child_nodes` of the `ref_child`.
         //
-        let insert_position = match ref_child {
+        let mut insert_position = match ref_child {
             None => None,
             Some(ref_child) => match self
                 .borrow()
@@ -981,6 +981,16 @@ impl Node for RefNode {
         match new_child.parent_node() {
             None => (),
             Some(mut parent_node) => {
+                if &parent_node == self {
+                    //
+                    // Removing an earlier sibling moves `ref_child` back by one.
+                    //
+                    let old_position = self.child_nodes().iter().position(|c| c == &new_child);
+                    insert_position = match (insert_position, old_position) {
+                        (Some(position), Some(old)) if old < position => Some(position - 1),
+                        (position, _) => position,
+                    };
+                }
                 let _safe_to_ignore = parent_node.remove_child(new_child.clone())?;
             }
         }
-- 
2.43.0


From 2458d98271aa6d0a4c21887594f89232b62ea609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 05/22] fix: replace_child keeps the old child when the new one
 cannot be inserted

The old child was removed before the insert was checked, so a failed
replace_child lost it.
---
 src/level2/trait_impls.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6759cca..9edfba8 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1037,6 +1037,25 @@ impl Node for RefNode {
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
+            //
+            // CHECK: everything that could make the insert fail, before anything is removed.
+            //
+            if is_self_or_ancestor(&new_child, self) {
+                return Err(Error::HierarchyRequest);
+            }
+            if is_document(self)
+                && is_element(&new_child)
+                && self
+                    .child_nodes()
+                    .iter()
+                    .any(|n| {
+                        n.node_type() == NodeType::Element && n != &old_child && n != &new_child
+                    })
+            {
+                return Err(Error::HierarchyRequest);
+            }
+            check_same_document(self, &new_child)?;
+
             let next_node = old_child.next_sibling();
             let removed = self.remove_child(old_child)?;
             let _safe_to_ignore = self.insert_before(new_child, next_node)?;
-- 
2.43.0


From 8f9b301cafb93f8ef3069fd096933f70b375afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 06/22] fix: the document element can be moved among the
 document's children

insert_before counted the node being moved as a second document element.
---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 9edfba8..bb61b52 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -948,7 +948,7 @@ impl Node for RefNode {
             && self
                 .child_nodes()
                 .iter()
-                .any(|n| n.node_type() == NodeType::Element)
+                .any(|n| n.node_type() == NodeType::Element && n != &new_child)
         {
             warn!("cannot add more than one element to a document");
             return Error::HierarchyRequest.into();
-- 
2.43.0


From 35a4d13e9373cae1b276f48cded8609a77d216ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 07/22] fix: character data offsets no longer overflow, split
 characters or reject the end

offset + count overflowed for large counts, an offset inside a multi-byte
character panicked, and an offset equal to the length was an error although
only a greater one is documented to be.
---
 src/level2/trait_impls.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index bb61b52..70eb83e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -142,7 +142,7 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(String::new());
         }
         let ref_self = self.borrow();
@@ -152,11 +152,14 @@ impl CharacterData for RefNode {
                 Err(Error::IndexSize)
             }
             Some(data) => {
-                if offset >= data.len() {
+                if offset > data.len() || !data.is_char_boundary(offset) {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
+                } else if count >= data.len() - offset {
                     Ok(data[offset..].to_string())
+                } else if !data.is_char_boundary(offset + count) {
+                    warn!("{}", MSG_INDEX_ERROR);
+                    Err(Error::IndexSize)
                 } else {
                     Ok(data[offset..offset + count].to_string())
                 }
@@ -184,7 +187,7 @@ impl CharacterData for RefNode {
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(());
         }
         const NOTHING: &str = "";
@@ -195,7 +198,7 @@ impl CharacterData for RefNode {
         let mut mut_self = self.borrow_mut();
         match &mut_self.i_value {
             None => {
-                if offset + count != 0 {
+                if offset != 0 || count != 0 {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
@@ -204,12 +207,17 @@ impl CharacterData for RefNode {
                 }
             }
             Some(old_data) => {
-                if offset >= old_data.len() {
+                if offset > old_data.len() || !old_data.is_char_boundary(offset) {
+                    warn!("{}", MSG_INDEX_ERROR);
+                    Err(Error::IndexSize)
+                } else if count < old_data.len() - offset
+                    && !old_data.is_char_boundary(offset + count)
+                {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
                     let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
+                    if count >= old_data.len() - offset {
                         new_data.replace_range(offset.., replace_data);
                     } else {
                         new_data.replace_range(offset..offset + count, replace_data);
-- 
2.43.0


From c31b7d04de3df7b2712fcebc87f54e59a8e6ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:52 +0000
Subject: [PATCH 08/22] fix: split counts in the node's own data, not the
 escaped data

Text::length is the length of the escaped data, offsets are into the
unescaped value: splitting at or after the end of a text with an escaped
character failed with IndexSize.
---
 src/level2/trait_impls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 70eb83e..30410ea 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1169,7 +1169,10 @@ impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
         let new_data = {
             let text = as_character_data_mut(self)?;
-            let length = text.length();
+            //
+            // Do not use the Text::length function, it is the length of the escaped data.
+            //
+            let length = text.node_value().map_or(0, |value| value.len());
             if offset >= length {
                 String::new()
             } else {
-- 
2.43.0


From 9ebb816a7d56feee31e073f5e822a6badadd761a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 09/22] fix: the text of an attribute value has the attribute
 as its parent

The child made for an initial attribute value had no parent, and children
removed by unset_value or set_value kept the one they no longer belong to.
---
 src/level2/trait_impls.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 30410ea..9f07209 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -109,6 +109,9 @@ impl Attribute for RefNode {
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
+        for child_node in self.child_nodes() {
+            child_node.borrow_mut().i_parent_node = None;
+        }
         let mut mut_self = self.borrow_mut();
         mut_self.i_child_nodes.clear();
         Ok(())
@@ -268,7 +271,7 @@ impl Document for RefNode {
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
         let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(new_parent_node(node_impl))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -456,7 +459,8 @@ impl Element for RefNode {
             let document = ref_self.i_owner_document.as_ref().unwrap();
             NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(new_parent_node(attr_node))
+            .map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -640,7 +644,8 @@ impl Element for RefNode {
             let document = ref_self.i_owner_document.as_ref().unwrap();
             NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(new_parent_node(attr_node))
+            .map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1252,6 +1257,17 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Create a node, it is the parent of the child nodes it is created with.
+//
+fn new_parent_node(node_impl: NodeImpl) -> RefNode {
+    let node = RefNode::new(node_impl);
+    for child_node in node.child_nodes() {
+        child_node.borrow_mut().i_parent_node = Some(node.clone().downgrade());
+    }
+    node
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From 0a8b73edd7fef39e42197e5b60e444adcb831678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 10/22] fix: a cloned node owns its children and attributes

The clones of child nodes had no parent, a cloned element shared its attribute
nodes with the original so that changing one changed both, and a cloned
attribute claimed the original's owner element.
---
 src/level2/node_impl.rs   |  9 ++++++---
 src/level2/trait_impls.rs | 12 ++++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..25971c1 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -308,8 +308,8 @@ impl NodeImpl {
     pub(crate) fn clone_node(&self, deep: bool) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -341,7 +341,10 @@ impl NodeImpl {
                 i_attributes,
                 i_namespaces,
             } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+                i_attributes: i_attributes
+                    .iter()
+                    .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
+                    .collect(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 9f07209..ba1c984 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1115,7 +1115,7 @@ impl Node for RefNode {
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
         let ref_self = self.borrow();
         let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        Some(new_parent_node(new_node))
     }
 
     fn normalize(&mut self) {
@@ -1258,13 +1258,21 @@ fn namespaced_name_match(
 }
 
 //
-// Create a node, it is the parent of the child nodes it is created with.
+// Create a node, it is the parent of the child nodes, and the owner of the attributes, it is
+// created with.
 //
 fn new_parent_node(node_impl: NodeImpl) -> RefNode {
     let node = RefNode::new(node_impl);
     for child_node in node.child_nodes() {
         child_node.borrow_mut().i_parent_node = Some(node.clone().downgrade());
     }
+    if is_element(&node) {
+        for attribute_node in node.attributes().values() {
+            attribute_node.borrow_mut().i_extension = Extension::Attribute {
+                i_owner_element: Some(node.clone().downgrade()),
+            };
+        }
+    }
     node
 }
 
-- 
2.43.0


From 7f41a9ccace75d3bac75612e6a41b91298effaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 11/22] fix: an xmlns:p attribute maps the prefix p

set_attribute_node mapped the attribute's own prefix, which is always xmlns,
and panicked when the attribute had no value.
---
 src/level2/trait_impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index ba1c984..a478e28 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -522,12 +522,14 @@ impl Element for RefNode {
                 // Add to the element's namespace mapping hash
                 //
                 let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
+                let namespace_uri = attribute.value().unwrap_or_default();
 
                 let as_namespaced = as_element_namespaced_mut(self).unwrap();
                 let _ignore = match &name.prefix() {
                     None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
+                    Some(_) => {
+                        as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri)
+                    }
                 }?;
             }
 
-- 
2.43.0


From daa00f908a89e3a2b9053f611179572e51f0c29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 12/22] fix: an attribute node belongs to one element at most

set_attribute_node accepted an attribute of another element,
remove_attribute_node removed any attribute with the same name even if it was
not the node passed in, and a removed attribute kept its owner element.
---
 src/level2/trait_impls.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index a478e28..3a34206 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -501,6 +501,18 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            //
+            // CHECK: Raise `Error::InUseAttribute` if `newAttr` is already an attribute of another
+            // `Element` object.
+            //
+            match as_attribute(&new_attribute)?.owner_element() {
+                Some(owner_element) if &owner_element != self => {
+                    warn!("attribute is already in use by another element");
+                    return Err(Error::InUseAttribute);
+                }
+                _ => (),
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -584,10 +596,16 @@ impl Element for RefNode {
         if is_element(self) {
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+                if i_attributes.get(&old_attribute.node_name()) != Some(&old_attribute) {
+                    warn!("remove_attribute_node: not an attribute of this element");
+                    return Err(Error::NotFound);
+                }
                 let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
                 let mut_old = old_attribute.clone();
                 let mut mut_old = mut_old.borrow_mut();
-                mut_old.i_parent_node = None;
+                mut_old.i_extension = Extension::Attribute {
+                    i_owner_element: None,
+                };
                 // TODO: remove from Element::namespaces
                 // TODO: remove from Document::id_map
                 Ok(old_attribute)
-- 
2.43.0


From 65dae888d9f59a9bef01ec26f05f2a09ae0b41de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 13/22] fix: setting an attribute replaces the one with the
 same name

The attribute map is keyed by namespace, prefix and local name together, so an
element could have two attributes with the same qualified name, or the same
namespace and local name, and lookups returned either of them. The replaced
attribute node also kept its owner element.
---
 src/level2/trait_impls.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3a34206..a0c9f94 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -529,6 +529,21 @@ impl Element for RefNode {
             }
 
             let name: Name = new_attribute.node_name();
+
+            //
+            // An attribute of this element with the same name is replaced.
+            //
+            let same_name = self.get_attribute_node(&name.to_string());
+            if let Some(replaced) = same_name.filter(|node| node != &new_attribute) {
+                let _safe_to_ignore = self.remove_attribute_node(replaced)?;
+            }
+            if let Some(namespace_uri) = name.namespace_uri() {
+                let same_name = self.get_attribute_node_ns(namespace_uri, name.local_name());
+                if let Some(replaced) = same_name.filter(|node| node != &new_attribute) {
+                    let _safe_to_ignore = self.remove_attribute_node(replaced)?;
+                }
+            }
+
             if name.is_namespace_attribute() {
                 //
                 // Add to the element's namespace mapping hash
@@ -594,13 +609,14 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
+            let name: Name = old_attribute.node_name();
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                if i_attributes.get(&old_attribute.node_name()) != Some(&old_attribute) {
+                if i_attributes.get(&name) != Some(&old_attribute) {
                     warn!("remove_attribute_node: not an attribute of this element");
                     return Err(Error::NotFound);
                 }
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
+                let _safe_to_ignore = i_attributes.remove(&name);
                 let mut_old = old_attribute.clone();
                 let mut mut_old = mut_old.borrow_mut();
                 mut_old.i_extension = Extension::Attribute {
-- 
2.43.0


From 301510bf11af3c6541cbac375cd88fb3be2cebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:20 +0000
Subject: [PATCH 14/22] fix: removing an xmlns attribute removes its namespace
 mapping

---
 src/level2/trait_impls.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index a0c9f94..8b8a4bb 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -611,7 +611,11 @@ impl Element for RefNode {
         if is_element(self) {
             let name: Name = old_attribute.node_name();
             let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+            if let Extension::Element {
+                i_attributes,
+                i_namespaces,
+            } = &mut mut_self.i_extension
+            {
                 if i_attributes.get(&name) != Some(&old_attribute) {
                     warn!("remove_attribute_node: not an attribute of this element");
                     return Err(Error::NotFound);
@@ -622,7 +626,10 @@ impl Element for RefNode {
                 mut_old.i_extension = Extension::Attribute {
                     i_owner_element: None,
                 };
-                // TODO: remove from Element::namespaces
+                if name.is_namespace_attribute() {
+                    let prefix = name.prefix().as_ref().map(|_| name.local_name().clone());
+                    let _safe_to_ignore = i_namespaces.remove(&prefix);
+                }
                 // TODO: remove from Document::id_map
                 Ok(old_attribute)
             } else {
-- 
2.43.0


From f7b2b60210ba9071d22f05bdd60ccbd03febc00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 15/22] fix: the ID of an element follows its attributes

A rejected duplicate ID left the attribute on the element, setting the same ID
on the same element again was rejected, and removing or replacing an ID
attribute left the element registered under it.
---
 src/level2/trait_impls.rs | 56 ++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 8b8a4bb..6dce6b7 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -513,6 +513,21 @@ impl Element for RefNode {
                 _ => (),
             }
 
+            //
+            // CHECK: Raise `Error::Syntax` if the new attribute is an ID another element already has.
+            //
+            let document = new_attribute.owner_document().unwrap();
+            let id_value = id_attribute_value(&new_attribute);
+            if let Some(id_value) = &id_value {
+                match as_document(&document)?.get_element_by_id(id_value) {
+                    Some(element) if &element != self => {
+                        warn!("{}", MSG_DUPLICATE_ID);
+                        return Err(Error::Syntax);
+                    }
+                    _ => (),
+                }
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -568,27 +583,13 @@ impl Element for RefNode {
                     //
                     // Add to the owning document's id_map hash
                     //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
                     let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
+                    if let Some(id_value) = id_value {
                         //
                         // Update the document ID mapping
                         //
                         if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
                         {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
                             let _safe_to_ignore =
                                 i_id_map.insert(id_value, self.clone().downgrade());
                         } else {
@@ -610,6 +611,8 @@ impl Element for RefNode {
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
             let name: Name = old_attribute.node_name();
+            let document = old_attribute.owner_document();
+            let id_value = id_attribute_value(&old_attribute);
             let mut mut_self = self.borrow_mut();
             if let Extension::Element {
                 i_attributes,
@@ -630,7 +633,15 @@ impl Element for RefNode {
                     let prefix = name.prefix().as_ref().map(|_| name.local_name().clone());
                     let _safe_to_ignore = i_namespaces.remove(&prefix);
                 }
-                // TODO: remove from Document::id_map
+                if let (Some(id_value), Some(document)) = (id_value, document) {
+                    let mut mut_document = document.borrow_mut();
+                    if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension {
+                        let registered = i_id_map.get(&id_value).cloned();
+                        if registered.and_then(WeakRefNode::upgrade).as_ref() == Some(self) {
+                            let _safe_to_ignore = i_id_map.remove(&id_value);
+                        }
+                    }
+                }
                 Ok(old_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -1300,6 +1311,19 @@ fn namespaced_name_match(
     }
 }
 
+//
+// The ID value of an attribute, `None` if the attribute is not an ID in its document.
+//
+fn id_attribute_value(attribute_node: &RefNode) -> Option<String> {
+    let document = attribute_node.owner_document()?;
+    let lax = unwrap_extension_field!(document, Document, i_options).has_assume_ids();
+    if is_attribute(attribute_node) && attribute_node.node_name().is_id_attribute(lax) {
+        Attribute::value(attribute_node)
+    } else {
+        None
+    }
+}
+
 //
 // Create a node, it is the parent of the child nodes, and the owner of the attributes, it is
 // created with.
-- 
2.43.0


From 9230a22c5bfed3f456eb3002772cccd5352a8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:56 +0000
Subject: [PATCH 16/22] fix: normalize works on the full depth of the sub-tree

---
 src/level2/trait_impls.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6dce6b7..df4e5b0 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1173,7 +1173,7 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
+        for mut child_node in self.child_nodes() {
             if is_text(&child_node) {
                 if CharacterData::length(&child_node) == 0 {
                     if self.remove_child(child_node).is_err() {
@@ -1193,6 +1193,8 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.normalize();
             }
         }
     }
-- 
2.43.0


From 19e076d8b499b042ab8f3e3306cc040bfc23fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 17/22] fix: a document type gets its document as owner

The doctype passed to create_document had no owner document, and the same one
could be used for several documents.
---
 src/level2/trait_impls.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index df4e5b0..63324ab 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1482,7 +1482,17 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    //
+    // CHECK: Raise `Error::WrongDocument` if `doctype` has already been used with a different
+    // document.
+    //
+    if let Some(doc_type) = &doc_type {
+        if doc_type.owner_document().is_some() {
+            return Err(Error::WrongDocument);
+        }
+    }
+
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1508,5 +1518,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From 0b2065ba31ccd79fe49e20985a27d6952084e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 18/22] fix: predefined entity references in attribute values
 resolve

Reading an attribute whose value contains &amp; or another predefined entity
reference panicked, these entities are never declared.
---
 src/level2/entity_resolver.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/level2/entity_resolver.rs b/src/level2/entity_resolver.rs
index 3f633d4..70cb142 100644
--- a/src/level2/entity_resolver.rs
+++ b/src/level2/entity_resolver.rs
@@ -13,6 +13,17 @@ use std::str::FromStr;
 
 impl EntityResolver for RefNode {
     fn resolve(&self, entity: &str) -> Option<String> {
+        //
+        // The predefined entities need no declaration.
+        //
+        match entity {
+            "&amp;" => return Some("&".to_string()),
+            "&apos;" => return Some("'".to_string()),
+            "&gt;" => return Some(">".to_string()),
+            "&lt;" => return Some("<".to_string()),
+            "&quot;" => return Some("\"".to_string()),
+            _ => (),
+        }
         let doc_type = match self.node_type() {
             NodeType::DocumentType => Some(self.clone()),
             NodeType::Document => {
-- 
2.43.0


From 6ddc8ad7acd948a7d05351da041cfb4dd2d882c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:04 +0000
Subject: [PATCH 19/22] fix: resolving a namespace below a dropped parent finds
 nothing instead of panicking

---
 src/level2/ext/namespaced.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..200564b 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -146,8 +146,13 @@ impl Namespaced for RefNode {
                     None => None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_namespace(prefix)
+                        match parent.upgrade() {
+                            None => {
+                                warn!("{}", MSG_WEAK_REF);
+                                None
+                            }
+                            Some(parent_node) => parent_node.resolve_namespace(prefix),
+                        }
                     }
                 }
             }
@@ -194,8 +199,13 @@ impl Namespaced for RefNode {
                     None => NamespacePrefix::None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
+                        match parent.upgrade() {
+                            None => {
+                                warn!("{}", MSG_WEAK_REF);
+                                NamespacePrefix::None
+                            }
+                            Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                        }
                     }
                 }
             }
-- 
2.43.0


From ddf2618720e39ff2fd46f4dedc812ad6cd440160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:40 +0000
Subject: [PATCH 20/22] fix: an element cannot be placed below its own
 attribute

---
 src/level2/trait_impls.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 63324ab..a86678d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -501,6 +501,11 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            if is_self_or_ancestor(&new_attribute, self) {
+                warn!("cannot set an attribute on an element that it contains");
+                return Err(Error::HierarchyRequest);
+            }
+
             //
             // CHECK: Raise `Error::InUseAttribute` if `newAttr` is already an attribute of another
             // `Element` object.
@@ -1394,7 +1399,11 @@ fn is_self_or_ancestor(candidate: &RefNode, node: &RefNode) -> bool {
         if &current_node == candidate {
             return true;
         }
-        current = current_node.parent_node();
+        current = match current_node.parent_node() {
+            // an attribute has no parent, but it is part of its element
+            None => current_node.owner_element(),
+            parent_node => parent_node,
+        };
     }
     false
 }
-- 
2.43.0


From 92e638812554440064eaf658a0d17daf2218df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:45 +0000
Subject: [PATCH 21/22] fix: has_attribute_ns looks for the given local name,
 not for its local part

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index a86678d..3eae7c3 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -812,7 +812,7 @@ impl Element for RefNode {
                     if let Extension::Element { i_attributes, .. } = &ref_self.i_extension {
                         i_attributes.keys().any(|n| {
                             n.namespace_uri() == name.namespace_uri()
-                                && n.local_name() == name.local_name()
+                                && n.local_name() == local_name
                         })
                     } else {
                         warn!("{}", MSG_INVALID_EXTENSION);
-- 
2.43.0


From 578b8464ac583efc393a0b3c6a4701c9efb7816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 22/22] fix: an element in the namespace * matches only that
 namespace and the wildcard in tag name searches

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 3eae7c3..308355b 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1310,7 +1310,7 @@ fn namespaced_name_match(
                     || against_local == WILD_CARD)
         }
         Some(test_ns) => {
-            ((test_ns == against_ns) || test_ns == WILD_CARD || against_ns == WILD_CARD)
+            ((test_ns == against_ns) || against_ns == WILD_CARD)
                 && ((test_local == against_local)
                     || test_local == WILD_CARD
                     || against_local == WILD_CARD)
-- 
2.43.0

