From 3d86aa830869f469d186a3ea3adc5cf53ff3cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:22 +0000
Subject: [PATCH 01/36] fix: drop the padding byte when decoding url strings

to_b8s computed the trimmed vector but returned the untrimmed bytes, so
get_bytes(get_url_string(b)) had an extra trailing zero byte for most lengths.
---
 dochy_compaction/src/url_string/b8s_and_b6s.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/url_string/b8s_and_b6s.rs b/dochy_compaction/src/url_string/b8s_and_b6s.rs
index b428b48..e71b237 100644
--- a/dochy_compaction/src/url_string/b8s_and_b6s.rs
+++ b/dochy_compaction/src/url_string/b8s_and_b6s.rs
@@ -48,5 +48,5 @@ pub fn to_b8s(b6s : &[u8]) -> Vec<u8>{
     if byte_size != vec.len(){
         vec.pop();
     }
-    result.to_bytes()
+    vec
 }
\ No newline at end of file
-- 
2.43.0


From dde4a7cdd8500dc46d1ae62fd3c185510a195d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:23 +0000
Subject: [PATCH 02/36] fix: only treat '.' as the decimal point in string
 compaction

The dot in the number pattern was not escaped, so strings such as "1a2"
were stored as the decimal 1.2 and did not come back unchanged.
---
 dochy_compaction/src/string_compaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_compaction/src/string_compaction.rs b/dochy_compaction/src/string_compaction.rs
index 58fbc11..a9061a7 100644
--- a/dochy_compaction/src/string_compaction.rs
+++ b/dochy_compaction/src/string_compaction.rs
@@ -100,7 +100,7 @@ struct NumResult{
 }
 
 fn rex(s : &str) -> Option<regex::Captures>{
-    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(.?)([0-9]*))$"#).unwrap());
+    static RE: Lazy<Regex> = Lazy::new(|| regex::Regex::new(r#"^(-?)(([0-9]+)(\.?)([0-9]*))$"#).unwrap());
 
     return RE.captures(s);
 }
-- 
2.43.0


From a7c8c1f274206b16c427e5676c1715142101548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:23 +0000
Subject: [PATCH 03/36] fix: report the last item in LinkedMap iterators

is_last() of LinkedMapIter and LinkedMapIterMut forwarded to is_first().
---
 dochy_core/src/imp/structs/linked_map_iter.rs     | 2 +-
 dochy_core/src/imp/structs/linked_map_iter_mut.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_map_iter.rs b/dochy_core/src/imp/structs/linked_map_iter.rs
index e3f8050..7af002f 100644
--- a/dochy_core/src/imp/structs/linked_map_iter.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter.rs
@@ -39,7 +39,7 @@ impl<'a, V> LinkedMapIter<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIter<'a, V>{
diff --git a/dochy_core/src/imp/structs/linked_map_iter_mut.rs b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
index 6d9754b..672200d 100644
--- a/dochy_core/src/imp/structs/linked_map_iter_mut.rs
+++ b/dochy_core/src/imp/structs/linked_map_iter_mut.rs
@@ -36,7 +36,7 @@ impl<'a, V> LinkedMapIterMut<'a, V>{
         self.iter.is_first()
     }
     pub fn is_last(&self) -> bool {
-        self.iter.is_first()
+        self.iter.is_last()
     }
 }
 impl<'a,V> Iterator for LinkedMapIterMut<'a, V>{
-- 
2.43.0


From 746de06c3d5c201ea0b8006ea2d3c6fbd0e2923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:23 +0000
Subject: [PATCH 04/36] fix: move backwards in MListIterMut::prev

prev() advanced the cursor like next().
---
 dochy_core/src/imp/intf/mlist_iter_mut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/intf/mlist_iter_mut.rs b/dochy_core/src/imp/intf/mlist_iter_mut.rs
index b7c5660..699bde9 100644
--- a/dochy_core/src/imp/intf/mlist_iter_mut.rs
+++ b/dochy_core/src/imp/intf/mlist_iter_mut.rs
@@ -29,7 +29,7 @@ impl<'a, V : From<MItemPtr>> MListIterMut<'a, V>{
             MItemMut::from_phantom(v, self.phantom)))
     }
     pub fn prev(&mut self) -> Option<(u64, MItemMut<'a, V>)> {
-        self.ptr.next_mut().map(|(id, v)| (
+        self.ptr.prev_mut().map(|(id, v)| (
             id,
             MItemMut::from_phantom(v, self.phantom)))
     }
-- 
2.43.0


From d60f535dfe55ffc17298b2944165395f8d053370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:23 +0000
Subject: [PATCH 05/36] fix: keep next_id when an empty LinkedMap is cloned or
 constructed

The counter restarted from 0, so the ids of removed items were given to new items.
---
 dochy_core/src/imp/structs/linked_m.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/linked_m.rs b/dochy_core/src/imp/structs/linked_m.rs
index f8087cd..4aaf792 100644
--- a/dochy_core/src/imp/structs/linked_m.rs
+++ b/dochy_core/src/imp/structs/linked_m.rs
@@ -81,7 +81,7 @@ impl<V> LinkedMap<V> {
     }
     pub fn construct(items : Vec<(u64,V)>, next_id : u64) -> LinkedMap<V>{
         if items.is_empty(){
-            return LinkedMap::new();
+            return LinkedMap{ next_id, ..LinkedMap::new() };
         }
         let mut map : HashM<u64,Box<MutNode<V>>> = HashMt::with_capacity(items.len());
         let mut iter = items.into_iter();
@@ -388,7 +388,7 @@ impl<V> LinkedMap<V> {
 
 impl<V : Clone> Clone for LinkedMap<V>{
     fn clone(&self) -> Self {
-        if self.map.is_empty(){ return LinkedMap::new() }
+        if self.map.is_empty(){ return LinkedMap{ next_id : self.next_id, ..LinkedMap::new() } }
         let mut map = self.map.clone();
         let first_node = map.get_mut(&self.first_id().unwrap()).unwrap().as_mut() as *mut _;
         let last_node = map.get_mut(&self.last_id().unwrap()).unwrap().as_mut() as *mut _;
-- 
2.43.0


From 638060d25973cbaf9906393e76068cbdf4611e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 06/36] fix: convert items of a nested mut list with the
 definition of the nested list

---
 .../src/imp/version_adjuster/adjust_mut_list_item_sabun.rs   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
index 94b8d4e..df5d931 100644
--- a/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
+++ b/dochy_core/src/imp/version_adjuster/adjust_mut_list_item_sabun.rs
@@ -50,7 +50,10 @@ pub(crate) fn adjust_mut_list_item_sabun(def : &ListDefObj, old_sabun : &mut Has
             ListSabValue::Mil(op) =>{
                 match op{
                     Some(im) =>{
-                        let new = adjust_mut_list(def, im, &names.append(def_key))?;
+                        let mil_def = if let ListDefValue::MilDef(mil_def) = def_v{ mil_def } else{
+                            Err(format!("{} {} is not a mut list in the new version", names, def_key))?
+                        };
+                        let new = adjust_mut_list(mil_def.default(), im, &names.append(def_key))?;
                         result.insert(def_key.to_string(), ListSabValue::Mil(Some(new)));
                     },
                     None =>{
-- 
2.43.0


From f869f1ea52a1333ff265c0a5054d5121e4041256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 07/36] fix: accept undefiable root lists when calculating a
 diff

---
 dochy_diff/src/imp/prepare/get_root_diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_root_diff.rs b/dochy_diff/src/imp/prepare/get_root_diff.rs
index b2690b3..2e1aed6 100644
--- a/dochy_diff/src/imp/prepare/get_root_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_root_diff.rs
@@ -50,7 +50,7 @@ pub(crate) fn get_root_diff<'a, 'b>(from : &'a RootObject, to : &'b RootObject)
                 let (&id, mdef) = if let Some((id, RootValue::MList(mdef))) = def.get(key) { (id, mdef) } else {
                     panic!("invalid def");
                 };
-                let meta = if let Some((_key, MetaValue::MList(meta))) = meta.get(id) { meta } else {
+                let meta = if let Some((_key, MetaValue::MList(meta) | MetaValue::OptMil(meta))) = meta.get(id) { meta } else {
                     panic!("invalid meta");
                 };
 
-- 
2.43.0


From 5564022f65af3133eba406f65bf9e06be1973971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 08/36] fix: read list items whose changed members are stored
 as numbers and contain a list

---
 dochy_diff/src/imp/read/read_list.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dochy_diff/src/imp/read/read_list.rs b/dochy_diff/src/imp/read/read_list.rs
index 4aeacf0..3c84654 100644
--- a/dochy_diff/src/imp/read/read_list.rs
+++ b/dochy_diff/src/imp/read/read_list.rs
@@ -85,10 +85,11 @@ fn read_list_item2(r : &mut Reader, meta : &MetaTables) -> Result<ListItemDiffR,
             let mut refs = Vec::new();
 
             for &id in &n{
-                if let Some((_,MetaValue::Param(p))) = meta.items().get(id){
-                    params.push((id, read_param(p, r)?));
-                } else {
-                    Err("invalid meta read_list_item2")?
+                match meta.items().get(id){
+                    Some((_,MetaValue::Param(p))) => params.push((id, read_param(p, r)?)),
+                    //lists are stored after params and read by read_lists_numbers
+                    Some(_) => {},
+                    None => Err("invalid meta read_list_item2")?,
                 }
             }
             read_lists_numbers(r, meta.items(), &n, &mut lists)?;
-- 
2.43.0


From d64686acf8a42e72e25601cb74195e8463b62d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:56 +0000
Subject: [PATCH 09/36] fix: keep next_id of a list in a diff when inserted
 items were removed

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index bc8d9c3..4b25fd1 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -26,7 +26,8 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
         prev_id = Some(id)
     }
 
-    if result.len() == 0{
+    //next_id can change without any change in the items, when an inserted item is removed
+    if result.len() == 0 && from.next_id() == to.next_id(){
         None
     } else {
         Some(ListDiffW::new(result, meta, to.next_id()))
-- 
2.43.0


From 3fa2ebaaacd0d65e123e4c96b52fa523a8096851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:09 +0000
Subject: [PATCH 10/36] fix: record moved list items in a diff

---
 dochy_diff/src/imp/prepare/get_mlist_diff.rs | 28 ++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/dochy_diff/src/imp/prepare/get_mlist_diff.rs b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
index 4b25fd1..734897a 100644
--- a/dochy_diff/src/imp/prepare/get_mlist_diff.rs
+++ b/dochy_diff/src/imp/prepare/get_mlist_diff.rs
@@ -2,13 +2,19 @@ use crate::imp::structs_write::{ListDiffW, ListItemDiffEnumW, BS};
 use dochy_core::structs::{ListDefObj, LinkedMap, MutItem, MetaTables};
 use crate::imp::prepare::compare_items::compare_items;
 use crate::imp::prepare::new_item::new_item;
+use std::collections::HashSet;
 
 pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b LinkedMap<MutItem>,
                               to_def : &'b ListDefObj, meta : &'b MetaTables) -> Option<ListDiffW<'b>>{
 
+    let moved = get_moved_ids(from, to);
+
     let mut result : Vec<(u64, ListItemDiffEnumW)> = Vec::new();
     for (&id, from_item) in from {
-        if let Some(to_item) = to.get_item(id) {
+        if moved.contains(&id){
+            //moved items are deleted and created again at the new position
+            result.push((id, ListItemDiffEnumW::Delete));
+        } else if let Some(to_item) = to.get_item(id) {
             if let Some(diff) = compare_items(from_item, to_item, to_def, meta) {
                 result.push((id, ListItemDiffEnumW::Modify(diff)));
             }
@@ -19,7 +25,7 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
 
     let mut prev_id : Option<u64> = None;
     for (&id, to_item) in to{
-        if from.contains_key(id) == false{
+        if from.contains_key(id) == false || moved.contains(&id){
             result.push((id, ListItemDiffEnumW::Create(
                 BS{ prev_id, diff : new_item(to_item, to_def, meta) })));
         }
@@ -34,5 +40,23 @@ pub(crate) fn get_mlist_diff<'a, 'b>(from : &'a LinkedMap<MutItem>, to : &'b Lin
     }
 }
 
+/// The items which exist in both lists and don't keep the order of "from" in "to".
+/// The other items which exist in both lists have the same order in both lists.
+fn get_moved_ids(from : &LinkedMap<MutItem>, to : &LinkedMap<MutItem>) -> HashSet<u64>{
+    let mut moved : HashSet<u64> = HashSet::new();
+    let mut from_ids = from.iter().map(|(&id, _)| id).filter(|&id| to.contains_key(id));
+
+    for (&id, _) in to{
+        if from.contains_key(id) == false || moved.contains(&id){
+            continue;
+        }
+        while let Some(from_id) = from_ids.next(){
+            if from_id == id{ break; }
+            moved.insert(from_id);
+        }
+    }
+    moved
+}
+
 
 
-- 
2.43.0


From 6fc54670227bcf1cb0929d12cc0e3784511d1327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 11/36] fix: read the whole tag of a history file name

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index ccab0a8..a8c98ea 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -99,7 +99,7 @@ fn get_tag(s : &str) -> Option<&str>{
     }
     for (i,c) in bytes.iter().skip(1).enumerate(){
         if *c == '#' as u8{
-            return Some(&s[1..i])
+            return Some(&s[1..i+1])
         }
     }
     return None;
-- 
2.43.0


From b653a0eaaba57d2ac3709f2a61e4dfcf9a61adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 12/36] fix: read every u32 number in a history file name

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index a8c98ea..74dd20d 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -132,13 +132,12 @@ fn get_num(s : &[u8]) -> Option<(u32, usize)>{
 
         let b = s[i];
         if '0' as u8 <= b && b <= '9' as u8{
-            result *= 10;
-            result += (b - '0' as u8) as u32;
+            //オーバーフローは避ける
+            result = result.checked_mul(10)?.checked_add((b - '0' as u8) as u32)?;
         } else{
             return Some((result, i));
         }
         i += 1;
-        if i == 10{ return None; } //オーバーフローは避ける
     }
 
 
-- 
2.43.0


From 17bcec69f2d437eb752ca2da9bd3ceb306150036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 13/36] fix: reject folder names which are not hexadecimal
 without underflow

---
 dochy_fs/src/imp/common/path/hash.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/hash.rs b/dochy_fs/src/imp/common/path/hash.rs
index f7a44b7..6f5635e 100644
--- a/dochy_fs/src/imp/common/path/hash.rs
+++ b/dochy_fs/src/imp/common/path/hash.rs
@@ -17,11 +17,11 @@ fn hex_to_u64(s : &[u8]) -> Option<u64>{
     loop{
         r <<= 4;
         let b = s[index];
-        let num = b - '0' as u8;
+        let num = b.wrapping_sub('0' as u8);
         if num <= 9 {
             r += num as u64;
         } else{
-            let num = b - 'a' as u8;
+            let num = b.wrapping_sub('a' as u8);
             if num <= 5{
                 r += 10 + num as u64;
             } else{
-- 
2.43.0


From 062905e318855d11c9536044c58de80246d0b659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 14/36] fix: avoid underflow when limit_nth exceeds the number
 of phases

---
 dochy_fs/src/imp/history/algo/phase_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/algo/phase_data.rs b/dochy_fs/src/imp/history/algo/phase_data.rs
index cf74d7c..bac2745 100644
--- a/dochy_fs/src/imp/history/algo/phase_data.rs
+++ b/dochy_fs/src/imp/history/algo/phase_data.rs
@@ -77,7 +77,7 @@ impl PhaseData{
 
         sizes.sort_by_key(|a| *a);
 
-        sizes.get(sizes.len() - nth).map(|a| *a)
+        sizes.get(sizes.len().checked_sub(nth)?).map(|a| *a)
     }
 }
 
-- 
2.43.0


From e98212fe46457696c3b0899ebdaf45d7186c0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 15/36] fix: keep the parent control number of derived files in
 the last phase

---
 dochy_fs/src/imp/history/file_hist/ancestors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/file_hist/ancestors.rs b/dochy_fs/src/imp/history/file_hist/ancestors.rs
index 6bff18c..8040200 100644
--- a/dochy_fs/src/imp/history/file_hist/ancestors.rs
+++ b/dochy_fs/src/imp/history/file_hist/ancestors.rs
@@ -71,7 +71,8 @@ pub(crate) fn create_dependencies<'a,'b>(ancestors : &'b[&'a FileNameProps],
         prev_ctl = last_prop.control();
     } else if next_phase == max_phase{
         *order.last_mut().unwrap() += 1;
-        prev_ctl = last_prop.control();
+        //a cumulative file depends on the previous file, otherwise the parent is the same as the previous file's
+        prev_ctl = if cumulative{ last_prop.control() } else{ last_prop.prev_ctl() };
     } else {
         order = order[0..next_phase+1].to_vec();
         *order.last_mut().unwrap() += 1;
-- 
2.43.0


From 074a9dda8a2b0cc800839cb38e0940f6fc9bb498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 16/36] fix: keep the parents of files in the phase before the
 cumulative phase

---
 dochy_fs/src/imp/history/remove/history_remover_item.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover_item.rs b/dochy_fs/src/imp/history/remove/history_remover_item.rs
index 6362c88..f418b32 100644
--- a/dochy_fs/src/imp/history/remove/history_remover_item.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover_item.rs
@@ -81,7 +81,8 @@ impl<'a> HistoryRemoverItem<'a>{
                        cur_phase : usize, max_phase : usize, cumulative_option : bool) -> HistoryRemoverItem<'a>{
 
         let r = composite_remover(src.items(), src.children(), cur_phase, max_phase, cumulative_option);
-        let cumulative = cur_phase == max_phase && cumulative_option;
+        //cur_phase is the phase of the children
+        let cumulative = cur_phase == max_phase + 1 && cumulative_option;
         HistoryRemoverItem::new(cumulative, props,  r)
     }
 }
-- 
2.43.0


From f3eed818ce22916f2e534fc1629c569c6502c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 17/36] fix: load a history file from the hash directory of its
 file data

---
 .../imp/history/pub_fn/load_history_file.rs   | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
index 5bbc963..c4f077a 100644
--- a/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/load_history_file.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use crate::imp::common::path::hash_dir_path::hash_dir_path;
 use dochy_core::{ adjust_versions};
 use crate::imp::history::file_hist::history_file_data::HistoryFileData;
-use crate::imp::history::current_root_obj_info::history_cache_map::{get_mutex};
+use crate::imp::history::current_root_obj_info::history_cache_map::{get_mutex, get_peekable_info};
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::current_root_obj_info::CurrentRootObjInfo;
 use crate::imp::history::diff_and_cache::dochy_cache::DochyCache;
@@ -18,15 +18,30 @@ pub fn load_history_file(history_info : &HistoryInfo,
                          history : &FileHistory,
                          validation : bool) -> FsResult<RootObject> {
 
+    let hash = get_peekable_info(history_info).hash();
+    load_history_file_with_hash(history_info, hash, props, history, validation)
+}
+
+fn load_history_file_with_hash(history_info : &HistoryInfo,
+                               hash : u128,
+                               props : &FileNameProps,
+                               history : &FileHistory,
+                               validation : bool) -> FsResult<RootObject> {
+
     let mut guard = get_mutex(history_info.history_dir()).unwrap();
     let c = guard.peekable();
-    let hash = c.hash();
+    let current_hash = c.hash();
     let op = c.history_options().clone();
     let (cache,h) = guard.muts();
     match load_impl(history_info.history_dir(), hash,
                     props, history, cache, &op, validation){
         Ok(root) =>{
-            *h = Some(CurrentRootObjInfo::new(root.id(), props.clone()));
+            //the next save can't be derived from a file of another hash directory
+            *h = if hash == current_hash{
+                Some(CurrentRootObjInfo::new(root.id(), props.clone()))
+            } else{
+                None
+            };
             Ok(root)
         },
         Err(e) => Err(e),
@@ -59,5 +74,5 @@ fn load_impl<P : AsRef<Path>>(history_dir : P,
 pub fn load_history_file_data(history_info : &HistoryInfo,
                               data : &HistoryFileData,
                               validation : bool) -> FsResult<RootObject> {
-    load_history_file(history_info, data.props(), data.history(), validation)
+    load_history_file_with_hash(history_info, data.hash(), data.props(), data.history(), validation)
 }
\ No newline at end of file
-- 
2.43.0


From 912ecad43c969acd1a847c9cd1d4ad9cf0d1f590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:55 +0000
Subject: [PATCH 18/36] fix: refuse to save a Dochy file with a reserved file
 name

---
 dochy_fs/src/imp/filesys/save_dochy_file.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index 8ebcb68..f570ed0 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -6,6 +6,7 @@ use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
+use crate::imp::common::path::reserved_filename::is_reserved_filename;
 
 
 /// saves a Dochy file.
@@ -13,6 +14,9 @@ pub fn save_dochy_file(info : &SaveDirInfo,
                        file_name : &str,
                        root: &RootObject,
                        overwrite : bool) -> FsResult<PathBuf>{
+    if is_reserved_filename(file_name){
+        Err(format!("{} couldn't be saved. {} is a system file.", file_name, file_name))?
+    }
     let mutex = get_mutex(info.save_dir()).unwrap();
     let info = mutex.cache();
     let save_dir = info.save_dir();
-- 
2.43.0


From 7acff5affe1916670cf20afd2556f14e26112737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:21 +0000
Subject: [PATCH 19/36] fix: refuse integers longer than 8 bytes when decoding

---
 dochy_compaction/src/enc_dec/var_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dochy_compaction/src/enc_dec/var_int.rs b/dochy_compaction/src/enc_dec/var_int.rs
index 82e1dc8..cde68e6 100644
--- a/dochy_compaction/src/enc_dec/var_int.rs
+++ b/dochy_compaction/src/enc_dec/var_int.rs
@@ -1,6 +1,6 @@
 use super::signed_bytes::{signed_bytes, signed_bytes128};
 use arrayvec::ArrayVec;
-use anyhow::{Result};
+use anyhow::{bail, Result};
 use std::io::{Write, Read};
 use crate::enc_dec::writer::Writer;
 use crate::enc_dec::reader::Reader;
@@ -136,6 +136,7 @@ pub(crate) fn write<T : Write>(int : i64, writer : &mut Writer<T>) -> Result<usi
 
 pub(crate) fn read<T : Read>(reader : &mut Reader<T>) -> Result<(i64, usize)> {
     let bytes_len = reader.read_byte()? as usize;
+    if 8 < bytes_len{ bail!("var_int's length must be 0..=8") }
     let bytes = reader.read(bytes_len)?;
     Ok((super::var_int::decode(bytes), bytes_len + 1))
 }
\ No newline at end of file
-- 
2.43.0


From b11c9027bdacb1e9bb88182ebab680ab15bb65ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:22 +0000
Subject: [PATCH 20/36] fix: report a tag length that can not be allocated as
 an error

---
 dochy_compaction/src/enc_dec/reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dochy_compaction/src/enc_dec/reader.rs b/dochy_compaction/src/enc_dec/reader.rs
index e28bae4..2d8d4bd 100644
--- a/dochy_compaction/src/enc_dec/reader.rs
+++ b/dochy_compaction/src/enc_dec/reader.rs
@@ -17,7 +17,7 @@ impl<'a, T : Read> Reader<'a, T>{
         Ok(buf[0])
     }
     pub fn read(&mut self, bytes : usize) -> Result<&[u8]>{
-        self.set_buf_len(bytes);
+        self.set_buf_len(bytes)?;
         self.read.read_exact(&mut self.buf)?;
         self.len += self.buf.len();
         Ok(&self.buf)
@@ -69,13 +69,14 @@ impl<'a, T : Read> Reader<'a, T>{
 
     pub fn bytes_read(&self) -> usize{ self.len }
 
-    fn set_buf_len(&mut self, len : usize){
+    fn set_buf_len(&mut self, len : usize) -> Result<()>{
         let capacity = self.buf.capacity();
         if len <= capacity{
             unsafe{ self.buf.set_len(len) }
         } else{
-            self.buf.reserve(len - self.buf.len());
+            self.buf.try_reserve(len - self.buf.len())?;
             unsafe{ self.buf.set_len(len); }
         }
+        Ok(())
     }
 }
\ No newline at end of file
-- 
2.43.0


From 291c5d3d2cc2b4b129c02852653e0ec1503e31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:08 +0000
Subject: [PATCH 21/36] fix: record a change between 0.0 and -0.0 in a diff

---
 dochy_core/src/imp/structs/rust_array.rs                | 2 +-
 dochy_core/src/imp/structs/util/identity_equal_trait.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/structs/rust_array.rs b/dochy_core/src/imp/structs/rust_array.rs
index 98e0a76..2e81425 100644
--- a/dochy_core/src/imp/structs/rust_array.rs
+++ b/dochy_core/src/imp/structs/rust_array.rs
@@ -73,7 +73,7 @@ impl RustFloatArray{
 
 impl IdentityEqual for RustFloatArray{
     fn identity_eq(&self, other: &Self) -> bool {
-        self.b == other.b
+        self.b.len() == other.b.len() && self.b.iter().zip(other.b.iter()).all(|(l, r)| l.identity_eq(r))
     }
 }
 
diff --git a/dochy_core/src/imp/structs/util/identity_equal_trait.rs b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
index 15de962..27dc53d 100644
--- a/dochy_core/src/imp/structs/util/identity_equal_trait.rs
+++ b/dochy_core/src/imp/structs/util/identity_equal_trait.rs
@@ -43,7 +43,8 @@ impl IdentityEqual for i64{
 
 impl IdentityEqual for f64{
     fn identity_eq(&self, other: &Self) -> bool {
-        self == other
+        //0.0 == -0.0 but they are different values
+        self.to_bits() == other.to_bits()
     }
 }
 
-- 
2.43.0


From 17401b5039895b6d123db43abe5b2808ad43947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:38 +0000
Subject: [PATCH 22/36] fix: replace the enum reference of an item when
 applying a diff

---
 dochy_core/src/imp/structs/meta_table.rs          | 13 ++++++++-----
 dochy_diff/src/imp/apply/modify_item_from_diff.rs |  3 +++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dochy_core/src/imp/structs/meta_table.rs b/dochy_core/src/imp/structs/meta_table.rs
index 422f27a..5e4380c 100644
--- a/dochy_core/src/imp/structs/meta_table.rs
+++ b/dochy_core/src/imp/structs/meta_table.rs
@@ -44,12 +44,15 @@ impl PartialEq for MetaTable{
 pub struct MetaTables{
     items : MetaTable,
     refs : MetaTable,
+    is_enum : bool,
 }
 
 impl MetaTables{
-    fn new(items : MetaTable, refs : MetaTable) -> MetaTables{ MetaTables{ items, refs }}
+    fn new(items : MetaTable, refs : MetaTable, is_enum : bool) -> MetaTables{ MetaTables{ items, refs, is_enum }}
     pub fn items(&self) -> &MetaTable{ &self.items }
     pub fn refs(&self) -> &MetaTable{ &self.refs }
+    /// only one of the refs can be set when it's an enum
+    pub fn is_enum(&self) -> bool{ self.is_enum }
 }
 
 #[derive(Debug, PartialEq)]
@@ -111,11 +114,11 @@ impl MetaTable{
                     let val = if l.undefiable() {
                         MetaValue::OptMil(MetaTables::new(
                             Self::from_list_def(def.default()),
-                            Self::from_ref_def(def.refs().refs())))
+                            Self::from_ref_def(def.refs().refs()), def.refs().is_enum()))
                     } else{
                         MetaValue::MList(MetaTables::new(
                             Self::from_list_def(def.default()),
-                            Self::from_ref_def(def.refs().refs())))
+                            Self::from_ref_def(def.refs().refs()), def.refs().is_enum()))
                     };
                     vec[*id] = Some((key, val));
                 },
@@ -139,11 +142,11 @@ impl MetaTable{
                     if mil.undefiable(){
                         vec[id] = Some((key, MetaValue::OptMil(MetaTables::new(
                             Self::from_list_def(def.default()),
-                            Self::from_ref_def(def.refs().refs())))));
+                            Self::from_ref_def(def.refs().refs()), def.refs().is_enum()))));
                     } else{
                         vec[id] = Some((key, MetaValue::MList(MetaTables::new(
                             Self::from_list_def(def.default()),
-                            Self::from_ref_def(def.refs().refs())))));
+                            Self::from_ref_def(def.refs().refs()), def.refs().is_enum()))));
                     }
                 },
                 ListDefValue::CilDef(_)=>{},
diff --git a/dochy_diff/src/imp/apply/modify_item_from_diff.rs b/dochy_diff/src/imp/apply/modify_item_from_diff.rs
index 3558a4d..b2bf90d 100644
--- a/dochy_diff/src/imp/apply/modify_item_from_diff.rs
+++ b/dochy_diff/src/imp/apply/modify_item_from_diff.rs
@@ -13,6 +13,9 @@ pub(crate) fn modify_item_from_diff(item : &mut MutItem, diff : ListItemDiffR,
     apply_lists(lists, meta.items(), values)?;
 
     let ref_hash = item.refs_mut();
+    if meta.is_enum() && refs.is_empty() == false{
+        ref_hash.clear();
+    }
     apply_refs(refs, meta.refs(), ref_hash)?;
 
     Ok(())
-- 
2.43.0


From 0d73da22e23b2a96f55b67efa32725db257e7f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:57 +0000
Subject: [PATCH 23/36] fix: make the source hash independent of the location
 of the directory

---
 .../src/imp/read_archive_data_from_directory.rs       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
index 34de3ba..0c519c1 100644
--- a/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
+++ b/dochy_archiver2/src/imp/read_archive_data_from_directory.rs
@@ -9,18 +9,19 @@ pub fn read_archive_data_from_directory<
     T : Send + 'static>(path : P,
                         opt : &ArchiveOptions,
                         converter : impl Fn(&str, &[u8]) -> T + Send + Sync + 'static) -> ArcResult<ArchiveData<T>>{
+    let root = path.as_ref();
     let mut btree : BTreeSet<String> = BTreeSet::new();
-    get_paths_from_dir(path, opt, &mut btree)?;
+    get_paths_from_dir(root, root, opt, &mut btree)?;
     let mut archiver = Archiver::new(converter);
     for path in btree {
-        let data = std::fs::read(&path)?;
+        let data = std::fs::read(root.join(&path))?;
         archiver.archive(path, data);
     }
     let hoge = archiver.finish();
     return hoge;
 }
 
-fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
+fn get_paths_from_dir<P : AsRef<Path>>(root : &Path, current_path : P, opt : &ArchiveOptions, btree : &mut BTreeSet<String>) -> ArcResult<()>{
     let dirs = std::fs::read_dir(current_path)?;
 
     for dir in dirs {
@@ -31,11 +32,13 @@ fn get_paths_from_dir<P : AsRef<Path>>(current_path : P, opt : &ArchiveOptions,
             let path = de.path();
             let ext = path.extension().map_or("", |e| e.to_str().unwrap_or(""));
             if opt.is_archived(ext){
+                //root からの相対パスにしないと、ディレクトリの場所によってhashが変わってしまう
+                let path = path.strip_prefix(root).unwrap_or(&path);
                 btree.insert(path.to_string_lossy().to_string());
             }
         } else if meta.is_dir(){
             if opt.archive_subfolders(){
-                get_paths_from_dir(de.path(), opt, btree)?;
+                get_paths_from_dir(root, de.path(), opt, btree)?;
             }
         }
     }
-- 
2.43.0


From e267d38d1f9ee38204e1ed1c0e99e6263fdf815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:57 +0000
Subject: [PATCH 24/36] fix: include the lengths of names and contents in the
 source hash

---
 dochy_archiver2/src/imp/structs/hash_thread.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dochy_archiver2/src/imp/structs/hash_thread.rs b/dochy_archiver2/src/imp/structs/hash_thread.rs
index 165a2bc..145edc2 100644
--- a/dochy_archiver2/src/imp/structs/hash_thread.rs
+++ b/dochy_archiver2/src/imp/structs/hash_thread.rs
@@ -20,7 +20,10 @@ impl HashThread{
                     Ok(Some((path, v))) =>{
                         let path : String = path;
                         let v : Arc<Vec<u8>> = v;
+                        //長さを含めないと、pathとデータの境界が異なるものが同じhashになる
+                        hasher.write_u64(path.len() as u64);
                         hasher.write(path.as_bytes());
+                        hasher.write_u64(v.len() as u64);
                         hasher.write(v.as_ref())
                     },
                     Ok(None) => break,
-- 
2.43.0


From baefe54e17b5aae0b323a1eba429718b814fe718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:20 +0000
Subject: [PATCH 25/36] fix: ignore file names which only resemble the name of
 a history file

---
 dochy_fs/src/imp/history/file_name/analyze_file_name.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
index 74dd20d..a9d0c23 100644
--- a/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
+++ b/dochy_fs/src/imp/history/file_name/analyze_file_name.rs
@@ -43,7 +43,8 @@ use std::str::FromStr;
 /// それが最新でないならば管理番号を新しくつけ直す。
 ///
 /// 実装には正規表現を使うべきだろうが、手で書いたほうが動作速度が速いと思っているし、この処理はできるだけ速くしたい
-pub(crate) fn analyze_file_name(s : &str, hint_max_phase : Option<usize>) -> Option<FileNameProps>{
+pub(crate) fn analyze_file_name(file_name : &str, hint_max_phase : Option<usize>) -> Option<FileNameProps>{
+    let s = file_name;
     if s.ends_with(".his") == false{
         return None;
     }
@@ -82,7 +83,10 @@ pub(crate) fn analyze_file_name(s : &str, hint_max_phase : Option<usize>) -> Opt
             if s == ".his" && order.len() != 0{
                 if let Ok(props) = FileNameProps::new(n, prev_ctl,
                                                       order, tag.map(|t| t.to_string())){
-                    return Some(props);
+                    //_00_0.his や __0.his などを別のファイルとして扱ってはいけない
+                    if props.calc_filename() == file_name {
+                        return Some(props);
+                    }
                 }
             }
             return None;
-- 
2.43.0


From d2605b67e7375fa9595e1cb41531c9090099337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:20 +0000
Subject: [PATCH 26/36] fix: refuse file names with path components when saving
 and removing Dochy files

---
 dochy_fs/src/imp/common/path/reserved_filename.rs | 5 +++++
 dochy_fs/src/imp/filesys/remove_dochy_file.rs     | 5 ++++-
 dochy_fs/src/imp/filesys/save_dochy_file.rs       | 5 ++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dochy_fs/src/imp/common/path/reserved_filename.rs b/dochy_fs/src/imp/common/path/reserved_filename.rs
index d36492d..0432640 100644
--- a/dochy_fs/src/imp/common/path/reserved_filename.rs
+++ b/dochy_fs/src/imp/common/path/reserved_filename.rs
@@ -6,6 +6,11 @@ pub const ARCHIVE_DEFAULT_NAME : &'static str = "src.archive";
 /// the file name of the files which contains "created time"
 pub const CREATED_TIME_FILE_NAME : &'static str = "created_time.dat";
 
+/// false if the name can designate something other than a file directly in the directory
+pub(crate) fn is_plain_filename(filename : &str) -> bool{
+    std::path::Path::new(filename).file_name() == Some(std::ffi::OsStr::new(filename))
+}
+
 pub(crate) fn is_reserved_filename(filename : &str) -> bool{
     filename == ARCHIVE_DEFAULT_NAME || filename == CREATED_TIME_FILE_NAME
 }
\ No newline at end of file
diff --git a/dochy_fs/src/imp/filesys/remove_dochy_file.rs b/dochy_fs/src/imp/filesys/remove_dochy_file.rs
index 6dd2bfa..546838b 100644
--- a/dochy_fs/src/imp/filesys/remove_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/remove_dochy_file.rs
@@ -1,10 +1,13 @@
 use std::path::Path;
 use crate::error::FsResult;
-use crate::imp::common::path::reserved_filename::is_reserved_filename;
+use crate::imp::common::path::reserved_filename::{is_plain_filename, is_reserved_filename};
 use crate::imp::common::path::hash_dir_path::hash_dir_path;
 
 ///Dochy files can be safely removed.
 pub fn remove_dochy_file<P : AsRef<Path>>(save_dir : P, hash : u128, filename : &str) -> FsResult<()>{
+    if is_plain_filename(filename) == false{
+        Err(format!("{} is not a file name", filename))?
+    }
     if is_reserved_filename(filename) == false{
         let dir = hash_dir_path(save_dir, hash);
         let file_path = dir.join(filename);
diff --git a/dochy_fs/src/imp/filesys/save_dochy_file.rs b/dochy_fs/src/imp/filesys/save_dochy_file.rs
index f570ed0..47331bb 100644
--- a/dochy_fs/src/imp/filesys/save_dochy_file.rs
+++ b/dochy_fs/src/imp/filesys/save_dochy_file.rs
@@ -6,7 +6,7 @@ use dochy_core::structs::RootObject;
 use crate::imp::filesys::save_dir_info::SaveDirInfo;
 use crate::imp::filesys::save_cache_map::{get_mutex};
 use crate::imp::common::path::prepare_hash_dir::prepare_hash_dir;
-use crate::imp::common::path::reserved_filename::is_reserved_filename;
+use crate::imp::common::path::reserved_filename::{is_plain_filename, is_reserved_filename};
 
 
 /// saves a Dochy file.
@@ -14,6 +14,9 @@ pub fn save_dochy_file(info : &SaveDirInfo,
                        file_name : &str,
                        root: &RootObject,
                        overwrite : bool) -> FsResult<PathBuf>{
+    if is_plain_filename(file_name) == false{
+        Err(format!("{} is not a file name", file_name))?
+    }
     if is_reserved_filename(file_name){
         Err(format!("{} couldn't be saved. {} is a system file.", file_name, file_name))?
     }
-- 
2.43.0


From db5740c2dab0adc028a95b98e4783023c8abde80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:21 +0000
Subject: [PATCH 27/36] fix: keep the ancestors of a kept file when the max
 phase 0 is cumulative

---
 dochy_fs/src/imp/history/remove/history_remover.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dochy_fs/src/imp/history/remove/history_remover.rs b/dochy_fs/src/imp/history/remove/history_remover.rs
index 919ffe6..88acac3 100644
--- a/dochy_fs/src/imp/history/remove/history_remover.rs
+++ b/dochy_fs/src/imp/history/remove/history_remover.rs
@@ -70,15 +70,13 @@ impl<'a> HistoryRemoverCtlItem<'a>{
     }
 
     pub(crate) fn get_item_from_cue(&self, cue_order : &[u32], cue_order_last : Option<u32>) -> Option<&'a HistoryRemoverItem>{
-        let mut item = self.items.get(cue_order.get(0)?)?;
+        //cue_order is empty when the max phase is 0 and cumulative
+        let mut iter = cue_order.iter().chain(cue_order_last.iter());
+        let mut item = self.items.get(iter.next()?)?;
 
-        for ind in &cue_order[1..]{
+        for ind in iter{
             item = item.children().get(ind)?;
         }
-
-        if let Some(ind) = cue_order_last{
-            item = item.children().get(&ind)?;
-        }
         Some(item)
     }
 
-- 
2.43.0


From bf3cc6c714de3040f18654e7c26db5cb1f0fbcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:21 +0000
Subject: [PATCH 28/36] fix: ignore directory entries whose names are not
 unicode when listing a history

---
 dochy_fs/src/imp/history/file_hist/create_file_history.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dochy_fs/src/imp/history/file_hist/create_file_history.rs b/dochy_fs/src/imp/history/file_hist/create_file_history.rs
index 9a55f42..0ae6e61 100644
--- a/dochy_fs/src/imp/history/file_hist/create_file_history.rs
+++ b/dochy_fs/src/imp/history/file_hist/create_file_history.rs
@@ -9,9 +9,9 @@ pub(crate) fn create_file_history(history_hash_dir: &Path, max_phase : usize, cu
     let mut history = FileHistory::new(max_phase, cumulative);
     for entry in dir {
         let entry = entry?;
-        let filename = entry.path().file_name()
-            .ok_or_else(|| format!("The filename couldn't be found {:?}", entry.path()))?.to_string_lossy().to_string();
-        if let Some(props) = analyze_file_name(&filename, Some(max_phase)) {
+        let filename = entry.file_name();
+        //a name which isn't valid unicode isn't a name of a history file
+        if let Some(props) = filename.to_str().and_then(|name| analyze_file_name(name, Some(max_phase))) {
             history.add(props)
         } else{
         }
-- 
2.43.0


From aad2bdd5587d7afc8d2444041604e3fd0f1545b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:21 +0000
Subject: [PATCH 29/36] fix: refuse a definition that defines a member twice

---
 dochy_core/src/imp/json_to_rust/construct_root.rs   | 3 +++
 dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dochy_core/src/imp/json_to_rust/construct_root.rs b/dochy_core/src/imp/json_to_rust/construct_root.rs
index e4e9963..44e4c34 100644
--- a/dochy_core/src/imp/json_to_rust/construct_root.rs
+++ b/dochy_core/src/imp/json_to_rust/construct_root.rs
@@ -15,6 +15,9 @@ pub(crate) fn construct_root(root : RootObject, vec : Vec<(String, RootValue, Op
     let mut vec = vec;
     vec.sort_by(|(a,_,_),(b,_,_)| a.cmp(b));
     for (name, value, sab) in vec {
+        if default.contains_key(&name){
+            Err(format!("{} is defined multiple times", name))?
+        }
         let id = default.len();
         default.insert(name.to_string(), (id, value));
         if let Some(sab) = sab{
diff --git a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
index 591eea7..3881e46 100644
--- a/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
+++ b/dochy_core/src/imp/json_to_rust/json_obj_to_rust.rs
@@ -29,6 +29,9 @@ pub(crate) fn json_obj_to_rust(v : &LinkedHashMap<String, JVal>, is_ref_obj : bo
                     json_item_to_rust(&name, vt,v, names)?
                 };
 
+                if r.default.contains_key(&*name){
+                    Err(format!("{} {} is defined multiple times {}", span.line_str(), name, names))?
+                }
                 r.insert_default(name.to_string(), id, v);
                 counter += 1;
             },
-- 
2.43.0


From 2b8cec2f0a3a473b5e511093f27bb45f88051641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:38 +0000
Subject: [PATCH 30/36] fix: start a new history when an older file is derived
 with max phase 0

---
 .../src/imp/history/pub_fn/save_history_file.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 32dabea..611e344 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -97,15 +97,22 @@ fn save_history_file_impl(history_info: &HistoryInfo,
             if let Some(newest) = history.get_newest_prop() {
                 let from = if info.current_base_file().phase() == opt.max_phase() && info.current_base_file() != newest {
                     //最新ファイルからの派生でない場合、キャッシュに乗っていない可能性がより高いし、最終フェーズの計算が面倒でもあるので、親から派生する
-                    history.get_parent(info.current_base_file()).ok_or("no parents found")?
+                    if opt.max_phase() == 0{
+                        //phase 0 には親がないので、新しく始める
+                        None
+                    } else {
+                        Some(history.get_parent(info.current_base_file()).ok_or("no parents found")?)
+                    }
                 } else {
-                    info.current_base_file()
+                    Some(info.current_base_file())
                 };
 
-                let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
-                *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
+                if let Some(from) = from {
+                    let saved = derive_impl(tag, root, cache, &history_hash_dir, &history, from, opt)?;
+                    *h = Some(CurrentRootObjInfo::new(root_id, saved.clone()));
 
-                return Ok(saved);
+                    return Ok(saved);
+                }
             }
         }
     }
-- 
2.43.0


From dbd4bf855b6f60f49314ae8a0b4b7ed5a326b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:43 +0000
Subject: [PATCH 31/36] fix: find the parent phase file of a derived cumulative
 file

---
 dochy_fs/src/imp/history/pub_fn/save_history_file.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
index 611e344..da1e635 100644
--- a/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
+++ b/dochy_fs/src/imp/history/pub_fn/save_history_file.rs
@@ -5,6 +5,7 @@ use crate::imp::history::fs::start_new::start_new as fs_start_new;
 use crate::imp::history::file_name::file_name_props::FileNameProps;
 use crate::imp::history::file_hist::create_file_history::create_file_history;
 use crate::imp::history::fs::derive_impl::derive_impl;
+use crate::imp::history::file_hist::ancestors::create_ancestors;
 use std::sync::Weak;
 use crate::imp::history::history_info::HistoryInfo;
 use crate::imp::history::current_root_obj_info::history_cache_map::get_mutex;
@@ -101,7 +102,9 @@ fn save_history_file_impl(history_info: &HistoryInfo,
                         //phase 0 には親がないので、新しく始める
                         None
                     } else {
-                        Some(history.get_parent(info.current_base_file()).ok_or("no parents found")?)
+                        //cumulativeの場合、直前のファイルと親ファイルのcontrolは異なることがある
+                        let ancestors = create_ancestors(&history, info.current_base_file(), opt.max_phase(), opt.is_cumulative())?;
+                        Some(*ancestors.get(opt.max_phase() - 1).ok_or("no parents found")?)
                     }
                 } else {
                     Some(info.current_base_file())
-- 
2.43.0


From 81d59aaef43b1a69c9e0df2680e586c580822c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:43 +0000
Subject: [PATCH 32/36] fix: refuse references the declaration does not allow

---
 dochy_core/src/imp/intf/mitem.rs | 35 +++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/dochy_core/src/imp/intf/mitem.rs b/dochy_core/src/imp/intf/mitem.rs
index 6841811..5ee45c7 100644
--- a/dochy_core/src/imp/intf/mitem.rs
+++ b/dochy_core/src/imp/intf/mitem.rs
@@ -373,11 +373,35 @@ pub fn get_param_mut<'a>(ps : MItemPtr, name : &str) -> Option<&'a mut RustParam
 }
 
 pub fn set_ref(ps : MItemPtr, list_name : &str, id : Qv<String>) -> bool{
-    let item = unsafe{ ps.item_mut() };
+    let (item, def) = unsafe{ (ps.item_mut(), &*ps.list_def) };
+    if def.refs().is_enum() || ref_acceptable(ps, list_name, &id) == false{
+        return false;
+    }
     item.refs_mut().insert(list_name.to_string(), RefSabValue::new(id));
     return true;
 }
 
+/// Checks if the ref is declared, allows the null or undefined, and the table has the id
+fn ref_acceptable(ps : MItemPtr, list_name : &str, id : &Qv<String>) -> bool{
+    let def = unsafe{ &*ps.list_def };
+    if let Some(r) = def.refs().refs().get(list_name){
+        if r.var_type().acceptable(&id.qv_type()) == false{
+            return false;
+        }
+    } else{
+        return false;
+    }
+    if let Qv::Val(id) = id{
+        if let Some(table) = super::root::get_table(ps.root_def, list_name){
+            super::table::get_value(table, id).is_some()
+        } else{
+            false
+        }
+    } else{
+        true
+    }
+}
+
 pub fn get_ref(ps : MItemPtr, list_name : &str) -> Option<Qv<CItemPtr>>{
     let qv = get_ref_id(ps, list_name)?;
     qv.opt_map(|id|{
@@ -397,9 +421,14 @@ pub fn get_enum(ps : MItemPtr) -> Option<(String, String)>{
 }
 
 pub fn set_enum(ps : MItemPtr, list_name : &str, id : &str) -> bool{
-    let item = unsafe{ ps.item_mut() };
+    let (item, def) = unsafe{ (ps.item_mut(), &*ps.list_def) };
+    let id = Qv::Val(id.to_string());
+    if def.refs().is_enum() == false || ref_acceptable(ps, list_name, &id) == false{
+        return false;
+    }
     item.refs_mut().clear();
-    set_ref(ps, list_name, Qv::Val(id.to_string()))
+    item.refs_mut().insert(list_name.to_string(), RefSabValue::new(id));
+    return true;
 }
 
 /// Sets itinital value(0, empty string, zero-filled vec) to the parameter.
-- 
2.43.0


From b97aee7a0dcd5378153417ff3962d8eb2bcb79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 33/36] fix: refuse a digit after the escape of a null
 character

---
 dochy_json5/src/json5.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dochy_json5/src/json5.pest b/dochy_json5/src/json5.pest
index 0b90104..c754741 100644
--- a/dochy_json5/src/json5.pest
+++ b/dochy_json5/src/json5.pest
@@ -80,7 +80,7 @@ line_terminator_sequence = _{ "\u{000D}" ~ "\u{000A}" | line_terminator }
 
 non_escape_char = _{ !(escape_char | line_terminator) ~ ANY }
 
-nul_escape_sequence = @{ "0" }
+nul_escape_sequence = @{ "0" ~ !ASCII_DIGIT }
 
 null = @{ "null" }
 
-- 
2.43.0


From f2377efde3f0d5cde5830e34e72f58dd174dce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 34/36] fix: refuse null and undefined defaults the member does
 not allow

---
 .../src/imp/json_to_rust/validation/validate_list_def.rs    | 6 +++++-
 dochy_core/src/imp/json_to_rust/validation/validate_root.rs | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
index 1451db3..1c009d5 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_list_def.rs
@@ -35,7 +35,11 @@ pub(crate) fn validate_list_def(def : &ListDefObj, root : &RootObject, can_use_o
                 }
                 validate_list_def(d, root, can_use_old, is_mut,&names.append(name))?;
             },
-            ListDefValue::Param(_,_) => {},
+            ListDefValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false {
+                    Err(format!("{} {}'s default value is not allowed", names, name))?
+                }
+            },
             //_ => { Err(format!("{} {} can't be defined here", names, name))? }
         }
     }
diff --git a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
index 9fd7f26..a7bc078 100644
--- a/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
+++ b/dochy_core/src/imp/json_to_rust/validation/validate_root.rs
@@ -33,7 +33,10 @@ pub(crate) fn validate_root(root : &RootObject, can_use_old: bool) -> CoreResult
         //RootはOldでも値を入れざるを得ないので入れて良い
         //なのでここではOldは無視
         match val {
-            RootValue::Param(p, _) => {
+            RootValue::Param(p, vt) => {
+                if vt.acceptable(&p.qv_type()) == false {
+                    Err(format!("Root's member {}'s value is not allowed", name))?
+                }
                 if let Some(sab) = root.sabun().get(name) {
                     if let RootSabValue::Param(sab) = sab {
                         if p.acceptable(sab) == false {
-- 
2.43.0


From 7eac53d34bb41a1ee2c6567e361db2a09ebd1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 35/36] fix: refuse item IDs and NextID that are not whole
 numbers from 0

---
 dochy_core/src/imp/json_to_rust/get_id.rs              | 2 +-
 dochy_core/src/imp/json_to_rust/list/list_attribute.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/get_id.rs b/dochy_core/src/imp/json_to_rust/get_id.rs
index 52cd204..823797c 100644
--- a/dochy_core/src/imp/json_to_rust/get_id.rs
+++ b/dochy_core/src/imp/json_to_rust/get_id.rs
@@ -4,7 +4,7 @@ use dochy_json5::{JVal};
 pub(crate) fn get_id(v : &JVal) -> Option<IdValue> {
     match v {
         JVal::String(s, _) => Some(IdValue::Str(s.to_string())),
-        JVal::Double(d, _) => Some(IdValue::Num(*d as u64)),
+        JVal::Double(d, _) if *d >= 0.0 && *d < u64::MAX as f64 && d.fract() == 0.0 => Some(IdValue::Num(*d as u64)),
         _ => None
     }
 }
\ No newline at end of file
diff --git a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
index f9d1dd3..70b487c 100644
--- a/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
+++ b/dochy_core/src/imp/json_to_rust/list/list_attribute.rs
@@ -38,7 +38,7 @@ pub(crate) fn list_attribute(array : &Vec<JVal>, span : &Span, names : &Names) -
                 "NextID" =>{
                     if array.len() == 2{
                         match array[1]{
-                            JVal::Int(n, _) =>{
+                            JVal::Int(n, _) if n >= 0 =>{
                                 return Ok(ListAttribute::NextID(n as u64))
                             }
                             _ =>{}
-- 
2.43.0


From d82d34ddff8c117275194f40ebe4b7876287a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 36/36] fix: refuse repeated IDs of rows and items and a NextID
 already in use

---
 .../src/imp/json_to_rust/tmp/tmp_list.rs      | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
index 60f26bb..14ae3db 100644
--- a/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
+++ b/dochy_core/src/imp/json_to_rust/tmp/tmp_list.rs
@@ -136,9 +136,7 @@ impl TmpList{
             Err(format!("{} Default must be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
         //let compatible = self.compatible.unwrap_or_else(|| HashSt::new());
         let def = self.default.unwrap();
         Ok((MutListDef::new(def, undefiable), Some(MutListVal::new(items))))
@@ -155,9 +153,7 @@ impl TmpList{
             Err(format!("{} Default must not be defined {}", self.span.line_str(), self.span.slice()))?
         }
 
-        let next_id = self.next_id.unwrap_or(self.vec.len() as u64);
-
-        let items = to_mut_list_items(self.vec, next_id)?;
+        let items = to_mut_list_items(self.vec, self.next_id)?;
 
         Ok(MutListVal::new(items))
     }
@@ -212,18 +208,33 @@ fn to_list_items(vec : Vec<TmpObj>) -> CoreResult<Vec<ConstItem>>{
 fn to_data_items(vec : Vec<TmpObj>) -> CoreResult<HashM<String, ConstItem>>{
     let mut result : HashM<String, ConstItem> = HashMt::with_capacity(vec.len());
     for item in vec{
+        let span = item.span.clone();
         let (s,m) = item.into_list_item_with_id()?;
+        if result.contains_key(&s){
+            Err(format!("{} ID {} is defined multiple times {}", span.line_str(), s, span.slice()))?
+        }
         result.insert(s, m);
     }
     return Ok(result);
 }
 
-fn to_mut_list_items(vec : Vec<TmpObj>, next_id : u64) -> CoreResult<LinkedMap<MutItem>>{
+fn to_mut_list_items(vec : Vec<TmpObj>, next_id : Option<u64>) -> CoreResult<LinkedMap<MutItem>>{
     let mut result : Vec<(u64, MutItem)> = Vec::with_capacity(vec.len());
+    let mut used : HashS<u64> = HashSt::new();
+    let mut unused_id = vec.len() as u64;
     for (idx, tmp_item) in vec.into_iter().enumerate(){
-        //let span = tmp_item.span.clone();
+        let span = tmp_item.span.clone();
         let pair = tmp_item.into_mut_list_item(idx)?;
+        if used.insert(pair.0) == false{
+            Err(format!("{} ID {} is defined multiple times {}", span.line_str(), pair.0, span.slice()))?
+        }
+        if pair.0 >= next_id.unwrap_or(u64::MAX){
+            Err(format!("{} ID {} must be less than NextID {}", span.line_str(), pair.0, span.slice()))?
+        }
+        if unused_id <= pair.0{
+            unused_id = pair.0 + 1;
+        }
         result.push(pair);
     }
-    return Ok(LinkedMap::construct(result, next_id));
+    return Ok(LinkedMap::construct(result, next_id.unwrap_or(unused_id)));
 }
\ No newline at end of file
-- 
2.43.0

