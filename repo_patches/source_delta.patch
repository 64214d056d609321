From 7a3b066c1da06f9ce54ed32ea24ed365239918bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:25 +0000
Subject: [PATCH 1/9] fix: write whole strings when serializing mapblocks

Write::write may accept only part of the data (a compressing writer does so
for long strings), which truncated metadata and produced a corrupt mapblock.
---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From 77d64141de68453d4fa32c12670e7f2b53ed481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:21 +0000
Subject: [PATCH 2/9] fix: read the param2 argument of setparam2

---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From 1561421c5ac3c6b1efb0af1a2b6ad9b92e6015b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:39 +0000
Subject: [PATCH 3/9] fix: do not treat a failed read as a missing mapblock

---
 src/commands/clone.rs   |  2 +-
 src/commands/overlay.rs |  6 +++---
 src/map_database.rs     | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/commands/clone.rs b/src/commands/clone.rs
index 5fdb0b3..68dccbf 100644
--- a/src/commands/clone.rs
+++ b/src/commands/clone.rs
@@ -35,7 +35,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.find_block(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.map(|d| MapBlock::deserialize(&d));
 			cache.insert(key, block.clone());
diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..f355891 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -65,7 +65,7 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 			} else { // Copy part of mapblock
 				let res = || -> Result<(), MapBlockError> {
 					let dst_data = opt_unwrap_or!(
-						db.get_block(key).ok()
+						db.find_block(key).unwrap()
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
@@ -119,7 +119,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.find_block(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.and_then(|d| MapBlock::deserialize(&d).ok());
 			cache.insert(key, block.clone());
@@ -149,7 +149,7 @@ fn overlay_with_offset(inst: &mut InstBundle) {
 
 		let dst_pos = Vec3::from_block_key(dst_key);
 		let dst_data = opt_unwrap_or!(
-			inst.db.get_block(dst_key).ok().filter(|d| is_valid_generated(d)),
+			inst.db.find_block(dst_key).unwrap().filter(|d| is_valid_generated(d)),
 			continue
 		);
 		let mut dst_block = unwrap_or!(
diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..5836a2a 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -119,6 +119,18 @@ impl<'a> MapDatabase<'a> {
 		value
 	}
 
+	/// Like `get_block`, but only a missing block is `None`; failing to read
+	/// the database is still an error.
+	pub fn find_block(&mut self, map_key: i64)
+		-> Result<Option<Vec<u8>>, DBError>
+	{
+		match self.get_block(map_key) {
+			Ok(data) => Ok(Some(data)),
+			Err(DBError::MissingData) => Ok(None),
+			Err(e) => Err(e)
+		}
+	}
+
 	pub fn set_block(&mut self, map_key: i64, data: &[u8])
 		-> Result<(), DBError>
 	{
-- 
2.43.0


From fdb27a4a06f7e6f7388d20f864bbaabaae498459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:10 +0000
Subject: [PATCH 4/9] fix: do not fill mapblocks that are not generated

---
 src/commands/fill.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..6bf3e51 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -44,6 +44,9 @@ fn fill(inst: &mut InstBundle) {
 		let data = inst.db.get_block(key).unwrap();
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
+		if block.flags & 0x08 != 0 {
+			continue; // Bit 3 set if block is not generated.
+		}
 
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
-- 
2.43.0


From 31a32b0cc329dd0098a8a5a761b4f56119ef61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:13 +0000
Subject: [PATCH 5/9] fix: count the nodes outside the area for inverted fills

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index 6bf3e51..385d857 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -58,7 +58,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				block.node_data.nodes.len() as u64 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 6f4db457267ef6450ca46e5347e7a37839f9fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:42 +0000
Subject: [PATCH 6/9] fix: do not overlay parts of mapblocks that are not
 generated

---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index f355891..f070ea1 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -72,6 +72,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
+					if src_block.flags & 0x08 != 0 {
+						return Ok(()); // Source is not generated.
+					}
 
 					let block_part = area.rel_block_overlap(pos).unwrap();
 					if invert {
-- 
2.43.0


From 6eca0a264201302063d74e368ad566f13d851588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:45 +0000
Subject: [PATCH 7/9] fix: count skipped mapblocks as done when replacing nodes

---
 src/commands/replace_nodes.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/commands/replace_nodes.rs b/src/commands/replace_nodes.rs
index 48653eb..79f89de 100644
--- a/src/commands/replace_nodes.rs
+++ b/src/commands/replace_nodes.rs
@@ -105,6 +105,7 @@ fn replace_nodes(inst: &mut InstBundle) {
 	let mut count = 0;
 
 	for key in keys {
+		inst.status.inc_done();
 		let data = inst.db.get_block(key).unwrap();
 
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
@@ -116,8 +117,6 @@ fn replace_nodes(inst: &mut InstBundle) {
 			let new_data = block.serialize();
 			inst.db.set_block(key, &new_data).unwrap();
 		}
-
-		inst.status.inc_done();
 	}
 
 	inst.status.end_editing();
-- 
2.43.0


From ff3b10050cac132ca36e13a835b114efeeafa6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:47 +0000
Subject: [PATCH 8/9] fix: round object positions without overflow

---
 src/commands/delete_objects.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/delete_objects.rs b/src/commands/delete_objects.rs
index 47fcf88..69b1ff3 100644
--- a/src/commands/delete_objects.rs
+++ b/src/commands/delete_objects.rs
@@ -66,9 +66,9 @@ fn can_delete(
 ) -> bool {
 	// Check area requirement
 	if let Some(a) = area {
-		const DIV_FAC: i32 = 10_000;
+		const DIV_FAC: i64 = 10_000;
 		let rounded_pos = obj.f_pos
-			.map(|v| (v + DIV_FAC / 2).div_euclid(DIV_FAC));
+			.map(|v| (v as i64 + DIV_FAC / 2).div_euclid(DIV_FAC) as i32);
 		if a.contains(rounded_pos) == invert {
 			return false; // Object not included in area.
 		}
-- 
2.43.0


From 8ded32f8a01314a4dfcc302ba775d688f835e75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:29 +0000
Subject: [PATCH 9/9] fix: skip mapblocks with dangling references instead of
 panicking

---
 src/block_utils.rs         |  2 +-
 src/map_block/map_block.rs | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/block_utils.rs b/src/block_utils.rs
index a8d1ca4..a2fbc56 100644
--- a/src/block_utils.rs
+++ b/src/block_utils.rs
@@ -104,7 +104,7 @@ pub fn merge_metadata(
 
 /// Culls duplicate and unused IDs from the name-ID map and node data.
 pub fn clean_name_id_map(block: &mut MapBlock) {
-	let id_count = (block.nimap.get_max_id().unwrap() + 1) as usize;
+	let id_count = block.nimap.get_max_id().unwrap() as usize + 1;
 
 	// Determine which IDs are used.
 	let mut used = vec![false; id_count];
diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..5725530 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -1,5 +1,6 @@
 use super::*;
 use zstd;
+use crate::block_utils::clean_name_id_map;
 
 /*
 Supported mapblock versions:
@@ -115,7 +116,7 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
-		Ok(Self {
+		let mut block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -127,7 +128,34 @@ impl MapBlock {
 			timestamp,
 			nimap: nimap.unwrap(),
 			node_timers
-		})
+		};
+		block.check_references()?;
+
+		// Leave room for adding node names.
+		if block.nimap.get_max_id() >= Some(block.node_data.nodes.len() as u16) {
+			clean_name_id_map(&mut block);
+		}
+		Ok(block)
+	}
+
+	/// Fail if a node has no name or if metadata or a node timer lies outside
+	/// the mapblock.
+	fn check_references(&self) -> Result<(), MapBlockError> {
+		let nodes = &self.node_data.nodes;
+		let in_block = |pos: u16| (pos as usize) < nodes.len();
+		let mut named = vec![false; 1 << 16];
+		for &id in self.nimap.0.keys() {
+			named[id as usize] = true;
+		}
+
+		if nodes.iter().all(|&id| named[id as usize])
+			&& self.metadata.keys().all(|&pos| in_block(pos))
+			&& self.node_timers.iter().all(|t| in_block(t.pos))
+		{
+			Ok(())
+		} else {
+			Err(MapBlockError::BadData)
+		}
 	}
 
 	pub fn serialize(&self) -> Vec<u8> {
-- 
2.43.0

