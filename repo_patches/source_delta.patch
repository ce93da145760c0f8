From 119d717f5231dc6f3f362b99267dbdcd31640c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 01/37] fix: rotating Southwest clockwise by 90 degrees gives
 Northwest

---
 crates/dreammaker/src/dmi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index e4b9d6e..dfd3f2b 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -172,7 +172,7 @@ impl Dir {
             Dir::Northeast => Dir::Southeast,
             Dir::Northwest => Dir::Northeast,
             Dir::Southeast => Dir::Southwest,
-            Dir::Southwest => Dir::Northeast,
+            Dir::Southwest => Dir::Northwest,
         }
     }
 
-- 
2.43.0


From 83f6dc6bd1f03bf73f37c54f36f9cde17c097fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 02/37] fix: map writer reports errors from the final flush

---
 crates/dmm-tools/src/dmm/save_tgm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmm/save_tgm.rs b/crates/dmm-tools/src/dmm/save_tgm.rs
index a43b5fc..fec227d 100644
--- a/crates/dmm-tools/src/dmm/save_tgm.rs
+++ b/crates/dmm-tools/src/dmm/save_tgm.rs
@@ -48,5 +48,5 @@ pub fn save_tgm(map: &Map, w: &mut impl Write) -> io::Result<()> {
         }
     }
 
-    Ok(())
+    f.flush()
 }
-- 
2.43.0


From 285f5dc4a0017266b53ed3d3f151f2f3d30236a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 03/37] fix: map reader honours an escaped backslash at the end
 of a string

---
 crates/dmm-tools/src/dmm/read.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index a1766d2..62734f8 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -89,14 +89,14 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         if in_data_block {
             if in_varedit_block {
                 if in_quote_block {
-                    if ch == b'\\' {
+                    if escaping {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = true;
-                    } else if escaping {
+                        escaping = false;
+                    } else if ch == b'\\' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-                        escaping = false;
+                        escaping = true;
                     } else if ch == b'"' {
                         set_curr_datum_start_location!();
                         curr_datum.push(ch);
-- 
2.43.0


From cb44178b91e00571d1c9d842b56ca9c60e68a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 04/37] fix: malformed map files are reported as errors instead
 of aborting

---
 crates/dmm-tools/src/dmm/read.rs | 83 +++++++++++++++++++++++++-------
 1 file changed, 65 insertions(+), 18 deletions(-)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index 62734f8..f2cf8e0 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -23,7 +23,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut curr_var = Vec::new();
     let mut curr_datum = Vec::new();
     let mut curr_key = 0;
-    let mut curr_key_length = 0;
+    let mut curr_key_length: u8 = 0;
 
     let mut in_quote_block = false;
     let mut in_key_block = false;
@@ -164,13 +164,26 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         } else if in_key_block {
             if ch == b'"' {
                 in_key_block = false;
-                assert!(map.key_length == 0 || map.key_length == curr_key_length);
+                if curr_key_length == 0
+                    || (map.key_length != 0 && map.key_length != curr_key_length)
+                {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!(
+                            "key length {curr_key_length} is not the map's key length {}",
+                            map.key_length
+                        ),
+                    ));
+                }
                 map.key_length = curr_key_length;
             } else {
                 if curr_key == 0 {
                     curr_key_start_location = chars.location();
                 }
                 curr_key = advance_key(chars.location(), curr_key, ch)?;
+                if curr_key_length >= super::MAX_KEY_LENGTH {
+                    return Err(DMError::new(chars.location(), "map key is too long"));
+                }
                 curr_key_length += 1;
             }
         } else if ch == b'"' {
@@ -181,6 +194,11 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 curr_key = 0;
                 curr_key_length = 0;
                 break; // go to grid parsing
+            } else if curr_key_length == 0 {
+                return Err(DMError::new(
+                    chars.location(),
+                    "dictionary entry without a key",
+                ));
             } else {
                 in_data_block = true;
                 after_data_block = false;
@@ -198,9 +216,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
 
     let mut grid = BTreeMap::new();
     let mut reading_coord = Coord::X;
-    let (mut curr_x, mut curr_y, mut curr_z) = (0, 0, 0);
+    let (mut curr_x, mut curr_y, mut curr_z) = (0usize, 0usize, 0usize);
     let (mut max_x, mut max_y, mut max_z) = (0, 0, 0);
-    let mut curr_num = 0;
+    let mut curr_num: usize = 0;
     let mut base_x = 0;
 
     let mut in_coord_block = true;
@@ -226,13 +244,30 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                     ));
                 }
             } else if ch == b')' {
-                assert_eq!(reading_coord, Coord::Z);
+                if reading_coord != Coord::Z {
+                    return Err(DMError::new(
+                        chars.location(),
+                        "Incorrect number of coordinates",
+                    ));
+                }
                 curr_z = take(&mut curr_num);
+                if curr_x < 1 || curr_y < 1 || curr_z < 1 {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("map coordinate out of range: ({curr_x}, {curr_y}, {curr_z})"),
+                    ));
+                }
                 max_z = max(max_z, curr_z);
                 in_coord_block = false;
                 reading_coord = Coord::X;
             } else {
                 match (ch as char).to_digit(10) {
+                    Some(_) if curr_num >= 100_000 => {
+                        return Err(DMError::new(
+                            chars.location(),
+                            "map coordinate is too large",
+                        ));
+                    },
                     Some(x) => curr_num = 10 * curr_num + x as usize,
                     None => {
                         return Err(DMError::new(
@@ -246,7 +281,6 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
-                curr_y -= 1;
             } else if ch == b'\r' {
                 // nothing
             } else if ch == b'\n' {
@@ -262,6 +296,15 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 if curr_key_length == map.key_length {
                     let key = take(&mut curr_key);
                     curr_key_length = 0;
+                    if !map.dictionary.contains_key(&Key(key)) {
+                        return Err(DMError::new(
+                            chars.location(),
+                            format!(
+                                "tile ({curr_x}, {curr_y}, {curr_z}) has undefined key \"{}\"",
+                                super::FormatKey(map.key_length, Key(key))
+                            ),
+                        ));
+                    }
                     if grid.insert((curr_x, curr_y, curr_z), Key(key)).is_some() {
                         return Err(DMError::new(
                             chars.location(),
@@ -269,6 +312,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                         ));
                     }
                     max_x = max(max_x, curr_x);
+                    max_y = max(max_y, curr_y);
                     curr_x += 1;
                 }
             }
@@ -278,22 +322,25 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             in_map_string = true;
         }
     }
-    max_y = max(max_y, curr_y);
 
-    let mut result = Ok(());
-    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
-        if let Some(&tile) = grid.get(&(x + 1, y + 1, z + 1)) {
-            tile
-        } else {
-            result = Err(DMError::new(
-                chars.location(),
-                format!("no value for tile ({}, {}, {})", x + 1, y + 1, z + 1),
-            ));
-            Key(0)
+    // every tile must have a value before the whole array is allocated
+    for z in 1..=max_z {
+        for y in 1..=max_y {
+            for x in 1..=max_x {
+                if !grid.contains_key(&(x, y, z)) {
+                    return Err(DMError::new(
+                        chars.location(),
+                        format!("no value for tile ({x}, {y}, {z})"),
+                    ));
+                }
+            }
         }
+    }
+    map.grid = Array3::from_shape_fn((max_z, max_y, max_x), |(z, y, x)| {
+        grid[&(x + 1, y + 1, z + 1)]
     });
 
-    result
+    Ok(())
 }
 
 fn advance_key(loc: Location, curr_key: KeyType, ch: u8) -> Result<KeyType, DMError> {
-- 
2.43.0


From 3f0614faafdfe2b1519badd5c320b3f6f07379b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 05/37] fix: file ids stay distinct from the invalid id, and
 unknown ids have no path

---
 crates/dreammaker/src/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/error.rs b/crates/dreammaker/src/error.rs
index e17822f..a275b80 100644
--- a/crates/dreammaker/src/error.rs
+++ b/crates/dreammaker/src/error.rs
@@ -57,7 +57,7 @@ impl FileList {
             return id;
         }
         let mut files = self.files.borrow_mut();
-        if files.len() > FILEID_MAX.0 as usize {
+        if files.len() >= FILEID_MAX.0 as usize {
             panic!("file limit of {} exceeded", FILEID_MAX.0);
         }
         let len = files.len() as u16;
@@ -79,7 +79,7 @@ impl FileList {
             return Ref::map(files, |_| Path::new("(builtins)"));
         }
         let idx = (file.0 - FILEID_MIN.0) as usize;
-        if idx > files.len() {
+        if idx >= files.len() {
             Ref::map(files, |_| Path::new("(unknown)"))
         } else {
             Ref::map(files, |files| files[idx].as_path())
-- 
2.43.0


From 3b4a2331f17fd3253db13388c4ff7c014eb9ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 06/37] fix: a cycle of parent types is reported instead of
 hanging

---
 crates/dreammaker/src/objtree.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 63b0b18..6f298f8 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1012,6 +1012,25 @@ impl ObjectTreeBuilder {
                 self.inner.redirected_parent_types.push(type_idx);
             }
         }
+
+        // A cycle of parent types would make every walk up the tree endless.
+        let type_indices: Vec<NodeIndex> = self.inner.types.values().copied().collect();
+        for type_idx in type_indices {
+            let mut next = self.inner[type_idx].parent_type_index();
+            for _ in 0..self.inner.graph.len() {
+                let Some(idx) = next else { break };
+                if idx == type_idx {
+                    let node = &mut self.inner.graph[type_idx.index()];
+                    node.parent_type = NodeIndex::new(0); // fall back to the root
+                    context.register_error(DMError::new(
+                        node.location,
+                        format!("{}/parent_type is its own subtype", node.path),
+                    ));
+                    break;
+                }
+                next = self.inner[idx].parent_type_index();
+            }
+        }
     }
 
     // ------------------------------------------------------------------------
-- 
2.43.0


From 61f557cd877b1d1c53d7a3daec462a80b755ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 07/37] fix: a failed constant evaluation is not reported as
 recursion later

---
 crates/dreammaker/src/constants.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index ad7a611..966506a 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -596,11 +596,12 @@ fn constant_ident_lookup(
         } else {
             Some(&type_hint)
         },
-    )?;
+    );
     // and store it into 'value', then return it
     let var = tree[ty].vars.get_mut(ident).unwrap();
-    var.value.constant = Some(value.clone());
     var.value.being_evaluated = false;
+    let value = value?;
+    var.value.constant = Some(value.clone());
     Ok(ConstLookup::Found(/*type_hint,*/ value))
 }
 
-- 
2.43.0


From ad76bc00a45e214021428ae7a7f950f1e2681e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 08/37] fix: rgb() with too few color values is reported
 instead of aborting

---
 crates/dreammaker/src/constants.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 966506a..5c01186 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1269,7 +1269,12 @@ impl<'a> ConstantFolder<'a> {
             }
         }
 
-        assert!(value_vec.len() >= 3); // Make sure we got 3+ values
+        if value_vec.len() < 3 {
+            return Err(self.error(format!(
+                "malformed rgb() call, must have 3 or more color values and instead has {}",
+                value_vec.len()
+            )));
+        }
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-- 
2.43.0


From 0b48bad8e086bd8abee7751b1ff70464b4566a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 09/37] fix: a definition placed before its overrides is
 reported at its own index

---
 crates/dreammaker/src/objtree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 6f298f8..99965fd 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1312,7 +1312,7 @@ impl ObjectTreeBuilder {
                 )
                 .register(context);
                 proc.value.insert(0, value);
-                Ok((len, proc.value.first_mut().unwrap()))
+                Ok((0, proc.value.first_mut().unwrap()))
             },
             _ => {
                 proc.value.push(value);
-- 
2.43.0


From 8547728d93ddfa907d4c0970451388c119b05cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 10/37] fix: an unmatched end of an interpolated string does
 not underflow the nesting counter

---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index daa926b..9f9ec3b 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1215,7 +1215,10 @@ impl<'ctx> Preprocessor<'ctx> {
                                 self.push_output(Token::Ident(ident.to_owned(), false));
                                 match other {
                                     Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+                                    Token::InterpStringEnd(_) => {
+                                        self.in_interp_string =
+                                            self.in_interp_string.saturating_sub(1)
+                                    },
                                     _ => {},
                                 }
                                 self.push_output(other);
@@ -1391,7 +1394,9 @@ impl<'ctx> Preprocessor<'ctx> {
                 }
             },
             Token::InterpStringBegin(_) => self.in_interp_string += 1,
-            Token::InterpStringEnd(_) => self.in_interp_string -= 1,
+            Token::InterpStringEnd(_) => {
+                self.in_interp_string = self.in_interp_string.saturating_sub(1)
+            },
             // documentation is accumulated, and flushed if no #define follows
             Token::DocComment(doc) if doc.target == DocTarget::FollowingItem => {
                 self.docs_in.push_back((self.last_input_loc, doc));
-- 
2.43.0


From 5eb193cca3e93b9c3edc68f5d9ad182dcbf2e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 11/37] fix: malformed icon metadata is reported as an error
 instead of aborting

---
 crates/dreammaker/src/dmi.rs | 75 ++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/crates/dreammaker/src/dmi.rs b/crates/dreammaker/src/dmi.rs
index dfd3f2b..ea6dec0 100644
--- a/crates/dreammaker/src/dmi.rs
+++ b/crates/dreammaker/src/dmi.rs
@@ -317,10 +317,11 @@ impl Metadata {
         let icon_index = state.index_of_frame(dir, frame);
 
         let icon_count = bitmap_width / self.width;
-        let (icon_x, icon_y) = (icon_index % icon_count, icon_index / icon_count);
+        let icon_x = icon_index.checked_rem(icon_count)?;
+        let icon_y = icon_index.checked_div(icon_count)?;
         Some((
             icon_x * self.width,
-            icon_y * self.height,
+            icon_y.checked_mul(self.height)?,
             self.width,
             self.height,
         ))
@@ -435,17 +436,35 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
         if line.starts_with("# END DMI") {
             break;
         }
-        let (key, value) = line.trim().split_once(" = ").unwrap();
+        let invalid = || {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Invalid dmi metadata line: {line:?}"),
+            )
+        };
+        let (key, value) = line.trim().split_once(" = ").ok_or_else(invalid)?;
         match key {
-            "width" => metadata.width = value.parse().unwrap(),
-            "height" => metadata.height = value.parse().unwrap(),
+            "width" => metadata.width = value.parse().map_err(|_| invalid())?,
+            "height" => metadata.height = value.parse().map_err(|_| invalid())?,
             "state" => {
                 if let Some(state) = state.take() {
-                    frames_so_far += state.frames.count() * state.dirs.count();
+                    frames_so_far = state
+                        .frames
+                        .count()
+                        .checked_mul(state.dirs.count())
+                        .and_then(|n| n.checked_add(frames_so_far))
+                        .ok_or_else(invalid)?;
                     metadata.states.push(state);
                 }
-                let unquoted = value[1..value.len() - 1].to_owned(); // TODO: unquote
-                assert!(!unquoted.contains('\\') && !unquoted.contains('"'));
+                // TODO: unquote
+                let unquoted = value
+                    .strip_prefix('"')
+                    .and_then(|value| value.strip_suffix('"'))
+                    .ok_or_else(invalid)?
+                    .to_owned();
+                if unquoted.contains('\\') || unquoted.contains('"') {
+                    return Err(invalid());
+                }
 
                 let count = duplicate_map.entry(unquoted.clone()).or_insert(0);
 
@@ -473,30 +492,30 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                 *count += 1;
             },
             "dirs" => {
-                let state = state.as_mut().unwrap();
-                let n: u8 = value.parse().unwrap();
+                let state = state.as_mut().ok_or_else(invalid)?;
+                let n: u8 = value.parse().map_err(|_| invalid())?;
                 state.dirs = match n {
                     1 => Dirs::One,
                     4 => Dirs::Four,
                     8 => Dirs::Eight,
-                    _ => panic!(),
+                    _ => return Err(invalid()),
                 };
             },
             "frames" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(invalid)?;
                 match state.frames {
                     Frames::One => {},
-                    _ => panic!(),
+                    _ => return Err(invalid()),
                 }
-                state.frames = Frames::Count(value.parse().unwrap());
+                state.frames = Frames::Count(value.parse().map_err(|_| invalid())?);
             },
             "delay" => {
-                let state = state.as_mut().unwrap();
+                let state = state.as_mut().ok_or_else(invalid)?;
                 let mut vector: Vec<f32> = value
                     .split(',')
                     .map(str::parse)
                     .collect::<Result<Vec<_>, _>>()
-                    .unwrap();
+                    .map_err(|_| invalid())?;
                 match state.frames {
                     Frames::One => {
                         if vector.iter().all(|&n| n == 1.) {
@@ -511,17 +530,31 @@ fn parse_metadata(data: &str) -> io::Result<Metadata> {
                             state.frames = Frames::Delays(vector);
                         }
                     },
-                    Frames::Delays(_) => panic!(),
+                    Frames::Delays(_) => return Err(invalid()),
                 }
             },
-            "loop" => state.as_mut().unwrap().loop_ = value.parse().unwrap(),
-            "rewind" => state.as_mut().unwrap().rewind = value.parse::<u8>().unwrap() != 0,
+            "loop" => {
+                state.as_mut().ok_or_else(invalid)?.loop_ = value.parse().map_err(|_| invalid())?
+            },
+            "rewind" => {
+                state.as_mut().ok_or_else(invalid)?.rewind =
+                    value.parse::<u8>().map_err(|_| invalid())? != 0
+            },
             "hotspot" => { /* TODO */ },
-            "movement" => state.as_mut().unwrap().movement = value.parse::<u8>().unwrap() != 0,
-            _ => panic!(),
+            "movement" => {
+                state.as_mut().ok_or_else(invalid)?.movement =
+                    value.parse::<u8>().map_err(|_| invalid())? != 0
+            },
+            _ => return Err(invalid()),
         }
     }
     metadata.states.extend(state);
+    if metadata.width == 0 || metadata.height == 0 {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "Invalid dmi metadata: icons have no size",
+        ));
+    }
 
     Ok(metadata)
 }
-- 
2.43.0


From 4d88d7b6a9b1ad5cf6b1d0dfd12db37a1eadbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 12/37] fix: every sub-expression of a range loop and a new
 expression is checked

---
 crates/dreamchecker/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 5af8d51..c8b5eed 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1904,6 +1904,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 }
                 if let Some(var_type) = var_type {
                     self.visit_var(location, var_type, name, Some(start), &mut scoped_locals);
+                } else {
+                    self.visit_expression(location, start, None, &mut scoped_locals);
                 }
                 let mut state = self.visit_block(block, &mut scoped_locals, false);
                 if let Some(startterm) = start.as_term() {
@@ -2566,8 +2568,11 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     Analysis::empty()
                 }
             },
-            Term::NewMiniExpr { .. } => {
+            Term::NewMiniExpr { args, .. } => {
                 // TODO: evaluate
+                if let Some(args) = args {
+                    self.visit_arguments(location, args, local_vars);
+                }
                 Analysis::empty()
             },
 
-- 
2.43.0


From 01303512bd6909e32f86aa1950c6085c2417cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 13/37] fix: an I/O error while writing a gif frame is returned
 instead of aborting

---
 crates/dmm-tools/src/dmi/render.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmi/render.rs b/crates/dmm-tools/src/dmi/render.rs
index 29dead2..137c0f4 100644
--- a/crates/dmm-tools/src/dmi/render.rs
+++ b/crates/dmm-tools/src/dmi/render.rs
@@ -191,7 +191,9 @@ impl<'a> IconRenderer<'a> {
             // the disposal method by default is "keep the previous frame under the alpha mask"
             // wtf
             gif_frame.dispose = DisposalMethod::Background;
-            encoder.write_frame(&gif_frame).unwrap();
+            encoder
+                .write_frame(&gif_frame)
+                .map_err(|e| io::Error::other(format!("{e}")))?;
             // Clear the canvas.
             canvas.clear();
         }
-- 
2.43.0


From 12694d9c599dafa82f2ed5fb50f6382cffbfe980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 14/37] fix: the call stack of an impure call names each call's
 own location

---
 crates/dreamchecker/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index c8b5eed..44b3bcd 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -946,7 +946,7 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if let Some(calledvec) = self.call_tree.get(&nextproc) {
                     for each in calledvec.iter() {
                         let mut newstack = callstack.clone();
-                        newstack.add_step(each.proc, *location, each.new_context);
+                        newstack.add_step(each.proc, each.location, each.new_context);
                         to_visit.push_back((each.proc, newstack));
                     }
                 }
-- 
2.43.0


From dbd1ea9935162ad260fcfa36c51c150071e50eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:33 +0000
Subject: [PATCH 15/37] fix: a proc that must not sleep is checked even when
 another one calls it

---
 crates/dreamchecker/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 44b3bcd..b329a2c 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -804,6 +804,10 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if new_context {
                     continue;
                 }
+                // Skip A->B->C chains when a B->C chain would be detected.
+                if self.must_not_sleep.directive.contains_key(&nextproc) {
+                    continue;
+                }
                 if !visited.insert(nextproc) {
                     continue;
                 }
@@ -813,10 +817,6 @@ impl<'o> AnalyzeObjectTree<'o> {
                 if self.sleep_exempt.get(nextproc).is_some() {
                     continue;
                 }
-                // Skip A->B->C chains when a B->C chain would be detected.
-                if self.must_not_sleep.directive.contains_key(&nextproc) {
-                    continue;
-                }
 
                 if let Some(sleepvec) = self.sleeping_procs.get_violators(nextproc) {
                     let parent_proc_type_index = parent_proc.ty().index();
-- 
2.43.0


From 088d958105cc4329c991308a211e997fdf18869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 16/37] fix: the arguments of a new list are checked

---
 crates/dreamchecker/src/lib.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index b329a2c..209c008 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -2718,16 +2718,21 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 false,
                 local_vars,
             );
-        } else if typepath.path != "/list"
-            && typepath.path != "/alist"
-            && typepath.path != "/vector"
-            && typepath.path != "/pixloc"
-        {
-            error(
-                location,
-                format!("couldn't find {}/proc/New", typepath.path),
-            )
-            .register(self.context);
+        } else {
+            if let Some(args) = args {
+                self.visit_arguments(location, args, local_vars);
+            }
+            if typepath.path != "/list"
+                && typepath.path != "/alist"
+                && typepath.path != "/vector"
+                && typepath.path != "/pixloc"
+            {
+                error(
+                    location,
+                    format!("couldn't find {}/proc/New", typepath.path),
+                )
+                .register(self.context);
+            }
         }
         assumption_set![Assumption::IsType(true, typepath)].into()
     }
-- 
2.43.0


From 50cf7dd054b1602cb51ced9d93a149001e1e1df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 17/37] fix: give missing operator overloads their documented
 error type

---
 crates/dreamchecker/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 209c008..015e7cf 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -3071,6 +3071,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             location,
             format!("Attempting {operator} on a {typeerror} which does not overload {operator}"),
         )
+        .with_errortype("no_operator_overload")
         .register(self.context);
         Analysis::empty()
     }
-- 
2.43.0


From 6aa821869b26898f438f258027efc83d55f890b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 18/37] fix: dmdoc dry run no longer exits 0 when the
 diagnostic count is a multiple of 256

---
 crates/dmdoc/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmdoc/src/main.rs b/crates/dmdoc/src/main.rs
index fd35482..cda3f2d 100644
--- a/crates/dmdoc/src/main.rs
+++ b/crates/dmdoc/src/main.rs
@@ -660,7 +660,8 @@ fn main2() -> Result<(), Box<dyn std::error::Error>> {
         // Ensure the diagnostic count is not increased after this point.
         let exit_code = diagnostic_count.into_inner();
         if dry_run {
-            std::process::exit(exit_code);
+            // Exit statuses wrap at 256; don't let many diagnostics look like none.
+            std::process::exit(exit_code.min(255));
         }
     }
 
-- 
2.43.0


From 19d8e2e2c02ff7397701e9a63891217a4093a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 19/37] fix: dmm-tools no longer exits 0 when the failure count
 is a multiple of 256

---
 crates/dmm-tools-cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools-cli/src/main.rs b/crates/dmm-tools-cli/src/main.rs
index febfede..63121e9 100644
--- a/crates/dmm-tools-cli/src/main.rs
+++ b/crates/dmm-tools-cli/src/main.rs
@@ -43,7 +43,8 @@ fn main() {
 
     run(&opt, &opt.command, &mut context);
 
-    std::process::exit(context.exit_status.into_inner() as i32);
+    // Exit statuses wrap at 256; don't let many failures look like none.
+    std::process::exit(context.exit_status.into_inner().min(255) as i32);
 }
 
 #[derive(Default)]
-- 
2.43.0


From 013103879612bfbcc624bd5917f6a9cb8d1dd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 20/37] fix: dreamchecker exits non-zero when it rejects its
 arguments

---
 crates/dreamchecker/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/main.rs b/crates/dreamchecker/src/main.rs
index 2ba5ec6..6077c5e 100644
--- a/crates/dreamchecker/src/main.rs
+++ b/crates/dreamchecker/src/main.rs
@@ -42,7 +42,7 @@ fn main() {
             parse_only = true;
         } else {
             eprintln!("unknown argument: {arg}");
-            return;
+            std::process::exit(1);
         }
     }
 
-- 
2.43.0


From f713b608e8395f4cef309386c6873d4e1801ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 21/37] fix: document the error types that can be configured
 but were not listed

---
 CONFIGURING.md | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CONFIGURING.md b/CONFIGURING.md
index 9b97d17..7030542 100644
--- a/CONFIGURING.md
+++ b/CONFIGURING.md
@@ -24,9 +24,11 @@ The `[diagnostics]` section has the following options:
 Raised by DreamChecker:
 
 * `disabled_directive` - Raised when attempting to disable a `set SpacemanDMM_*` directive that cannot be disabled
+* `incompatible_directive` - Raised when setting a `SpacemanDMM_*` directive that cannot be set on global procs
 * `sets_directive_twice` - Raised when a directive is set twice in the same proc
 * `invalid_lint_directive_value` - Raised when attempting to set a directive value to something other than `1`, `0`, `TRUE`, `FALSE`
 * `invalid_set_value` - Raised on invalid values used with builtin set directives
+* `set_has_no_effect` - Raised on a `set SpacemanDMM_*` directive that is not at the top of the proc, where it has no effect
 * `unknown_linter_setting` - Raised when setting a `SpacemanDMM_*` directive that DreamChecker doesn't implement
 * `override_missing_keyword_arg` - Raised when proc overrides are missing keyword arguments
 * `must_not_override` - `SpacemanDMM_should_not_override` directive
@@ -52,6 +54,7 @@ Raised by DreamChecker:
 * `if_condition_determinate` - Raised on if condition being always true or always false
 * `loop_condition_determinate` - Raised on loop condition such as in `for` being always true or always false
 * `improper_index` - Raised on accessing a non list with []
+* `empty_find` - Raised on calling `list.Find()` with no arguments
 
 Raised by Lexer:
 
-- 
2.43.0


From 9377d0fba5e9431bc16f9326dc0c2d99d0cb6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 22/37] fix: truncated map files and incomplete keys in the
 grid are reported

---
 crates/dmm-tools/src/dmm/read.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/dmm-tools/src/dmm/read.rs b/crates/dmm-tools/src/dmm/read.rs
index f2cf8e0..9928f37 100644
--- a/crates/dmm-tools/src/dmm/read.rs
+++ b/crates/dmm-tools/src/dmm/read.rs
@@ -33,6 +33,8 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
     let mut escaping = false;
     let mut skip_whitespace = false;
 
+    let mut in_grid = false;
+
     let mut curr_key_start_location = Location::default();
 
     let mut curr_datum_start_location = Location::default();
@@ -193,6 +195,7 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
             if after_data_block {
                 curr_key = 0;
                 curr_key_length = 0;
+                in_grid = true;
                 break; // go to grid parsing
             } else if curr_key_length == 0 {
                 return Err(DMError::new(
@@ -206,6 +209,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         }
     }
 
+    if !in_grid {
+        return Err(DMError::new(
+            chars.location(),
+            "map file ends before its grid",
+        ));
+    }
+
     // grid
     #[derive(PartialEq, Debug)]
     enum Coord {
@@ -278,6 +288,9 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
                 }
             }
         } else if in_map_string {
+            if curr_key_length != 0 && matches!(ch, b'"' | b'\r' | b'\n') {
+                return Err(DMError::new(chars.location(), "incomplete map key in grid"));
+            }
             if ch == b'"' {
                 in_map_string = false;
                 adjust_y = true;
@@ -323,6 +336,13 @@ pub fn parse_map(map: &mut Map, path: &std::path::Path) -> Result<(), DMError> {
         }
     }
 
+    if in_coord_block || in_map_string {
+        return Err(DMError::new(
+            chars.location(),
+            "map file ends inside its grid",
+        ));
+    }
+
     // every tile must have a value before the whole array is allocated
     for z in 1..=max_z {
         for y in 1..=max_y {
-- 
2.43.0


From 064408f4a9d409c2b93deee7a7c2d27b4562fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 23/37] fix: strings with escaped quotes survive saving and
 reloading a map

---
 crates/dreammaker/src/lexer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/lexer.rs b/crates/dreammaker/src/lexer.rs
index b077da5..60f20fe 100644
--- a/crates/dreammaker/src/lexer.rs
+++ b/crates/dreammaker/src/lexer.rs
@@ -362,12 +362,19 @@ pub struct Quote<'a>(pub &'a str);
 impl<'a> fmt::Display for Quote<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let s = self.0;
-        if s.contains("\"}") {
+        // Quotes which are escaped don't end the string.
+        let mut escaped = false;
+        let plain = s.chars().all(|ch| {
+            let ok = escaped || (ch != '"' && ch != '\n');
+            escaped = !escaped && ch == '\\';
+            ok
+        });
+        if plain {
+            write!(f, "\"{s}\"")
+        } else if s.contains("\"}") {
             write!(f, "@@{s}@")
-        } else if s.contains('"') || s.contains('\n') {
-            write!(f, "{{\"{s}\"}}")
         } else {
-            write!(f, "\"{s}\"")
+            write!(f, "{{\"{s}\"}}")
         }
     }
 }
-- 
2.43.0


From 95eaf8f6aae34b37d03bfa1f2f2fe6c0e4e6692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:40 +0000
Subject: [PATCH 24/37] fix: constant sin, cos, arcsin and arccos work in
 degrees

---
 crates/dreammaker/src/constants.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 5c01186..6609a3f 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -853,10 +853,10 @@ impl<'a> ConstantFolder<'a> {
                 "generator" => Constant::Call(ConstFn::Generator, self.arguments(args)?),
                 "vector" => Constant::Call(ConstFn::Vector, self.arguments(args)?),
                 // constant-evaluatable functions
-                "sin" => self.trig_op(args, f32::sin)?,
-                "cos" => self.trig_op(args, f32::cos)?,
-                "arcsin" => self.trig_op(args, f32::asin)?,
-                "arccos" => self.trig_op(args, f32::acos)?,
+                "sin" => self.trig_op(args, |x| x.to_radians().sin())?,
+                "cos" => self.trig_op(args, |x| x.to_radians().cos())?,
+                "arcsin" => self.trig_op(args, |x| x.asin().to_degrees())?,
+                "arccos" => self.trig_op(args, |x| x.acos().to_degrees())?,
                 "rgb" => Constant::String(self.rgb(args)?.into()),
                 "defined" if self.defines.is_some() => {
                     let defines = self.defines.unwrap(); // annoying, but keeps the match clean
@@ -969,6 +969,7 @@ impl<'a> ConstantFolder<'a> {
         })
     }
 
+    /// Evaluates a trigonometric function. DM's angles are in degrees.
     fn trig_op(
         &mut self,
         args: Box<[Expression]>,
-- 
2.43.0


From 26cbb109fd691350b14ac14ca92404323ab5428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 25/37] fix: named color components of rgb() can be given in
 any order

---
 crates/dreammaker/src/constants.rs | 46 ++++++++++++++----------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/crates/dreammaker/src/constants.rs b/crates/dreammaker/src/constants.rs
index 6609a3f..8171fee 100644
--- a/crates/dreammaker/src/constants.rs
+++ b/crates/dreammaker/src/constants.rs
@@ -1197,13 +1197,15 @@ impl<'a> ConstantFolder<'a> {
             ColorSpace::Rgb // Default
         };
 
-        let mut value_vec: Vec<f64> = vec![];
+        // The color components, followed by the alpha. Named ones can be given in any order.
+        let mut values: [Option<f64>; 5] = [None; 5];
 
-        for (arg_pos, (value, potential_kwarg_value)) in arguments.iter().enumerate() {
+        for (value, potential_kwarg_value) in arguments.iter() {
             let mut to_check = value;
+            let mut slot = values.iter().flatten().count();
 
             // Determines the range based on predetermined colorspace
-            let mut range = match arg_pos {
+            let mut range = match slot {
                 0 => match space {
                     ColorSpace::Rgb => 0..=255, //r
                     ColorSpace::Hsv => 0..=360, //h
@@ -1230,14 +1232,14 @@ impl<'a> ConstantFolder<'a> {
                 if let Some(kwarg) = value.as_str() {
                     to_check = kwarg_value; // Set the value to actually check to be our associated vaue
 
-                    range = match kwarg {
-                        "r" | "red" | "g" | "green" | "b" | "blue" => 0..=255,
-                        "h" | "hue" => 0..=360,
-                        "s" | "saturation" => 0..=100,
-                        "v" | "value" => 0..=100,
-                        "c" | "chroma" => 0..=100,
-                        "l" | "y" | "luminance" => 0..=100,
-                        "a" | "alpha" => 0..=255,
+                    (slot, range) = match kwarg {
+                        "r" | "red" => (0, 0..=255),
+                        "g" | "green" => (1, 0..=255),
+                        "b" | "blue" => (2, 0..=255),
+                        "h" | "hue" => (0, 0..=360),
+                        "s" | "saturation" | "c" | "chroma" => (1, 0..=100),
+                        "v" | "value" | "l" | "y" | "luminance" => (2, 0..=100),
+                        "a" | "alpha" => (3, 0..=255),
                         "space" => continue, // Don't range-check the value of the space
                         _ => {
                             return Err(self
@@ -1264,33 +1266,29 @@ impl<'a> ConstantFolder<'a> {
                         .with_location(self.location));
                 }
                 let clamped = std::cmp::max(::std::cmp::min(i, *range.end()), *range.start());
-                value_vec.push(clamped.into());
+                values[slot] = Some(clamped.into());
             } else {
                 return Err(self.error("malformed rgb() call, value wasn't an int"));
             }
         }
 
-        if value_vec.len() < 3 {
+        let [Some(first), Some(second), Some(third), fourth, _] = values else {
             return Err(self.error(format!(
                 "malformed rgb() call, must have 3 or more color values and instead has {}",
-                value_vec.len()
+                values.iter().flatten().count()
             )));
-        }
+        };
 
         // Convert our color given a space to a rgb hexcode
         let color: Rgb = match space {
-            ColorSpace::Rgb => Rgb::new(value_vec[0], value_vec[1], value_vec[2]),
-            ColorSpace::Hsv => {
-                Hsv::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hsl => {
-                Hsl::new(value_vec[0], value_vec[1] * 0.01, value_vec[2] * 0.01).into()
-            },
-            ColorSpace::Hcy => Lch::new(value_vec[2], value_vec[1], value_vec[0]).into(),
+            ColorSpace::Rgb => Rgb::new(first, second, third),
+            ColorSpace::Hsv => Hsv::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hsl => Hsl::new(first, second * 0.01, third * 0.01).into(),
+            ColorSpace::Hcy => Lch::new(third, second, first).into(),
         };
 
         // Extract the raw 4th alpha positional argument if it wasn't a kwarg
-        let alpha = color_args.a.or_else(|| value_vec.get(3).map(|&x| x as i32));
+        let alpha = color_args.a.or_else(|| fourth.map(|x| x as i32));
 
         // APPARENTLY the author thinks fractional rgb is a thing, hence the rounding
         if let Some(alpha) = alpha {
-- 
2.43.0


From 824dd76c6d93d779881331da88ce4716736491a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 26/37] fix: a type whose parent cycle was cut is not visited
 twice

---
 crates/dreammaker/src/objtree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/dreammaker/src/objtree.rs b/crates/dreammaker/src/objtree.rs
index 99965fd..0e456b4 100644
--- a/crates/dreammaker/src/objtree.rs
+++ b/crates/dreammaker/src/objtree.rs
@@ -1026,6 +1026,11 @@ impl ObjectTreeBuilder {
                         node.location,
                         format!("{}/parent_type is its own subtype", node.path),
                     ));
+                    if node.parent_path == node.parent_type {
+                        self.inner
+                            .redirected_parent_types
+                            .retain(|&idx| idx != type_idx);
+                    }
                     break;
                 }
                 next = self.inner[idx].parent_type_index();
-- 
2.43.0


From 16b4a9b930f7e30b8752cad4f9a1a00e842643c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 27/37] fix: #if inside a disabled block does not expand macros

A macro used wrongly on the line of such an #if was reported although the
code is disabled.
---
 crates/dreammaker/src/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 9f9ec3b..3d8879c 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -621,6 +621,7 @@ impl<'ctx> Preprocessor<'ctx> {
     fn evaluate_inner(&mut self) -> Result<bool, DMError> {
         // pump real_next to fill output until we get a real newline on input
         let start = self.last_input_loc;
+        let disabled = self.is_disabled();
         while let Some(tok) = self.inner_next() {
             self.last_input_loc = tok.location;
 
@@ -628,6 +629,11 @@ impl<'ctx> Preprocessor<'ctx> {
                 break;
             }
 
+            // Don't expand macros either, they may be used wrongly here.
+            if disabled {
+                continue;
+            }
+
             if let Err(e) = self.real_next(tok.token, true) {
                 self.context.register_error(e);
             }
@@ -635,8 +641,7 @@ impl<'ctx> Preprocessor<'ctx> {
 
         // If we're inside an inactive #if, don't actually evaluate.
         // #ifdef FOO -- #if FOO == 5 will error otherwise.
-        if self.is_disabled() {
-            self.output.clear();
+        if disabled {
             return Ok(false);
         }
 
-- 
2.43.0


From ab90a5e1900e8923c9ac85c6da9e48e61a06d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 28/37] fix: token after a macro name that is not called is not
 preprocessed

---
 crates/dreammaker/src/preprocessor.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crates/dreammaker/src/preprocessor.rs b/crates/dreammaker/src/preprocessor.rs
index 3d8879c..23b7c7c 100644
--- a/crates/dreammaker/src/preprocessor.rs
+++ b/crates/dreammaker/src/preprocessor.rs
@@ -1217,16 +1217,12 @@ impl<'ctx> Preprocessor<'ctx> {
                         match next!() {
                             Token::Punct(Punctuation::LParen) => {},
                             other => {
-                                self.push_output(Token::Ident(ident.to_owned(), false));
-                                match other {
-                                    Token::InterpStringBegin(_) => self.in_interp_string += 1,
-                                    Token::InterpStringEnd(_) => {
-                                        self.in_interp_string =
-                                            self.in_interp_string.saturating_sub(1)
-                                    },
-                                    _ => {},
-                                }
-                                self.push_output(other);
+                                self.push_output(Token::Ident(ident.to_owned(), whitespace));
+                                // the other token is yet to be processed
+                                self.include_stack.stack.push(Include::Expansion {
+                                    tokens: VecDeque::from([other]),
+                                    location: _last_expected_loc,
+                                });
                                 return Ok(());
                             },
                         }
-- 
2.43.0


From a14535ece6a3000c0b0c5cd6cb664f62ddc2d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 29/37] fix: an I/O error while writing a gif's trailer is
 returned, not ignored

---
 crates/dmm-tools/src/dmi/render.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/dmm-tools/src/dmi/render.rs b/crates/dmm-tools/src/dmi/render.rs
index 137c0f4..880c83a 100644
--- a/crates/dmm-tools/src/dmi/render.rs
+++ b/crates/dmm-tools/src/dmi/render.rs
@@ -198,6 +198,10 @@ impl<'a> IconRenderer<'a> {
             canvas.clear();
         }
 
+        // Write the trailer here, as dropping the encoder would ignore errors.
+        encoder
+            .into_inner()
+            .map_err(|e| io::Error::other(format!("{e}")))?;
         Ok(())
     }
 
-- 
2.43.0


From 70962a957ec35c86a495de4e797b5a6ac93f793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:03 +0000
Subject: [PATCH 30/37] fix: an I/O error while writing a png's end is
 returned, not ignored

---
 crates/dmm-tools/src/dmi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 8326c69..110eb4c 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -180,6 +180,8 @@ impl Image {
             let mut writer = encoder.write_header()?;
             // TODO: metadata with write_chunk()
             writer.write_image_data(bytemuck::cast_slice(self.data.as_slice().unwrap()))?;
+            // Dropping the writer would ignore errors from writing the final chunk.
+            writer.finish()?;
         }
         Ok(())
     }
-- 
2.43.0


From e59cc5450a5c958d00409081cd4b3bededcfd810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:45 +0000
Subject: [PATCH 31/37] fix: an I/O error while listing a directory for its
 environment is returned, not ignored

---
 crates/dreammaker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/lib.rs b/crates/dreammaker/src/lib.rs
index 2e7e818..b3b1a50 100644
--- a/crates/dreammaker/src/lib.rs
+++ b/crates/dreammaker/src/lib.rs
@@ -174,7 +174,8 @@ pub fn detect_environment(
     default: &str,
 ) -> std::io::Result<Option<std::path::PathBuf>> {
     let mut result = None;
-    for entry in std::fs::read_dir(root)?.flatten() {
+    for entry in std::fs::read_dir(root)? {
+        let entry = entry?;
         let name = entry.file_name();
         let (dme, default) = {
             let utf8_name = name.to_string_lossy();
-- 
2.43.0


From f55c01ad4b258471e814579432cb20950caee063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:13 +0000
Subject: [PATCH 32/37] fix: code reached by breaking out of a loop is not
 reported as unreachable

---
 crates/dreamchecker/src/lib.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 015e7cf..574b4ab 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1370,7 +1370,7 @@ impl ControlFlow {
         if !other.breaks {
             self.breaks = false;
         }
-        if other.fuzzy {
+        if other.fuzzy || other.continues || other.breaks {
             self.fuzzy = true;
         }
     }
@@ -1387,6 +1387,22 @@ impl ControlFlow {
         self.breaks = false;
         self.fuzzy = false;
     }
+
+    /// What remains of a block that need not run to its end: only that it may leave a loop.
+    pub fn interrupted(&self) -> ControlFlow {
+        ControlFlow {
+            fuzzy: self.fuzzy || self.continues || self.breaks,
+            ..ControlFlow::allfalse()
+        }
+    }
+
+    /// End of a loop whose body is known to run: what breaks out of or continues the loop gets to
+    /// the code after it, what returns does not.
+    pub fn end_executed_loop(&mut self) {
+        let returns = self.returns && !self.fuzzy;
+        self.end_loop();
+        self.returns = returns;
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -1733,6 +1749,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                         "do while terminates without ever reaching condition",
                     )
                     .register(self.context);
+                    state.end_executed_loop();
                     return state;
                 }
                 self.visit_expression(
@@ -1918,6 +1935,7 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                                 )
                                 .register(self.context);
                             } else {
+                                state.end_executed_loop();
                                 return state;
                             }
                         }
@@ -2018,7 +2036,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                 catch_params,
                 catch_block,
             } => {
-                self.visit_block(try_block, &mut local_vars.clone(), false);
+                let mut state = self
+                    .visit_block(try_block, &mut local_vars.clone(), false)
+                    .interrupted();
                 if catch_params.len() > 1 {
                     error(
                         location,
@@ -2043,7 +2063,9 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
                     let var_type: VarType = type_path.iter().map(ToOwned::to_owned).collect();
                     self.visit_var(location, &var_type, var_name, None, &mut catch_locals);
                 }
-                self.visit_block(catch_block, &mut catch_locals, false);
+                let catch_state = self.visit_block(catch_block, &mut catch_locals, false);
+                state.merge(catch_state.interrupted());
+                return state;
             },
             Statement::Continue(_) => {
                 return ControlFlow {
@@ -2063,7 +2085,8 @@ impl<'o, 's> AnalyzeProc<'o, 's> {
             },
             Statement::Goto(_) => {},
             Statement::Label { name: _, block } => {
-                self.visit_block(block, &mut local_vars.clone(), false);
+                let state = self.visit_block(block, &mut local_vars.clone(), false);
+                return state.interrupted();
             },
             Statement::Del(expr) => {
                 self.visit_expression(location, expr, None, local_vars);
-- 
2.43.0


From 4cb98cd45e223a066b1a48487b8b599f2936185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:54 +0000
Subject: [PATCH 33/37] fix: a keyword missing from an override is not reported
 when the proc is defined twice on its type

---
 crates/dreamchecker/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/dreamchecker/src/lib.rs b/crates/dreamchecker/src/lib.rs
index 574b4ab..259b5c3 100644
--- a/crates/dreamchecker/src/lib.rs
+++ b/crates/dreamchecker/src/lib.rs
@@ -1096,7 +1096,8 @@ impl<'o> AnalyzeObjectTree<'o> {
         // error earlier in the process.
         let mut next = proc.parent_proc();
         while let Some(current) = next {
-            if let Some(kwargs) = self.used_kwargs.get_mut(&current.to_string()) {
+            let key = format!("{}/proc/{}", current.ty(), current.name());
+            if let Some(kwargs) = self.used_kwargs.get_mut(&key) {
                 let mut missing = Vec::new();
 
                 for (keyword, location) in kwargs.called_at.iter() {
-- 
2.43.0


From aac704f987c2de030cab91ac41ebd678d544f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:23 +0000
Subject: [PATCH 34/37] fix: the range 0 to 0 and ranges with a step are taken
 to be empty or to run when they are not

---
 crates/dreammaker/src/ast.rs | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/crates/dreammaker/src/ast.rs b/crates/dreammaker/src/ast.rs
index 4f3422b..bf265ad 100644
--- a/crates/dreammaker/src/ast.rs
+++ b/crates/dreammaker/src/ast.rs
@@ -1249,25 +1249,15 @@ impl Term {
     }
 
     pub fn valid_for_range(&self, other: &Term, step: Option<&Expression>) -> Option<bool> {
-        if let Term::Int(i) = *self {
-            if let Term::Int(o) = *other {
-                // edge case
-                if i == 0 && o == 0 {
-                    return Some(false);
-                }
-                if let Some(stepexp) = step {
-                    if let Some(stepterm) = stepexp.as_term() {
-                        if let Term::Int(_s) = stepterm {
-                            return Some(true);
-                        }
-                    } else {
-                        return Some(true);
-                    }
-                }
-                return Some(i <= o);
-            }
+        let (Term::Int(i), Term::Int(o)) = (self, other) else {
+            return None;
+        };
+        match step.map(Expression::as_term) {
+            None => Some(i <= o),
+            Some(Some(Term::Int(s))) if *s > 0 => Some(i <= o),
+            // The loop counts down, or which way it counts is not known.
+            _ => None,
         }
-        None
     }
 
     pub fn nameof(&self) -> Option<&str> {
-- 
2.43.0


From ea4eade6881de021129dad25c12035e05e793259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 35/37] fix: a right brace after too little indentation ends
 the program

---
 crates/dreammaker/src/indents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dreammaker/src/indents.rs b/crates/dreammaker/src/indents.rs
index 8487b4b..bc9f593 100644
--- a/crates/dreammaker/src/indents.rs
+++ b/crates/dreammaker/src/indents.rs
@@ -177,7 +177,7 @@ where
             },
             Token::Punct(Punctuation::RBrace) => {
                 self.current = match self.current {
-                    None => {
+                    None | Some((_, 0)) => {
                         DMError::new(self.last_input_loc, "unmatched right brace")
                             .register(self.context);
                         None
-- 
2.43.0


From ad3b9173b014e1ccfec1aef0a8e7b521d73470d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:23 +0000
Subject: [PATCH 36/37] fix: the input type of a for-in loop is not lost

---
 crates/dreammaker/src/parser.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/crates/dreammaker/src/parser.rs b/crates/dreammaker/src/parser.rs
index 77ec4b6..1668cb1 100644
--- a/crates/dreammaker/src/parser.rs
+++ b/crates/dreammaker/src/parser.rs
@@ -1724,12 +1724,8 @@ impl<'ctx, 'an, 'inp> Parser<'ctx, 'an, 'inp> {
                     _ => return Err(self.error("for-list must start with variable")),
                 };
 
-                let input_type = if let Some(()) = self.exact_ident("as")? {
-                    // for(var/a as obj
-                    Some(require!(self.input_type()))
-                } else {
-                    None
-                };
+                // for(var/a as obj
+                let input_type = key_input_type;
 
                 let in_list = if let Some(()) = self.exact(Token::Punct(Punctuation::In))? {
                     let value = require!(self.expression());
-- 
2.43.0


From 0511967137a30dd48e9bbb1da4d3cb3a239182b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:26 +0000
Subject: [PATCH 37/37] fix: keep blended colour channels from wrapping around
 past 255

---
 crates/dmm-tools/src/dmi.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dmm-tools/src/dmi.rs b/crates/dmm-tools/src/dmi.rs
index 110eb4c..8228588 100644
--- a/crates/dmm-tools/src/dmi.rs
+++ b/crates/dmm-tools/src/dmi.rs
@@ -217,9 +217,11 @@ impl Image {
                 let out_a = src_tint.a + mul255(dst.a, 255 - src_tint.a);
                 if out_a != 0 {
                     for i in 0..3 {
+                        // out_a is rounded down, so the quotient may exceed 255.
                         dst[i] = ((src_tint[i] as u32 * src_tint.a as u32
                             + dst[i] as u32 * dst.a as u32 * (255 - src_tint.a as u32) / 255)
-                            / out_a as u32) as u8;
+                            / out_a as u32)
+                            .min(255) as u8;
                     }
                 } else {
                     for i in 0..3 {
-- 
2.43.0

