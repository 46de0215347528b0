From c3de8e1585b5afc5f2095af18ffdaac701701f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 01/36] fix: reject variable length integers that do not fit in
 an i64 instead of overflowing the shift

---
 src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d3368..a221c76 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -156,8 +156,19 @@ pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     let mut bits: i64 = 6;
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
+        // 63 bits of magnitude are available (the sign is separate), anything that does not fit is
+        // not a number this format can represent.
+        let digit = new_v_int_value as i64 & 0x7fi64;
+        if digit != 0 && (bits > 62 || digit > (i64::MAX >> bits)) {
+            return Err(nom::Err::Error(nom::error::Error::new(
+                tail,
+                nom::error::ErrorKind::TooLarge,
+            )));
+        }
         tail = new_tail;
-        result |= ((new_v_int_value as i64 & 0x7fi64) << bits) as i64;
+        if digit != 0 {
+            result |= digit << bits;
+        }
         v_int_value = new_v_int_value;
         bits += 7;
     }
-- 
2.43.0


From 09fb2fbdbbadd5a9a188b31aed319489fd8416c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 02/36] fix: 64 bit packed integers with a negative offset
 overflowed the addition

---
 src/bit_packed_decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bit_packed_decoder.rs b/src/bit_packed_decoder.rs
index 62c07a5..64b7cf5 100644
--- a/src/bit_packed_decoder.rs
+++ b/src/bit_packed_decoder.rs
@@ -147,7 +147,8 @@ pub fn parse_packed_int(
     num_bits: usize,
 ) -> S2ProtoResult<(&[u8], usize), i64> {
     let (tail, num) = take_n_bits_into_i64(input, num_bits)?;
-    let res = offset + num;
+    // A full 64 bits unsigned value may be read, the offset brings it back to the i64 range.
+    let res = offset.wrapping_add(num);
     tracing::debug!("parse_packed_int: {}", res);
     Ok((tail, res))
 }
-- 
2.43.0


From ac90794f67fd3bd5fc3a095758d4e2226ac29439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 03/36] fix: return an error, rather than panic, on archives
 without a StarCraft II replay header

---
 src/error.rs                    |  6 ++++++
 src/protocol_version_decoder.rs |  2 +-
 src/versions/mod.rs             | 33 +++++++++++++++++++++++----------
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 52803a9..f122046 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -50,6 +50,12 @@ pub enum S2ProtocolError {
     /// The data structure tag is not recognized
     #[error("BitPackedTooLarge: {0}")]
     BitPackedMoreThan64Bits(usize),
+    /// The replay header signature is not the one of a StarCraft II replay
+    #[error("Invalid replay signature")]
+    InvalidSignature,
+    /// The MPQ archive has no user data, thus no replay header.
+    #[error("Missing MPQ user data")]
+    MissingUserData,
     /// The MapParserError
     #[error("Map Error {0}")]
     Map(#[from] crate::cache_handles::map::MapError),
diff --git a/src/protocol_version_decoder.rs b/src/protocol_version_decoder.rs
index 468c96c..227a7ef 100644
--- a/src/protocol_version_decoder.rs
+++ b/src/protocol_version_decoder.rs
@@ -53,6 +53,6 @@ pub fn read_protocol_header(mpq: &MPQ) -> S2ProtoResult<&[u8], ReplaySHeader> {
     let user_data = mpq
         .user_data
         .as_ref()
-        .expect("Unable to locate protocol version, missing user data in MPQ");
+        .ok_or(S2ProtocolError::MissingUserData)?;
     ReplaySHeader::parse(&user_data.content)
 }
diff --git a/src/versions/mod.rs b/src/versions/mod.rs
index f4a0c0c..46c0a64 100644
--- a/src/versions/mod.rs
+++ b/src/versions/mod.rs
@@ -10,7 +10,20 @@ use nom_mpq::MPQ;
 pub mod protocol75689;
 pub mod protocol87702;
 
-/// Attempts to read the tracker events, panics under unknown protocol
+/// The signature every StarCraft II replay header starts with.
+pub const REPLAY_SIGNATURE: &[u8] = b"StarCraft II replay\x1b11";
+
+/// Verifies the header belongs to a StarCraft II replay.
+fn validate_signature(
+    proto_header: &protocol87702::byte_aligned::ReplaySHeader,
+) -> Result<(), S2ProtocolError> {
+    if proto_header.m_signature != REPLAY_SIGNATURE {
+        return Err(S2ProtocolError::InvalidSignature);
+    }
+    Ok(())
+}
+
+/// Attempts to read the tracker events
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_tracker_events(
     file_name: &str,
@@ -23,7 +36,7 @@ pub fn read_tracker_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::ReplayTrackerEEventId::read_tracker_events(
             mpq,
@@ -41,7 +54,7 @@ pub fn read_tracker_events(
     }
 }
 
-/// Attempts to read the game events, panics under unknown protocol
+/// Attempts to read the game events
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_game_events(
     file_name: &str,
@@ -54,7 +67,7 @@ pub fn read_game_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEEventId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -63,7 +76,7 @@ pub fn read_game_events(
     }
 }
 
-/// Attempts to read the message events, panics under unknown protocol
+/// Attempts to read the message events
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_message_events(
     file_name: &str,
@@ -76,7 +89,7 @@ pub fn read_message_events(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::GameEMessageId::read_events(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -85,7 +98,7 @@ pub fn read_message_events(
     }
 }
 
-/// Attempts to read the details, panics under unknown protocol
+/// Attempts to read the details
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_details(
     file_name: &str,
@@ -98,7 +111,7 @@ pub fn read_details(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header)?;
     match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::byte_aligned::GameSDetails::read_details(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
@@ -107,7 +120,7 @@ pub fn read_details(
     }
 }
 
-/// Attempts to read the initData, panics if signature doesn't match
+/// Attempts to read the initData, returns an error if the signature doesn't match
 #[tracing::instrument(level = "debug", skip(mpq, file_contents, file_name))]
 pub fn read_init_data(
     file_name: &str,
@@ -120,7 +133,7 @@ pub fn read_init_data(
         proto_header.m_version.m_base_build,
         file_name
     );
-    assert_eq!(proto_header.m_signature, b"StarCraft II replay\x1b11"[..]);
+    validate_signature(&proto_header)?;
     let res = match proto_header.m_version.m_base_build {
         0..=75689 => protocol75689::bit_packed::ReplaySInitData::read_init_data(mpq, file_contents),
         83830 | 84643 | 88500 | 86383 | 87702 | 89634 | 89165 | 89720 | 90136 | 90779 | 90870
-- 
2.43.0


From 70731781cc5ac3be7d7b6d9100c4ecca84362c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 04/36] fix: read_mpq returns an I/O error when the file can
 not be read, instead of panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a221c76..9f351c5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -84,7 +84,7 @@ pub const MAX_INITIAL_CAPACITY_BYTES: usize = 65536;
 /// Reads the MPQ file and returns both the MPQ read file and the reference to its contents.
 pub fn read_mpq(path: &str) -> Result<(MPQ, Vec<u8>), S2ProtocolError> {
     tracing::info!("Processing MPQ file {}", path);
-    let file_contents = parser::read_file(path);
+    let file_contents = read_file(&PathBuf::from(path))?;
     let (_, mpq) = parser::parse(&file_contents)?;
     Ok((mpq, file_contents))
 }
-- 
2.43.0


From 969ec2e7db824db795d0fdef70c5f76b1ace48a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 05/36] fix: an event with invalid text no longer interrupts
 the event iterators, it is skipped

---
 src/game_events/iterator.rs    | 5 +++++
 src/tracker_events/iterator.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/game_events/iterator.rs b/src/game_events/iterator.rs
index 2305d59..e410513 100644
--- a/src/game_events/iterator.rs
+++ b/src/game_events/iterator.rs
@@ -122,6 +122,11 @@ impl GameEventIteratorState {
                     return Some(event);
                 }
                 Err(S2ProtocolError::UnsupportedEventType) => {}
+                Err(S2ProtocolError::Utf8Error(err)) => {
+                    // The event was decoded (and the cursor advanced) but it can not be converted,
+                    // it is skipped as the bulk readers do, the events after it are still valid.
+                    tracing::warn!("Skipping event with invalid text: {:?}", err);
+                }
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
diff --git a/src/tracker_events/iterator.rs b/src/tracker_events/iterator.rs
index 6c79787..bc65c8d 100644
--- a/src/tracker_events/iterator.rs
+++ b/src/tracker_events/iterator.rs
@@ -82,6 +82,11 @@ impl TrackertEventIteratorState {
                     return Some(event);
                 }
                 Err(S2ProtocolError::UnsupportedEventType) => {}
+                Err(S2ProtocolError::Utf8Error(err)) => {
+                    // The event was decoded (and the cursor advanced) but it can not be converted,
+                    // it is skipped as the bulk readers do, the events after it are still valid.
+                    tracing::warn!("Skipping event with invalid text: {:?}", err);
+                }
                 Err(err) => {
                     // At this point we can't read the events, our state is either corrupted or the
                     // SC2ReplayState is corrupted.
-- 
2.43.0


From ad08696f6a8b688b516e86e1df06efe8d2ad0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 06/36] fix: events past loop 2^24 could be merged out of order
 due to f32 rounding

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 122680e..9371b98 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -694,7 +694,7 @@ impl Iterator for SC2EventIterator {
                 (Some(next_tracker_event_loop), Some(next_game_event_loop)) => {
                     // Both events are populated, compare the loop and return the lowest one
                     if next_tracker_event_loop
-                        < (next_game_event_loop as f32 * TRACKER_SPEED_RATIO) as i64
+                        < (next_game_event_loop as f64 * f64::from(TRACKER_SPEED_RATIO)) as i64
                     {
                         self.next_tracker_event.take().unwrap()
                     } else {
-- 
2.43.0


From e5dcfd38a4b392592b95386906eba13b1e94fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 07/36] fix: the min_loop and max_loop filters were not applied
 to game events

---
 src/state/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index 9371b98..f768c28 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -601,16 +601,18 @@ impl SC2EventIteratorItem {
     /// Returns true if the event should be skipped based on the filters
     #[tracing::instrument(level = "debug")]
     fn shoud_skip_event(&self, event: &SC2EventType, filters: &SC2ReplayFilters) -> bool {
+        let event_loop = match event {
+            SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
+            SC2EventType::Game { game_loop, .. } => *game_loop,
+        };
         if let Some(min_loop) = filters.min_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop < min_loop
+            && event_loop < min_loop
         {
             tracing::debug!("Skipping event below min_loop {min_loop}");
             return true;
         }
         if let Some(max_loop) = filters.max_loop
-            && let SC2EventType::Tracker { tracker_loop, .. } = event
-            && *tracker_loop > max_loop
+            && event_loop > max_loop
         {
             tracing::debug!("Skipping event above max_loop {max_loop}");
             return true;
-- 
2.43.0


From e923636144afa0beeff4e69cf377352d9102b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 08/36] fix: the max_events filter returned one event less than
 requested

---
 src/state/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index f768c28..db70d3a 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -718,10 +718,10 @@ impl Iterator for SC2EventIterator {
                 if iterator_item.shoud_skip_event(&iterator_item.event_type, filters) {
                     continue;
                 }
-                filters.decrease_allowed_event_counter();
                 if filters.is_max_event_reached() {
                     return None;
                 }
+                filters.decrease_allowed_event_counter();
             }
             #[cfg(feature = "tracing_info_level")]
             iterator_item.emit_info_log();
-- 
2.43.0


From 55521b1aaea67a40fc3f74bda0def4f5807ea103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 09/36] fix: dead units were never removed from the selection
 and control groups

---
 src/tracker_events/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker_events/state.rs b/src/tracker_events/state.rs
index 6a67b54..f5fb245 100644
--- a/src/tracker_events/state.rs
+++ b/src/tracker_events/state.rs
@@ -249,7 +249,9 @@ pub fn handle_unit_died(
     // Clean up the unit from previous groups where it was selected.
     for (_idx, state) in sc2_state.user_state.iter_mut() {
         for group_idx in 0..11 {
-            state.control_groups[group_idx].retain(|&x| x != unit_dead.unit_tag_index);
+            // The control groups contain the game event unit tags (index and recycle).
+            state.control_groups[group_idx]
+                .retain(|&x| unit_tag_index(x as i64) != unit_dead.unit_tag_index);
         }
     }
     match sc2_state.units.remove(&unit_dead.unit_tag_index) {
-- 
2.43.0


From 6904c410bc8c2b0b3eaf95f7d526359f23355a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 10/36] fix: the target unit of a command was looked up by its
 game tag, the units are registered by index

---
 src/game_events/state.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index ff10261..5a4aaa7 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -63,7 +63,10 @@ pub fn handle_cmd(
     // For now this is not implemented and a unit maybe have a target unit, even tho the active
     // command is Stop.
     let target = if let GameSCmdData::TargetUnit(tu) = &cmd.m_data {
-        sc2_state.units.get(&tu.m_tag).cloned()
+        sc2_state
+            .units
+            .get(&unit_tag_index(tu.m_tag.into()))
+            .cloned()
     } else {
         None
     };
@@ -160,25 +163,20 @@ pub fn handle_update_target_unit(
     target_unit: GameSCmdUpdateTargetUnitEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
     // The TargetPoint does not contain the ability id or command index.
-    let registered_target_unit = match sc2_state.units.get(&target_unit.m_target.m_tag) {
+    let registered_target_unit = match sc2_state
+        .units
+        .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
+    {
         Some(x) => x.clone(),
         None => {
-            match sc2_state
-                .units
-                .get(&unit_tag_index(target_unit.m_target.m_tag.into()))
-            {
-                Some(x) => x.clone(),
-                None => {
-                    tracing::warn!(
-                        "Unit not found for target unit: {}",
-                        target_unit.m_target.m_tag
-                    );
-                    return (
-                        ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
-                        UnitChangeHint::None,
-                    );
-                }
-            }
+            tracing::warn!(
+                "Unit not found for target unit: {}",
+                target_unit.m_target.m_tag
+            );
+            return (
+                ReplayGameEvent::CmdUpdateTargetUnit(target_unit),
+                UnitChangeHint::None,
+            );
         }
     };
     let mut user_selected_unit_ids: Vec<u32> = vec![];
-- 
2.43.0


From 9efd8127719d1e84a99f41ae765de1db601a59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 11/36] fix: stealing units into a control group left them in
 the last control group

---
 src/game_events/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 5a4aaa7..61924cb 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -338,7 +338,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
@@ -369,7 +369,7 @@ pub fn update_control_group(
                 // Remove the instances from other groups first
                 let mut current_selected_units =
                     user_state.control_groups[ACTIVE_UNITS_GROUP_IDX].clone();
-                for group_idx in 0..9 {
+                for group_idx in 0..ACTIVE_UNITS_GROUP_IDX {
                     for unit in &current_selected_units {
                         user_state.control_groups[group_idx].retain(|&x| x != *unit);
                     }
-- 
2.43.0


From aef550a7dd046dfc73a1ae24f0c51fb6988d85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 12/36] fix: a control group past the known groups panicked
 with an index out of bounds

---
 src/game_events/state.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 61924cb..7b0357b 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -302,8 +302,13 @@ pub fn handle_selection_delta(
         updated_units.append(&mut marked_units);
     }
     if let Some(ref mut state) = sc2_state.user_state.get_mut(&user_id) {
-        state.control_groups[selection_delta.m_control_group_id as usize] =
-            selection_delta.m_delta.m_add_unit_tags.clone();
+        // The group id is 4 bits, only the control groups and the active group are known.
+        if let Some(control_group) = state
+            .control_groups
+            .get_mut(selection_delta.m_control_group_id as usize)
+        {
+            *control_group = selection_delta.m_delta.m_add_unit_tags.clone();
+        }
     }
     updated_units.sort_unstable();
     updated_units.dedup();
@@ -322,6 +327,13 @@ pub fn update_control_group(
     user_id: i64,
     ctrl_group_evt: GameSControlGroupUpdateEvent,
 ) -> (ReplayGameEvent, UnitChangeHint) {
+    if ctrl_group_evt.m_control_group_index as usize > ACTIVE_UNITS_GROUP_IDX {
+        // The index is 4 bits, there are no control groups past the active group.
+        return (
+            ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
+            UnitChangeHint::None,
+        );
+    }
     let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
         UnitChangeHint::Selection(units) => units,
         _ => unreachable!(),
-- 
2.43.0


From 6669886ca02f7c9ad628c341439079cac23ca7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 13/36] fix: unit positions with out of range values overflowed

---
 src/tracker_events/unit_positions.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracker_events/unit_positions.rs b/src/tracker_events/unit_positions.rs
index b010c75..f8b8e64 100644
--- a/src/tracker_events/unit_positions.rs
+++ b/src/tracker_events/unit_positions.rs
@@ -39,9 +39,9 @@ impl UnitPositionsEvent {
         let mut unit_index = self.first_unit_index as i32;
         let mut res = vec![];
         for relative_unit_pos in self.items.chunks_exact(3) {
-            unit_index += relative_unit_pos[0];
-            let x = relative_unit_pos[1] * 4;
-            let y = relative_unit_pos[2] * 4;
+            unit_index = unit_index.wrapping_add(relative_unit_pos[0]);
+            let x = relative_unit_pos[1].saturating_mul(4);
+            let y = relative_unit_pos[2].saturating_mul(4);
             res.push(UnitPosition {
                 tag: unit_index as u32,
                 x,
-- 
2.43.0


From b71024751cd12e1b4a45b3c2fa7ccf6af88fb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 14/36] fix: DocumentHeader::parse returned a tail that was
 already consumed by its fields

---
 src/cache_handles/document_header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache_handles/document_header.rs b/src/cache_handles/document_header.rs
index 355ce6a..4371124 100644
--- a/src/cache_handles/document_header.rs
+++ b/src/cache_handles/document_header.rs
@@ -176,7 +176,7 @@ impl DocumentHeader {
             new_tail = tail;
         }
 
-        Ok((tail, res))
+        Ok((new_tail, res))
     }
 }
 
-- 
2.43.0


From 6c0d7a297da57cd493d89f7279e6e7c3c8a670da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 15/36] fix: MapInfo accepted negative bounds, which overflowed
 the playable area and height map sizes

---
 src/cache_handles/map_info.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/cache_handles/map_info.rs b/src/cache_handles/map_info.rs
index 6983f24..0b0adc8 100644
--- a/src/cache_handles/map_info.rs
+++ b/src/cache_handles/map_info.rs
@@ -135,6 +135,22 @@ impl MapInfo {
             dbg_peek_hex(take(4usize), "read map cell_top, 4 bytes")(tail)?;
         let (_, cell_top) = i32(nom::number::Endianness::Little)(cell_top_bytes)?;
 
+        if cell_left < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapInfoCellOrigin".to_string(),
+                0,
+                "MapInfoCellLeft".to_string(),
+                cell_left,
+            )));
+        }
+        if cell_bottom < 0 {
+            return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
+                "MapInfoCellOrigin".to_string(),
+                0,
+                "MapInfoCellBottom".to_string(),
+                cell_bottom,
+            )));
+        }
         if cell_left >= cell_right {
             return Err(S2ProtocolError::Map(MapError::InvalidCoordinateBounds(
                 "MapInfoCellLeft".to_string(),
-- 
2.43.0


From fff7425a8ffc0c50ebcd7073e0f4315b5bc489eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 16/36] fix: a malformed cache handle panicked when building
 the player details row

---
 src/details.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/details.rs b/src/details.rs
index 595e68f..55d01bb 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -81,6 +81,11 @@ impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow {
         let mut cache_handle_region = None;
         let mut cache_handle_extension = None;
         for cache_handle in &source.cache_handles {
+            // extension, delimiter and region take 16 hex characters, the hash follows.
+            if cache_handle.len() < 16 || !cache_handle.bytes().all(|c| c.is_ascii_hexdigit()) {
+                tracing::warn!("Ignoring malformed cache handle {cache_handle:?}");
+                continue;
+            }
             // 8 characters for the extension
             let (ext_str, remaining) = cache_handle.split_at(8);
             let extension = make_string_from_hex_chars(ext_str);
-- 
2.43.0


From c04dfbcebe69f170bf2578c5d38010ef7ecbb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 17/36] fix: the arrow export returns errors when there is
 nothing to export or nowhere to, instead of panicking

---
 src/arrow_store/mod.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/arrow_store/mod.rs b/src/arrow_store/mod.rs
index b86671d..db4aa7f 100644
--- a/src/arrow_store/mod.rs
+++ b/src/arrow_store/mod.rs
@@ -150,7 +150,7 @@ impl ArrowIpcTypes {
         disable_parallel_scans: bool,
     ) -> Result<(), Box<dyn std::error::Error>> {
         if !output.is_dir() {
-            panic!("Output must be a directory for types 'all'");
+            return Err("Output must be a directory for types 'all'".into());
         }
         // output must be a directory, for this directory we will create the following files:
         // details.arrow
@@ -464,13 +464,12 @@ impl ArrowIpcTypes {
             .take(cmd.process_max_files)
             .collect();
         if sources.is_empty() {
-            panic!("No files found");
-        } else {
-            println!(
-                "{} files have valid init data, processing...",
-                sources.len()
-            );
+            return Err("No files found".into());
         }
+        println!(
+            "{} files have valid init data, processing...",
+            sources.len()
+        );
         Self::handle_write_snapshot(sources, output, unit_abilities, disable_parallel_scans)
     }
 }
-- 
2.43.0


From 394a53acbc55932a44a91684ae59104f61f67afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 18/36] fix: a single replay file used as source was never
 found

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9f351c5..49bd9d9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -247,6 +247,12 @@ pub fn get_matching_files(
             }
         }
         Ok(sources)
+    } else if max_files > 0
+        && source.extension().is_some_and(|ext| ext == "SC2Replay")
+        && source.is_file()
+    {
+        // The source may also be a single replay file.
+        Ok(vec![source])
     } else {
         Ok(vec![])
     }
-- 
2.43.0


From 59fe26d03ae01ceb365e47d94b5a5751b25a2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 19/36] fix: the top 10 players and maps changed between runs
 when several had the same count

---
 src/dir_stats.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index 5b67468..fd429a3 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -89,10 +89,11 @@ pub fn scan_path(
     }
 
     let mut user_freq_vec: Vec<(String, usize)> = user_freq.into_iter().collect();
-    user_freq_vec.sort_by_key(|b| std::cmp::Reverse(b.1));
+    // The name breaks the ties so that the same directory always has the same top 10.
+    user_freq_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
     stats.top_10_players = user_freq_vec.into_iter().take(10).collect();
     let mut map_freq_vec: Vec<(String, usize)> = map_freq.into_iter().collect();
-    map_freq_vec.sort_by_key(|b| std::cmp::Reverse(b.1));
+    map_freq_vec.sort_by(|a, b| b.1.cmp(&a.1).then_with(|| a.0.cmp(&b.0)));
     stats.top_10_maps = map_freq_vec.into_iter().take(10).collect();
 
     Ok(stats)
-- 
2.43.0


From d33b39bbb9c037ce05efa2b9e2ee5522d9811f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 20/36] fix: storing the selection in a control group marked
 the selected units as not selected

---
 src/game_events/state.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 7b0357b..97a72a2 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -334,10 +334,7 @@ pub fn update_control_group(
             UnitChangeHint::None,
         );
     }
-    let mut updated_units = match unmark_previously_selected_units(sc2_state, game_loop, user_id) {
-        UnitChangeHint::Selection(units) => units,
-        _ => unreachable!(),
-    };
+    let mut updated_units = vec![];
     match ctrl_group_evt.m_control_group_update {
         GameEControlGroupUpdate::ESet => {
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
@@ -394,6 +391,12 @@ pub fn update_control_group(
             }
         }
         GameEControlGroupUpdate::ERecall => {
+            // Only a recall changes what is selected, the rest store the selection in a group.
+            if let UnitChangeHint::Selection(mut units) =
+                unmark_previously_selected_units(sc2_state, game_loop, user_id)
+            {
+                updated_units.append(&mut units);
+            }
             let mut current_selected_units: Vec<u32> = vec![];
             if let Some(ref mut user_state) = sc2_state.user_state.get_mut(&user_id) {
                 user_state.control_groups[ACTIVE_UNITS_GROUP_IDX] = user_state.control_groups
-- 
2.43.0


From 586ad6990917503816407558ca513ae3ea7c0b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 21/36] fix: a selected unit that changed type ended up with
 half its radius once unselected

---
 src/state/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/mod.rs b/src/state/mod.rs
index db70d3a..76ddb33 100644
--- a/src/state/mod.rs
+++ b/src/state/mod.rs
@@ -96,7 +96,12 @@ impl SC2Unit {
     pub fn set_unit_props(&mut self, balance_units: &VersionedBalanceUnits) {
         let (radius, color) =
             get_unit_sized_color(&self.name, self.user_id.unwrap_or(0) as i64, balance_units);
-        self.radius = radius;
+        // The radius of the selected units is doubled.
+        self.radius = if self.is_selected {
+            radius * 2.0
+        } else {
+            radius
+        };
         self.color = color;
     }
 }
-- 
2.43.0


From 4a3d91ce7cf34a4edf75067e50e4912f5d2b0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 22/36] fix: lobby slots of builds up to 75689 were decoded
 with the layout of newer builds

---
 src/versions/protocol75689/mod.rs | 167 +++++++++++++++++++++++++++++-
 1 file changed, 164 insertions(+), 3 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index 3462b46..a82c3dc 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -32,6 +32,7 @@ pub mod bit_packed {
     //! Generated code from source: ../s2protocol/json/protocol75689.json
     use crate::game_events::ReplayGameEvent;
     use crate::versions::GameEvent;
+    use crate::versions::protocol87702::bit_packed as protocol87702;
     pub use crate::versions::protocol87702::bit_packed::CAllowedObserveTypes;
     pub use crate::versions::protocol87702::bit_packed::CAllowedRaces;
     pub use crate::versions::protocol87702::bit_packed::CArtifactHandle;
@@ -60,7 +61,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameCCheatString;
     pub use crate::versions::protocol87702::bit_packed::GameCCommanderMasteryTalentArray;
     pub use crate::versions::protocol87702::bit_packed::GameCGameCacheName;
-    pub use crate::versions::protocol87702::bit_packed::GameCLobbySlotArray;
     pub use crate::versions::protocol87702::bit_packed::GameCModPaths;
     pub use crate::versions::protocol87702::bit_packed::GameCPlayerDetailsArray;
     pub use crate::versions::protocol87702::bit_packed::GameCRewardArray;
@@ -164,7 +164,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::GameSSetAbsoluteGameSpeedEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameDurationEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetGameSpeedEvent;
-    pub use crate::versions::protocol87702::bit_packed::GameSSetLobbySlotEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncLoadingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSetSyncPlayingTimeEvent;
     pub use crate::versions::protocol87702::bit_packed::GameSSingleStepGameEvent;
@@ -296,7 +295,6 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Int64;
     pub use crate::versions::protocol87702::bit_packed::MEventData;
     pub use crate::versions::protocol87702::bit_packed::ReplaySGameUserId;
-    pub use crate::versions::protocol87702::bit_packed::ReplaySInitData;
     pub use crate::versions::protocol87702::bit_packed::SUserInitialData;
     pub use crate::versions::protocol87702::bit_packed::SVarUint32;
     pub use crate::versions::protocol87702::bit_packed::SVersion;
@@ -316,6 +314,7 @@ pub mod bit_packed {
     pub use crate::versions::protocol87702::bit_packed::Uint64;
     use crate::*;
     use nom::*;
+    use nom_mpq::MPQ;
 
     #[derive(Debug, PartialEq, Clone)]
     pub enum GameEEventId {
@@ -2105,4 +2104,166 @@ pub mod bit_packed {
             }
         }
     }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameSSetLobbySlotEvent {
+        pub m_slot_id: GameTLobbySlotId,
+        pub m_slot_change: GameSLobbySlotChange,
+    }
+    impl GameSSetLobbySlotEvent {
+        #[tracing::instrument(name="75689::bit_packed::GameSSetLobbySlotEvent::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (tail, m_slot_id) = GameTLobbySlotId::parse(input)?;
+            let (tail, m_slot_change) = GameSLobbySlotChange::parse(tail)?;
+            Ok((
+                tail,
+                Self {
+                    m_slot_id,
+                    m_slot_change,
+                },
+            ))
+        }
+    }
+
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct GameCLobbySlotArray {
+        pub value: Vec<GameSLobbySlot>,
+    }
+    impl GameCLobbySlotArray {
+        #[tracing::instrument(name="75689::GameCLobbySlotArray::ArrayType::Parse", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (mut tail, array_length) = parse_packed_int(input, 0, 5)?;
+            let mut value = vec![];
+            for _ in 0..array_length {
+                let (new_tail, slot) = GameSLobbySlot::parse(tail)?;
+                tail = new_tail;
+                value.push(slot);
+            }
+            Ok((tail, Self { value }))
+        }
+    }
+
+    /// The slots of this version have no values for the fields added by later versions.
+    impl From<GameSLobbySlot> for protocol87702::GameSLobbySlot {
+        fn from(source: GameSLobbySlot) -> Self {
+            Self {
+                m_control: source.m_control,
+                m_user_id: source.m_user_id,
+                m_team_id: source.m_team_id,
+                m_color_pref: source.m_color_pref,
+                m_race_pref: source.m_race_pref,
+                m_difficulty: source.m_difficulty,
+                m_ai_build: source.m_ai_build,
+                m_handicap: protocol87702::GameTHandicap {
+                    value: Uint32 {
+                        value: source.m_handicap.value,
+                    },
+                },
+                m_observe: source.m_observe,
+                m_logo_index: source.m_logo_index,
+                m_hero: source.m_hero,
+                m_skin: source.m_skin,
+                m_mount: source.m_mount,
+                m_artifacts: source.m_artifacts,
+                m_working_set_slot_id: source.m_working_set_slot_id,
+                m_rewards: source.m_rewards,
+                m_toon_handle: source.m_toon_handle,
+                m_licenses: protocol87702::GameCLicenseArray {
+                    value: source.m_licenses.value,
+                },
+                m_tandem_leader_id: source.m_tandem_leader_id,
+                m_commander: source.m_commander,
+                m_commander_level: source.m_commander_level,
+                m_has_silence_penalty: source.m_has_silence_penalty,
+                m_tandem_id: source.m_tandem_id,
+                m_commander_mastery_level: source.m_commander_mastery_level,
+                m_commander_mastery_talents: source.m_commander_mastery_talents,
+                m_trophy_id: source.m_trophy_id,
+                m_reward_overrides: source.m_reward_overrides,
+                m_brutal_plus_difficulty: Uint32 { value: 0 },
+                m_retry_mutation_indexes: protocol87702::GameCRetryMutationIndexArray {
+                    value: vec![],
+                },
+                m_a_c_enemy_race: Uint32 { value: 0 },
+                m_a_c_enemy_wave_type: Uint32 { value: 0 },
+                m_selected_commander_prestige: Uint32 { value: 0 },
+            }
+        }
+    }
+
+    /// The init data of this version, only the lobby slots differ from protocol87702
+    #[derive(Debug, PartialEq, Clone)]
+    pub struct ReplaySInitData {
+        pub m_sync_lobby_state: GameSLobbySyncState,
+    }
+    impl ReplaySInitData {
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::parse_m_lobby_state", level = "trace", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse_m_lobby_state(
+            input: (&[u8], usize),
+        ) -> S2ProtoResult<(&[u8], usize), GameSLobbyState> {
+            let (tail, m_phase) = GameSLobbyState::parse_m_phase(input)?;
+            let (tail, m_max_users) = GameSLobbyState::parse_m_max_users(tail)?;
+            let (tail, m_max_observers) = GameSLobbyState::parse_m_max_observers(tail)?;
+            let (tail, slots) = GameCLobbySlotArray::parse(tail)?;
+            let m_slots = protocol87702::GameCLobbySlotArray {
+                value: slots.value.into_iter().map(|slot| slot.into()).collect(),
+            };
+            let (tail, m_random_seed) = GameSLobbyState::parse_m_random_seed(tail)?;
+            let (tail, m_host_user_id) = GameSLobbyState::parse_m_host_user_id(tail)?;
+            let (tail, m_is_single_player) = GameSLobbyState::parse_m_is_single_player(tail)?;
+            let (tail, m_picked_map_tag) = GameSLobbyState::parse_m_picked_map_tag(tail)?;
+            let (tail, m_game_duration) = GameSLobbyState::parse_m_game_duration(tail)?;
+            let (tail, m_default_difficulty) = GameSLobbyState::parse_m_default_difficulty(tail)?;
+            let (tail, m_default_ai_build) = GameSLobbyState::parse_m_default_ai_build(tail)?;
+            Ok((
+                tail,
+                GameSLobbyState {
+                    m_phase,
+                    m_max_users,
+                    m_max_observers,
+                    m_slots,
+                    m_random_seed,
+                    m_host_user_id,
+                    m_is_single_player,
+                    m_picked_map_tag,
+                    m_game_duration,
+                    m_default_difficulty,
+                    m_default_ai_build,
+                },
+            ))
+        }
+
+        #[tracing::instrument(name="75689::bit_packed::ReplaySInitData::Parse", level = "debug", skip(input), fields(peek = peek_bits(input)))]
+        pub fn parse(input: (&[u8], usize)) -> S2ProtoResult<(&[u8], usize), Self> {
+            let (tail, m_user_initial_data) =
+                GameSLobbySyncState::parse_m_user_initial_data(input)?;
+            let (tail, m_game_description) = GameSLobbySyncState::parse_m_game_description(tail)?;
+            let (tail, m_lobby_state) = Self::parse_m_lobby_state(tail)?;
+            Ok((
+                tail,
+                Self {
+                    m_sync_lobby_state: GameSLobbySyncState {
+                        m_user_initial_data,
+                        m_game_description,
+                        m_lobby_state,
+                    },
+                },
+            ))
+        }
+
+        /// Read the Init Data
+        #[tracing::instrument(level = "debug", skip(mpq, file_contents))]
+        pub fn read_init_data(
+            mpq: &MPQ,
+            file_contents: &[u8],
+        ) -> Result<InitData, S2ProtocolError> {
+            let (_, init_data_sector) =
+                mpq.read_mpq_file_sector("replay.initData", false, file_contents)?;
+            let (_, init_data) = Self::parse((&init_data_sector, 0usize))?;
+            protocol87702::ReplaySInitData {
+                m_sync_lobby_state: init_data.m_sync_lobby_state,
+            }
+            .try_into()
+        }
+    }
 }
-- 
2.43.0


From 3855b727e195306ffaa1815d3e995e8a1dd994d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 23/36] fix: the lowest 64 bit integer was rejected although
 the format can represent it

---
 src/lib.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 49bd9d9..23f0e4e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,29 +152,30 @@ where
 pub fn parse_vlq_int(input: &[u8]) -> IResult<&[u8], i64> {
     let (mut tail, mut v_int_value) = dbg_peek_hex(u8, "v_int")(input)?;
     let is_negative = v_int_value & 1 != 0;
-    let mut result: i64 = ((v_int_value >> 1) & 0x3f) as i64;
-    let mut bits: i64 = 6;
+    let mut magnitude: u64 = ((v_int_value >> 1) & 0x3f) as u64;
+    let mut bits: u32 = 6;
+    let too_large =
+        |at| nom::Err::Error(nom::error::Error::new(at, nom::error::ErrorKind::TooLarge));
     while (v_int_value & 0x80) != 0 {
         let (new_tail, new_v_int_value) = dbg_peek_hex(u8, "v_int")(tail)?;
-        // 63 bits of magnitude are available (the sign is separate), anything that does not fit is
-        // not a number this format can represent.
-        let digit = new_v_int_value as i64 & 0x7fi64;
-        if digit != 0 && (bits > 62 || digit > (i64::MAX >> bits)) {
-            return Err(nom::Err::Error(nom::error::Error::new(
-                tail,
-                nom::error::ErrorKind::TooLarge,
-            )));
-        }
-        tail = new_tail;
+        // Anything that does not fit is not a number this format can represent.
+        let digit = new_v_int_value as u64 & 0x7f;
         if digit != 0 {
-            result |= digit << bits;
+            if bits > 63 || digit > (u64::MAX >> bits) {
+                return Err(too_large(tail));
+            }
+            magnitude |= digit << bits;
         }
+        tail = new_tail;
         v_int_value = new_v_int_value;
-        bits += 7;
+        bits = bits.saturating_add(7);
     }
-    if is_negative {
-        result = -result;
+    let result = if is_negative {
+        0i64.checked_sub_unsigned(magnitude)
+    } else {
+        i64::try_from(magnitude).ok()
     }
+    .ok_or_else(|| too_large(input))?;
     Ok((tail, result))
 }
 
-- 
2.43.0


From d165788ae6a9bdbf9bbec460820d80cdbd4bad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 24/36] fix: the lobby user data was taken by slot position, it
 is indexed by user id

---
 src/details.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/details.rs b/src/details.rs
index 55d01bb..f491fa6 100644
--- a/src/details.rs
+++ b/src/details.rs
@@ -206,6 +206,12 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     }
                 }
                 let slot_idx = slot_idx?;
+                // The user initial data is indexed by the user id, not by the slot. The computer
+                // players have a slot but are not users.
+                let user = init.sync_lobby_state.lobby_state.slots[slot_idx]
+                    .user_id
+                    .and_then(|user_id| usize::try_from(user_id).ok())
+                    .and_then(|user_id| init.sync_lobby_state.user_initial_data.get(user_id));
                 Some(PlayerLobbyDetails {
                     title: details.title.clone(),
                     game_description: init.sync_lobby_state.game_description.clone(),
@@ -213,15 +219,8 @@ impl TryFrom<&InitData> for Vec<PlayerLobbyDetails> {
                     player_details: player.clone(),
                     time_utc: details.time_utc,
                     time_local_offset: details.time_local_offset,
-                    user_init_data_name: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
-                        .map_or("".to_string(), |u| u.name.clone()),
-                    user_init_data_clan_tag: init
-                        .sync_lobby_state
-                        .user_initial_data
-                        .get(slot_idx)
+                    user_init_data_name: user.map_or("".to_string(), |u| u.name.clone()),
+                    user_init_data_clan_tag: user
                         .map_or("".to_string(), |u| u.clan_tag.clone().unwrap_or_default()),
                     tracker_setup_player_id: None,
                     tracker_setup_slot_id: None,
-- 
2.43.0


From 6350d766f5b2c29daae84bf594bdc838407ea7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 25/36] fix: deselecting a unit cleared its mark while another
 player still had it selected

---
 src/game_events/state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 97a72a2..838b5d9 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -218,11 +218,19 @@ pub fn unmark_previously_selected_units(
     user_id: i64,
 ) -> UnitChangeHint {
     let mut updated_unit_ids = vec![];
+    // A unit may be part of the selection of several players.
+    let selected_by_others: Vec<u32> = sc2_state
+        .user_state
+        .iter()
+        .filter(|(other_id, _)| **other_id != user_id)
+        .flat_map(|(_, state)| state.control_groups[ACTIVE_UNITS_GROUP_IDX].iter())
+        .map(|tag| unit_tag_index(*tag as i64))
+        .collect();
     if let Some(state) = sc2_state.user_state.get_mut(&user_id) {
         for prev_unit in &state.control_groups[ACTIVE_UNITS_GROUP_IDX] {
             let unit_index = unit_tag_index(*prev_unit as i64);
             if let Some(ref mut unit) = sc2_state.units.get_mut(&unit_index) {
-                if unit.is_selected {
+                if unit.is_selected && !selected_by_others.contains(&unit_index) {
                     unit.is_selected = false;
                     unit.radius *= 0.5;
                     updated_unit_ids.push(unit_index);
-- 
2.43.0


From cfde5857c3a8bdffe06fd98e3c352721bd6229f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 26/36] fix: selections of users without a player state marked
 units for good

---
 src/game_events/state.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 838b5d9..294f70a 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -252,10 +252,14 @@ pub fn unmark_previously_selected_units(
 pub fn mark_selected_units(
     sc2_state: &mut SC2ReplayState,
     game_loop: i64,
-    _user_id: i64,
+    user_id: i64,
     selected_units: &[u32],
 ) -> UnitChangeHint {
     let mut updated_unit_ids = vec![];
+    if !sc2_state.user_state.contains_key(&user_id) {
+        // There is no selection kept for this user (i.e. an observer), the mark would never end.
+        return UnitChangeHint::Selection(vec![]);
+    }
     for new_selected_unit in selected_units {
         let unit_index = unit_tag_index(*new_selected_unit as i64);
         if let Some(ref mut unit) = sc2_state.units.get_mut(&unit_index) {
-- 
2.43.0


From cefd83e9504d1883c5d85705b2eb97aac548bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 27/36] fix: the sequence of a command manager event was read
 over its presence flag

---
 src/generator/decoder_type.rs     | 6 +++++-
 src/versions/protocol87702/mod.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 929b990..5fcd5b8 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -898,7 +898,11 @@ impl DecoderType {
                 } else {
                     if field_value_parser.contains("input,") {
                         type_impl_def
-                            .push_str(&format!("let (tail, res) = {field_value_parser}?;\n"));
+                            // The value is stored after the flag that tells it is provided.
+                            .push_str(&format!(
+                                "let (tail, res) = {}?;\n",
+                                field_value_parser.replace("input,", "tail,")
+                            ));
                     } else {
                         type_impl_def
                             .push_str(&format!("let (tail, res) = {field_value_parser}(tail)?;\n"));
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 71d60bc..3e52daa 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -12478,7 +12478,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<i64>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_sequence) = if is_provided {
-                let (tail, res) = parse_packed_int(input, 1, 32usize)?;
+                let (tail, res) = parse_packed_int(tail, 1, 32usize)?;
                 (tail, Some(res))
             } else {
                 (tail, None)
-- 
2.43.0


From 9932d3e03f2be56af2df8930655ad8e81750b5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 28/36] fix: the length of an optional array was read over its
 presence flag

---
 src/generator/decoder_type.rs     | 2 +-
 src/versions/protocol87702/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/decoder_type.rs b/src/generator/decoder_type.rs
index 5fcd5b8..bf1158b 100644
--- a/src/generator/decoder_type.rs
+++ b/src/generator/decoder_type.rs
@@ -875,7 +875,7 @@ impl DecoderType {
                     let array_size_bits =
                         (array_length.parse::<f32>().unwrap().log2() + 1.).floor() as usize;
                     type_impl_def.push_str(&format!(
-                        "let (tail, array_length) = take_n_bits_into_i64(input, {array_size_bits})?;\n\
+                        "let (tail, array_length) = take_n_bits_into_i64(tail, {array_size_bits})?;\n\
                         let array_length = array_length as usize;\n\
                          tracing::debug!(\"Reading array length: {array_length}\");\n\
                          "
diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index 3e52daa..cc0845a 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -6207,7 +6207,7 @@ pub mod bit_packed {
         ) -> S2ProtoResult<(&[u8], usize), Option<Vec<Uint8>>> {
             let (tail, is_provided): ((&[u8], usize), bool) = parse_bool(input)?;
             let (tail, m_data_deprecated) = if is_provided {
-                let (mut tail, array_length) = take_n_bits_into_i64(input, 5)?;
+                let (mut tail, array_length) = take_n_bits_into_i64(tail, 5)?;
                 let array_length = array_length as usize;
                 tracing::debug!("Reading array length: {array_length}");
                 let max_initial_capacity =
-- 
2.43.0


From 03f7c8ccf0d137365a051026054d1e5fe8e16164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 29/36] fix: the selection hint reported units that stay
 selected as not selected

---
 src/game_events/state.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/game_events/state.rs b/src/game_events/state.rs
index 294f70a..39d96f4 100644
--- a/src/game_events/state.rs
+++ b/src/game_events/state.rs
@@ -279,6 +279,23 @@ pub fn mark_selected_units(
     UnitChangeHint::Selection(updated_units)
 }
 
+/// A selection change may both unmark and mark the same unit, this reports every changed unit
+/// once, with the state it ended up with.
+fn get_selection_changes(
+    sc2_state: &SC2ReplayState,
+    mut updated_units: Vec<SC2Unit>,
+) -> UnitChangeHint {
+    updated_units.sort_unstable();
+    updated_units.dedup();
+    UnitChangeHint::Selection(
+        updated_units
+            .iter()
+            .filter_map(|unit| sc2_state.units.get(&unit.tag_index))
+            .cloned()
+            .collect(),
+    )
+}
+
 /// Registers units as being selected.
 /// The previous selected units radius is decreased to its normal state.
 /// The new selected units radius is increased.
@@ -322,11 +339,9 @@ pub fn handle_selection_delta(
             *control_group = selection_delta.m_delta.m_add_unit_tags.clone();
         }
     }
-    updated_units.sort_unstable();
-    updated_units.dedup();
     (
         ReplayGameEvent::SelectionDelta(selection_delta),
-        UnitChangeHint::Selection(updated_units),
+        get_selection_changes(sc2_state, updated_units),
     )
 }
 
@@ -426,7 +441,7 @@ pub fn update_control_group(
     }
     (
         ReplayGameEvent::ControlGroupUpdate(ctrl_group_evt),
-        UnitChangeHint::Selection(updated_units),
+        get_selection_changes(sc2_state, updated_units),
     )
 }
 
-- 
2.43.0


From 70b033d04c922e7853683d0937ccb0257fc9ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 30/36] fix: directory statistics panicked on file names that
 are not UTF-8

---
 src/dir_stats.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dir_stats.rs b/src/dir_stats.rs
index fd429a3..23a5760 100644
--- a/src/dir_stats.rs
+++ b/src/dir_stats.rs
@@ -106,10 +106,8 @@ pub fn try_read_init_data(
 ) -> Result<InitData, Box<dyn std::error::Error>> {
     let file_contents = crate::read_file(source)?;
     let (_, mpq) = parser::parse(&file_contents)?;
-    let source_path: String = source
-        .to_str()
-        .expect("Failed to convert file name to str")
-        .to_string();
+    // The file name may not be valid UTF-8.
+    let source_path = source.to_string_lossy().to_string();
     // NOTE: A fake "ext_fs_id" is created because the current impl is thought
     // of mainly for writing arrow ipc files... Maybe this is not a good idea.
     let init_data = InitData::new(&source_path, file_number, &mpq, &file_contents)?;
-- 
2.43.0


From d0cd0539b03a380e3350a5c7069d74b16a5e3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 31/36] fix: a replay date out of the range of the arrow column
 made the details export panic

---
 src/arrow_store/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/arrow_store/mod.rs b/src/arrow_store/mod.rs
index db4aa7f..b047637 100644
--- a/src/arrow_store/mod.rs
+++ b/src/arrow_store/mod.rs
@@ -361,6 +361,14 @@ impl ArrowIpcTypes {
                     .map(|d| d.into())
                     .collect::<Vec<PlayerLobbyDetailsFlatRow>>()
             })
+            // The column stores nanoseconds, writing a date out of its range panics.
+            .filter(|row| {
+                let in_range = row.ext_datetime.and_utc().timestamp_nanos_opt().is_some();
+                if !in_range {
+                    tracing::error!("Date out of range in {}", row.ext_fs_file_name);
+                }
+                in_range
+            })
             .collect();
         let res: ArrayRef = details_flaw_rows.try_into_arrow()?;
         let chunk: RecordBatch = res
@@ -396,6 +404,14 @@ impl ArrowIpcTypes {
                     .map(|d| d.into())
                     .collect::<Vec<PlayerLobbyDetailsFlatRow>>()
             })
+            // The column stores nanoseconds, writing a date out of its range panics.
+            .filter(|row| {
+                let in_range = row.ext_datetime.and_utc().timestamp_nanos_opt().is_some();
+                if !in_range {
+                    tracing::error!("Date out of range in {}", row.ext_fs_file_name);
+                }
+                in_range
+            })
             .collect();
         let res: ArrayRef = details_flaw_rows.try_into_arrow()?;
         let chunk: RecordBatch = res
-- 
2.43.0


From 367a048efd9b695454d7357296edd7b3de1efbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 32/36] fix: one unreadable directory made the whole replay
 scan fail

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23f0e4e..f2c8298 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,8 +227,13 @@ pub fn get_matching_files(
             let entry = entry?;
             let path = entry.path();
             if path.is_dir() {
-                let mut sub_dir =
-                    get_matching_files(path, max_files - sources.len(), max_depth - 1)?;
+                let sub_dir =
+                    get_matching_files(path.clone(), max_files - sources.len(), max_depth - 1);
+                // A directory that cannot be read should not hide the others.
+                let mut sub_dir = sub_dir.unwrap_or_else(|err| {
+                    tracing::warn!("Error reading directory {}: {:?}", path.display(), err);
+                    Vec::new()
+                });
                 if !sub_dir.is_empty() {
                     // store n sub_dir files without breaking the max_files limit
                     let remaining = max_files - sources.len();
-- 
2.43.0


From 77de6f8124ed6cb4b2bdb36bef779a3100be1b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 33/36] fix: a balance XML file that is not UTF-8 text made the
 whole directory fail

---
 src/game_events/ability/balance_data/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/game_events/ability/balance_data/mod.rs b/src/game_events/ability/balance_data/mod.rs
index 85de2fb..06e982e 100644
--- a/src/game_events/ability/balance_data/mod.rs
+++ b/src/game_events/ability/balance_data/mod.rs
@@ -59,7 +59,13 @@ pub fn traverse_versioned_balance_abilities(
                 && path.is_file()
             {
                 tracing::debug!("Processing XML file: {:?}", path);
-                let files_content = std::fs::read_to_string(&path)?;
+                let files_content = match std::fs::read_to_string(&path) {
+                    Ok(val) => val,
+                    Err(err) => {
+                        tracing::error!("Failed to read XML file {:?}: {}", path, err);
+                        continue;
+                    }
+                };
                 let unit = match serde_xml_rs::from_str::<VersionedBalanceUnit>(&files_content) {
                     Ok(val) => val,
                     Err(err) => {
-- 
2.43.0


From 195eab81b7da1b121c5409b585bb80cddb580b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 34/36] fix: repeated fields of tracker events were reported
 with the tag of another field

---
 src/versions/protocol87702/mod.rs | 36 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/versions/protocol87702/mod.rs b/src/versions/protocol87702/mod.rs
index cc0845a..70b1e31 100644
--- a/src/versions/protocol87702/mod.rs
+++ b/src/versions/protocol87702/mod.rs
@@ -3756,7 +3756,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_tag_index"),
-                                8,
+                                0,
                             ));
                         }
                     }
@@ -3774,7 +3774,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_tag_recycle"),
-                                8,
+                                1,
                             ));
                         }
                     }
@@ -3792,7 +3792,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_type_name"),
-                                8,
+                                2,
                             ));
                         }
                     }
@@ -3810,7 +3810,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_control_player_id"),
-                                8,
+                                3,
                             ));
                         }
                     }
@@ -3828,7 +3828,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_upkeep_player_id"),
-                                8,
+                                4,
                             ));
                         }
                     }
@@ -3841,7 +3841,7 @@ pub mod byte_aligned {
                             continue;
                         } else {
                             tracing::debug!("Field m_x with tag 5 was already provided");
-                            return Err(S2ProtocolError::DuplicateTag(String::from("m_x"), 8));
+                            return Err(S2ProtocolError::DuplicateTag(String::from("m_x"), 5));
                         }
                     }
                     6 => {
@@ -3853,7 +3853,7 @@ pub mod byte_aligned {
                             continue;
                         } else {
                             tracing::debug!("Field m_y with tag 6 was already provided");
-                            return Err(S2ProtocolError::DuplicateTag(String::from("m_y"), 8));
+                            return Err(S2ProtocolError::DuplicateTag(String::from("m_y"), 6));
                         }
                     }
                     7 => {
@@ -3872,7 +3872,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_creator_unit_tag_index"),
-                                8,
+                                7,
                             ));
                         }
                     }
@@ -3910,7 +3910,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_creator_ability_name"),
-                                8,
+                                9,
                             ));
                         }
                     }
@@ -4050,7 +4050,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_tag_index"),
-                                8,
+                                0,
                             ));
                         }
                     }
@@ -4068,7 +4068,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_tag_recycle"),
-                                8,
+                                1,
                             ));
                         }
                     }
@@ -4086,7 +4086,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_killer_player_id"),
-                                8,
+                                2,
                             ));
                         }
                     }
@@ -4099,7 +4099,7 @@ pub mod byte_aligned {
                             continue;
                         } else {
                             tracing::debug!("Field m_x with tag 3 was already provided");
-                            return Err(S2ProtocolError::DuplicateTag(String::from("m_x"), 8));
+                            return Err(S2ProtocolError::DuplicateTag(String::from("m_x"), 3));
                         }
                     }
                     4 => {
@@ -4111,7 +4111,7 @@ pub mod byte_aligned {
                             continue;
                         } else {
                             tracing::debug!("Field m_y with tag 4 was already provided");
-                            return Err(S2ProtocolError::DuplicateTag(String::from("m_y"), 8));
+                            return Err(S2ProtocolError::DuplicateTag(String::from("m_y"), 4));
                         }
                     }
                     5 => {
@@ -4130,7 +4130,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_killer_unit_tag_index"),
-                                8,
+                                5,
                             ));
                         }
                     }
@@ -4150,7 +4150,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_killer_unit_tag_recycle"),
-                                8,
+                                6,
                             ));
                         }
                     }
@@ -4242,7 +4242,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_tag_index"),
-                                8,
+                                0,
                             ));
                         }
                     }
@@ -4260,7 +4260,7 @@ pub mod byte_aligned {
                             );
                             return Err(S2ProtocolError::DuplicateTag(
                                 String::from("m_unit_tag_recycle"),
-                                8,
+                                1,
                             ));
                         }
                     }
-- 
2.43.0


From 9725123883bb40912851f1d16f2f703870421f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:35 +0000
Subject: [PATCH 35/36] fix: read balance units whose name ends in .json under
 their own name

---
 .../ability/balance_data/json_handler.rs            | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/game_events/ability/balance_data/json_handler.rs b/src/game_events/ability/balance_data/json_handler.rs
index 164868f..5dc9054 100644
--- a/src/game_events/ability/balance_data/json_handler.rs
+++ b/src/game_events/ability/balance_data/json_handler.rs
@@ -76,10 +76,10 @@ pub fn read_balance_data_from_json_dir<P: AsRef<Path>>(
                 let file_path = entry.path();
                 let versioned_balance_unit: VersionedBalanceUnit =
                     serde_json::from_reader(File::open(file_path)?)?;
-                let unit_name = entry
-                    .file_name()
-                    .to_string_lossy()
-                    .trim_end_matches(".json")
+                let file_name = entry.file_name().to_string_lossy().to_string();
+                let unit_name = file_name
+                    .strip_suffix(".json")
+                    .unwrap_or(&file_name)
                     .to_string();
                 balance_data.insert((version, unit_name), versioned_balance_unit);
             }
@@ -113,7 +113,10 @@ pub fn read_balance_data_from_included_assets()
                 continue;
             }
         };
-        let unit_name = parts[1].trim_end_matches(".json").to_string();
+        let unit_name = parts[1]
+            .strip_suffix(".json")
+            .unwrap_or(parts[1])
+            .to_string();
         let versioned_balance_unit: VersionedBalanceUnit = serde_json::from_slice(contents)?;
         balance_data.insert((version, unit_name), versioned_balance_unit);
     }
-- 
2.43.0


From 0b0633047883539ab7c34474ee5f05155012b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:42 +0000
Subject: [PATCH 36/36] fix: an event section without any event is an empty
 list, not an error

---
 src/versions/protocol75689/mod.rs                | 5 +----
 src/versions/protocol87702/events/game/mod.rs    | 5 +----
 src/versions/protocol87702/events/message/mod.rs | 5 +----
 src/versions/protocol87702/events/tracker/mod.rs | 5 +----
 4 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/versions/protocol75689/mod.rs b/src/versions/protocol75689/mod.rs
index a82c3dc..15e5af9 100644
--- a/src/versions/protocol75689/mod.rs
+++ b/src/versions/protocol75689/mod.rs
@@ -1225,7 +1225,7 @@ pub mod bit_packed {
             let mut res = vec![];
             let mut count = 1usize;
             let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
-            loop {
+            while event_tail.0.input_len() > 0 {
                 tracing::debug!("-----------------------------------------------");
                 tracing::debug!("Event number: {}", count);
                 let (new_event_tail, (delta, user_id, event)) =
@@ -1242,9 +1242,6 @@ pub mod bit_packed {
                         tracing::debug!("Skipping event: {:?}", err);
                     }
                 };
-                if event_tail.0.input_len() == 0 {
-                    break;
-                }
             }
             Ok(res)
         }
diff --git a/src/versions/protocol87702/events/game/mod.rs b/src/versions/protocol87702/events/game/mod.rs
index 3365b67..d04dc86 100644
--- a/src/versions/protocol87702/events/game/mod.rs
+++ b/src/versions/protocol87702/events/game/mod.rs
@@ -42,7 +42,7 @@ impl GameEEventId {
         let mut res = vec![];
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
-        loop {
+        while event_tail.0.input_len() > 0 {
             tracing::debug!("-----------------------------------------------");
             tracing::debug!("Event number: {}", count);
             let (new_event_tail, (delta, user_id, event)) = Self::parse_event_triplet(event_tail)?;
@@ -58,9 +58,6 @@ impl GameEEventId {
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-            if event_tail.0.input_len() == 0 {
-                break;
-            }
         }
         Ok(res)
     }
diff --git a/src/versions/protocol87702/events/message/mod.rs b/src/versions/protocol87702/events/message/mod.rs
index 5f2ca75..7b61b22 100644
--- a/src/versions/protocol87702/events/message/mod.rs
+++ b/src/versions/protocol87702/events/message/mod.rs
@@ -36,7 +36,7 @@ impl GameEMessageId {
         let mut res = vec![];
         let mut count = 1usize;
         let mut event_tail: (&[u8], usize) = (&game_events, 0usize);
-        loop {
+        while event_tail.0.input_len() > 0 {
             tracing::debug!("-----------------------------------------------");
             tracing::debug!("Event number: {}", count);
             let (new_event_tail, (delta, user_id, event)) = Self::parse_event_triplet(event_tail)?;
@@ -52,9 +52,6 @@ impl GameEMessageId {
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-            if event_tail.0.input_len() == 0 {
-                break;
-            }
         }
         Ok(res)
     }
diff --git a/src/versions/protocol87702/events/tracker/mod.rs b/src/versions/protocol87702/events/tracker/mod.rs
index 28b61d1..d206c37 100644
--- a/src/versions/protocol87702/events/tracker/mod.rs
+++ b/src/versions/protocol87702/events/tracker/mod.rs
@@ -33,7 +33,7 @@ impl ReplayTrackerEEventId {
             mpq.read_mpq_file_sector("replay.tracker.events", false, file_contents)?;
         let mut res = vec![];
         let mut event_tail: &[u8] = &tracker_events;
-        loop {
+        while event_tail.input_len() > 0 {
             let (new_event_tail, (delta, event)) = Self::parse_event_pair(event_tail)?;
             event_tail = new_event_tail;
             match event.try_into() {
@@ -42,9 +42,6 @@ impl ReplayTrackerEEventId {
                     tracing::debug!("Skipping event: {:?}", err);
                 }
             };
-            if event_tail.input_len() == 0 {
-                break;
-            }
         }
         Ok(res)
     }
-- 
2.43.0

