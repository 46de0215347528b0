#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

BP="src/bit_packed_decoder.rs"; VD="src/versioned_decoder.rs"
GE="src/game_events/mod.rs"; TE="src/tracker_events/mod.rs"

p("D01", "Bit-packed reads return the stored bits and advance exactly past them",
  "Reading n bits (0 to 64) from a bit-packed buffer at any bit position returns the integer that the replay format stores there (bits are consumed from the low end of each byte, earlier chunks are the more significant ones) and leaves the cursor exactly n bits further. Packed integers add their declared offset, flags read one bit, and blobs first skip to the next byte boundary and then return exactly the declared bytes. A read that needs more bits than are left is an error, never a short or padded value.",
  ["inputs"], "every buffer content, starting bit offset, width and declared offset, and every length of remaining input",
  "Two unit tests read one recorded byte string each; the interaction of start offset, width and byte boundary is a large space where an off-by-one only shows at particular combinations.",
  [BP], [("bit chunk assembly", BP+": take_n_bits_into_i64, rtake_n_bits"), ("byte alignment and blobs", BP+": byte_align, take_bit_array"), ("packed integers, flags, fourcc", BP+": parse_packed_int, parse_bool, take_fourcc")],
  ["return value and remaining (bytes, bit offset) of the public bit-packed readers"])

p("D02", "Versioned integers, blobs, flags and bit arrays decode to the encoded value",
  "A variable-length integer of the self-describing format decodes to the signed value it encodes for every value that fits in 64 bits, consuming exactly its own bytes, and one that does not fit is an error. Tagged blobs, flags, four-character codes, bit arrays and integers return the encoded content and leave the rest of the input untouched. A field whose type tag is not the expected one, or whose input is cut short, is rejected.",
  ["inputs"], "every 64-bit value, every blob content and length, every wrong type tag and every truncation point",
  "One unit test checks a few small integers; multi-byte boundaries, extreme values, wrong tags and truncations are not sampled.",
  [VD], [("vlq integer", VD+": parse_vlq_int"), ("type tag validation", VD+": validate_*_tag"), ("tagged values", VD+": tagged_*")],
  ["return value and remaining input of the public versioned readers"])

p("D03", "Every tracker event decodes to the values stored in the replay, in order",
  "For every well-formed tracker stream the events read are exactly the stored ones, in stored order: same kind, same game-loop delta, every field equal to the encoded value (stats in their own columns and listed under their own names, fixed-point food counts, names as text, unit tag parts, optional fields absent when absent). This does not depend on the order in which the fields of an event are stored or on the mix of events around it. Both supported generations of the protocol give the same result.",
  ["inputs", "histories"], "every sequence of the ten kinds of tracker events, all field values in range, optional fields present or absent, any field order",
  "The tests decode one recorded stream and look at its first events; a swapped column, sign error or narrow cast only shows for values the recording does not have.",
  [TE, "src/versions/protocol87702/mod.rs", "src/versions/mod.rs"],
  [("byte-aligned struct decoding with duplicate/unknown/missing field handling", "src/versions/protocol87702/mod.rs: byte_aligned"), ("wire to public event conversion", "src/tracker_events/*.rs"), ("stream reader", "src/versions/mod.rs: read_tracker_events")],
  ["the events returned by the tracker readers and iterators"])

p("D04", "Every game event decodes to the values stored in the replay, in order",
  "For every well-formed game event stream the supported events read are exactly the stored ones, in stored order and with their user: same kind, same game-loop delta, every field equal to the encoded value, including signed coordinates, optional and nested parts, and variable-length lists. Event kinds that are not surfaced are stepped over without disturbing the events around them. This holds for the layout of each supported protocol generation.",
  ["inputs", "histories"], "every sequence of game events of all kinds, surfaced or not, all field values in range, all optional parts present or absent, list lengths from zero to long, for both protocol layouts",
  "The only stream test decodes one recording and checks the first event; one wrong bit width or field order in a rarely used event corrupts every later event and no sampled replay contains all kinds.",
  [GE, "src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs", BP],
  [("bit-packed event decoding", "src/versions/protocol*/mod.rs: bit_packed"), ("wire to public event conversion", GE), ("stream reader", "src/versions/mod.rs: read_game_events")],
  ["the events returned by the game readers and iterators"])

p("D05", "Header, details, lobby data and chat decode to the values stored in the replay",
  "The replay header, match details, lobby initial data and chat messages read from an archive equal what was stored: every player, slot, colour, race, result, option, seed, cache handle, and message text, with optional parts present exactly when stored. It holds for both protocol generations and for every field order of the self-describing parts. Enumerated values come out as the documented names.",
  ["inputs"], "every well-formed header, details, init data and message stream: all enum values, optional parts present or absent, zero to sixteen players and slots",
  "The tests parse one recorded lobby and details per version; optional parts, rare options and enum values are not exercised.",
  ["src/details.rs", "src/init_data/mod.rs", "src/message_events.rs", "src/common.rs", "src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs", "src/protocol_version_decoder.rs"],
  [("details and header decoding", "src/versions/protocol87702/mod.rs: byte_aligned"), ("lobby decoding", "src/versions/protocol*/mod.rs: bit_packed"), ("conversion to public types", "src/details.rs, src/init_data/mod.rs, src/message_events.rs")],
  ["the header, details, init data and message values returned by the readers"])

p("D06", "Malformed replay data gives an error or fewer events, never a crash or runaway",
  "Whatever bytes the sections of a replay or the cached map files contain, every reader and event iterator terminates with a value or an error: it does not panic, overflow, loop forever, or allocate memory out of proportion to the input. This includes declared lengths, counts, choices and tags that are out of range or absurdly large.",
  ["inputs", "fault_sequences"], "all byte strings as header, details, init data, game, tracker and message sections, cache handle files and balance files: random, mutated and cut versions of valid data, and structurally valid data with extreme numbers",
  "Tests only feed well-formed recordings; hostile inputs are a space that no example list covers.",
  ["src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs", BP, VD, "src/lib.rs", "src/versions/mod.rs", "src/cache_handles/mod.rs"],
  [("checked conversions and nom errors instead of indexing", "src/versions/*, "+BP+", "+VD), ("error type", "src/error.rs: S2ProtocolError"), ("iterators stop on parse errors", "src/tracker_events/state.rs, src/game_events/state.rs")],
  ["return values, panics, time and peak allocation of each reader call"])

p("D07", "A cut or corrupted event stream still yields exactly its intact leading events",
  "When an event section ends in the middle of an event, iterating it yields every event that is completely stored before the cut, with the same content and loops as in the uncut replay, and then ends. When an event in the middle is not decodable, the events before it are still delivered unchanged and nothing after it is invented.",
  ["inputs", "fault_sequences"], "every stream of tracker or game events and every cut point (byte), and undecodable kinds injected at every event position",
  "Tests never read a truncated stream; each cut position is a separate case.",
  ["src/tracker_events/iterator.rs", "src/tracker_events/state.rs", "src/game_events/iterator.rs", "src/game_events/state.rs", "src/state/mod.rs"],
  [("iterators end on the first parse error", "src/tracker_events/state.rs, src/game_events/state.rs: transist_to_next_supported_event")],
  ["the sequence of items yielded by the event iterators"])

p("D08", "A replay is decoded with the protocol layout of its own version",
  "The layout used for every section of a replay is determined by the base build stored in its header: builds up to 75689 use the older layout and later builds the newer one, for game events, tracker events, messages, details and lobby data alike, and through every entry point (bulk readers and iterators). The version reported to the user is the one stored.",
  ["inputs", "configurations"], "every base build number, in particular around the boundary between supported generations, and every section and entry point",
  "The tests use recordings from a handful of builds; the choice is made separately in many places and a disagreement only shows for particular builds and sections.",
  ["src/versions/mod.rs", "src/game_events/state.rs", "src/tracker_events/state.rs", "src/protocol_version_decoder.rs"],
  [("version dispatch", "src/versions/mod.rs: read_*"), ("iterator dispatch", "src/game_events/state.rs, src/tracker_events/state.rs"), ("header version", "src/protocol_version_decoder.rs")],
  ["decoded content of replays whose layouts differ between the generations"])

p("D09", "A structure that does not match its declaration is refused, and the error names the mismatch",
  "Reading a structure, choice or event whose stored form does not match the declared one is an error, and that error names what is wrong: a field tag, choice or enumeration value that the structure does not declare (unknown tag, with the value), a required field that comes twice (duplicate tag, with that field's name and its own tag), a required field that never comes (missing field, with its name), and a number outside of its declared type, a value of another wire type, a negative count or an end within the value (some error). This holds for every structure that is read from the tagged format and at every depth of nesting. A damaged header is refused by every reader that depends on the version, and damage to one section does not change what the others decode to. Left open: an optional field that is stored as absent and then again, and the player handle's name, which may be left out and then reads as empty.",
  ["inputs", "fault_sequences"], "every field of every tagged structure in both layouts, with each of the mismatches applied at any depth, alone and inside whole archives",
  "Tests only read well-formed recordings; there are hundreds of fields, each with its own hand-kept tag in the error it raises.",
  ["src/versions/protocol87702/mod.rs", "src/versions/protocol75689/mod.rs", VD, "src/error.rs", "src/versions/mod.rs"],
  [("field loops", "src/versions/protocol87702/mod.rs: byte_aligned::*::parse"), ("error type", "src/error.rs: S2ProtocolError::{UnknownTag,DuplicateTag,MissingField}"), ("section readers", "src/versions/mod.rs: read_*")],
  ["the error or value returned by each parse and by each section reader"])

p("S01", "The merged event stream has every event once, in game-loop order",
  "Iterating a replay delivers every supported tracker event and every supported game event exactly once, each stream in its own stored order, with the absolute game loop equal to the sum of all deltas of its stream up to and including it (those of events that are not surfaced or not readable included), and says which of the two it is. The merged sequence never goes back in game loops once both are on the same scale, and ends only when both streams are exhausted.",
  ["inputs", "histories"], "every pair of tracker and game streams: empty streams, bursts on one side, equal loops, unsupported events in between, very large loops",
  "Tests count events of recordings; order and completeness for adversarial interleavings of the two streams (one exhausted first, ties, skipped events carrying time) are not sampled.",
  ["src/state/mod.rs", "src/tracker_events/state.rs", "src/game_events/state.rs", "src/tracker_events/iterator.rs", "src/game_events/iterator.rs"],
  [("two-way merge with one pending event per stream", "src/state/mod.rs: SC2EventIterator"), ("delta accumulation", "src/tracker_events/state.rs, src/game_events/state.rs")],
  ["the items of the merged iterator compared with the two single-stream iterators and the generated streams"],
  [("next_tracker_event / next_game_event", "pending event of each stream", "src/state/mod.rs")])

p("S02", "Iteration is deterministic and can be suspended, saved, restored and cloned",
  "At any point of an iteration the iterator can be cloned, or saved as JSON and restored, and the copy continues with exactly the events, hints and unit and player state that the original would have given. Two iterations of the same replay with the same filters give identical results, also when run at the same time in different threads.",
  ["histories", "crash_points", "schedules"], "every replay, filter setting and suspension point (before the first, after any, and after the last event), and concurrent iterations",
  "No test serializes an iterator; the suspension point is a quantifier over every step of every replay.",
  ["src/state/mod.rs", "src/tracker_events/state.rs", "src/game_events/state.rs", "src/filters.rs"],
  [("all iteration state is owned data with serde derives", "src/state/mod.rs, src/tracker_events/state.rs, src/game_events/state.rs")],
  ["remaining items and final state of original and copy"])

p("S03", "Filters select exactly the matching events and do not change anything else",
  "With filters set, iteration delivers exactly those events of the unfiltered iteration that match all of them (player, unit name, inclusive loop range, statistics on or off), in the same order and with the same content and hints, and stops after the requested number of matching events. The unit and player state seen at each delivered event is the same as without filters.",
  ["inputs", "configurations", "histories"], "every replay and every combination of filter settings, loop bounds on, before and after event loops, and limits from zero to more than there are",
  "No test sets any filter; combinations of eight settings with event mixes are a product space.",
  ["src/filters.rs", "src/state/mod.rs", "src/tracker_events/mod.rs", GE],
  [("filter predicate per stream", TE+", "+GE+": should_skip_event"), ("counting and loop bounds", "src/state/mod.rs: SC2EventIterator::next, src/filters.rs")],
  ["items delivered with filters versus the unfiltered items"])

p("S04", "The unit registry mirrors the births, changes and deaths so far",
  "After every event the known units are exactly those that were initialised, born or first seen changing type and have not died, each under its tag index with the name, initial owner, position, construction flag, radius and last loop that its events so far imply. The hint that comes with the event names the affected unit, its creator, or its killer and killed with the state they have at that moment. A dead unit is gone from the registry and from every selection and control group, and a new unit that reuses its index starts afresh.",
  ["histories"], "every history of unit events: reused indexes, events about unknown units, repeated births, type changes of selected units, deaths of creators and killers",
  "Tests never look at the unit state; its correctness depends on event order and index reuse that a couple of recordings do not exercise.",
  ["src/state/mod.rs", "src/state/unit_props.rs", "src/tracker_events/state.rs"],
  [("tracker event handlers", "src/tracker_events/state.rs: handle_*"), ("unit removal", "src/state/mod.rs, src/tracker_events/state.rs: handle_unit_died")],
  ["public state and change hint after every event"],
  [("units", "living units by tag index", "src/state/mod.rs: SC2ReplayState")])

p("S05", "Selections and control groups follow the commands of each player",
  "After every event, the selection and the control groups 0 to 9 of each player hold exactly what that player's selection and control group events imply: a selection event replaces the selection by the units it adds, and set, append, steal, clear and recall act on that player's groups alone, leaving no duplicates after appends. Units known when they are selected are marked selected exactly while they are in an active selection, with the drawing radius doubled only during that time, and the selection hint names units whose mark changed. Group numbers that do not exist change nothing.",
  ["histories"], "every history of selection changes, control group updates of every kind and index, and unit deaths, for several players with disjoint selections",
  "No test drives a selection history; stealing, recall after death and clearing an empty group need particular multi-step sequences.",
  ["src/game_events/state.rs", "src/state/mod.rs", "src/state/unit_props.rs"],
  [("selection handling", "src/game_events/state.rs: handle_selection_delta"), ("control group handling", "src/game_events/state.rs: handle_control_group_update")],
  ["public user state, unit selection flags and hints after every event"],
  [("control_groups", "per player: ten groups and the active selection", "src/state/mod.rs: SC2UserState")])

p("S06", "Commands are attributed to the selected units, with their target and ability",
  "A command event is attributed to every known unit in the issuing player's selection and to no other: each of them carries the command, the ability name that the balance data of the replay's own version gives for that unit, ability and command index, and the name of the targeted unit if that unit is known. Later target updates change the target of exactly the units of that player's selection. Camera events update only the issuing player's camera.",
  ["histories", "configurations"], "every history of selections, commands with and without ability, with no, point or unit target, and target updates, over every balance data set (abilities, trained units, buildings, researches, missing entries)",
  "No test applies a command to a selection; the outcome depends on the selection history, the balance data version and the target's life.",
  ["src/game_events/state.rs", "src/state/unit_cmd.rs", "src/game_events/ability/mod.rs", "src/state/mod.rs"],
  [("command handling", "src/game_events/state.rs: handle_cmd"), ("ability lookup", "src/game_events/ability: get_indexed_ability_command_name"), ("target updates", "src/game_events/state.rs: handle_update_target_*")],
  ["events, hints and unit commands in the public state"])

p("S07", "Position updates move exactly the listed units, and unit tags pack losslessly",
  "A positions event assigns its coordinates to the units obtained by adding up the index deltas from the first index, moves exactly those that are known, and leaves all others where they are. A unit tag and its pair of index and recycle count convert into each other without loss over their whole range, the same way for both kinds of event.",
  ["inputs", "histories"], "every positions event (any deltas, lists of any length including incomplete triples), every unit registry, and every index and recycle value",
  "Tests do not decode positions; overflow, repeated and negative deltas and index/recycle extremes are not sampled.",
  ["src/tracker_events/unit_positions.rs", "src/tracker_events/mod.rs", "src/tracker_events/state.rs"],
  [("delta decoding", "src/tracker_events/unit_positions.rs: to_unit_positions_vec"), ("tag packing", "src/tracker_events/mod.rs: unit_tag, unit_tag_index, unit_tag_recycle")],
  ["registry positions and hints after each positions event; results of the tag functions"])

p("S08", "Events and units carry the name of the player they belong to",
  "Every game event is labelled with the name of the player whose lobby user id issued it and every unit with the name of the player that the tracker's player setup ties to its controlling player; when there is no such player the name is empty. Each player known to the iteration is the one whose lobby slot and details entry share the same working-set slot.",
  ["inputs", "histories"], "every lobby layout: permuted slots, observers, computer players, missing users, and every order of player setup events and unit births",
  "Recordings have the usual identity layout in which a lookup by the wrong id gives the right name.",
  ["src/state/mod.rs", "src/game_events/state.rs", "src/tracker_events/state.rs", "src/details.rs"],
  [("lobby join", "src/details.rs: PlayerLobbyDetails"), ("name lookup", "src/state/mod.rs: get_player_name_*"), ("player setup", "src/tracker_events/state.rs")],
  ["player names on delivered events, units and user state"])

p("R01", "Damaged or foreign replay files are reported as errors and do not stop a batch",
  "Opening any file as a replay (missing, empty, a directory, random bytes, an archive without replay header, a wrong signature, missing or undecodable sections) gives an error and never a crash. In batch operations such a file never prevents the other files from being processed and contributes nothing to their results.",
  ["inputs", "fault_sequences"], "every kind of file damage applied to each section of a replay and to the archive container, alone and mixed with healthy replays in a directory",
  "Tests only open healthy recordings.",
  ["src/lib.rs", "src/protocol_version_decoder.rs", "src/init_data/mod.rs", "src/arrow_store/mod.rs", "src/dir_stats.rs"],
  [("error propagation", "src/error.rs, src/lib.rs: read_mpq, read_protocol_header"), ("batch filtering", "src/arrow_store/mod.rs, src/dir_stats.rs")],
  ["return values of the file level readers and the output of batch operations"])

p("R02", "Replay identity and match metadata are those of the file itself",
  "The lobby data and details read from a file carry that file's name, the SHA-256 of its content, the match date and time converted from the stored timestamp, and the version stored in its header. Joining details and lobby gives one entry per player that has a slot, each combining the details entry, slot and user that belong together, and every derived row repeats those values unchanged.",
  ["inputs"], "every lobby and details content (permuted and missing slots, observers, absent users, malformed cache handles), file names and timestamps",
  "The tests check the join on recordings in which slot, user and player indexes coincide.",
  ["src/details.rs", "src/init_data/mod.rs", "src/init_data/arrow_store.rs", "src/common.rs", "src/lib.rs"],
  [("content hash", "src/init_data/mod.rs, src/details.rs"), ("lobby join", "src/details.rs: PlayerLobbyDetails"), ("time conversion", "src/lib.rs: transform_to_naivetime")],
  ["public InitData, Details, lobby details and their flat rows"])

p("E01", "Exported rows contain exactly the events they stand for, with all their values",
  "Each kind of export (stats, upgrades, births with completions and transformations, deaths, commands with a point or unit target) yields one row per matching event, or per commanded unit for commands, in order and no others, with every column equal to the event's or unit's value at that moment: loops, seconds, player, tag parts, names, positions, killers, creators, abilities and targets.",
  ["inputs", "histories"], "every replay: all event mixes, with units present or unknown, and every export kind",
  "No test checks any exported row; a swapped or stale column is invisible without a reference.",
  ["src/tracker_events/arrow_store", "src/game_events/arrow_store", "src/state/mod.rs", "src/lib.rs"],
  [("row builders", "src/tracker_events/arrow_store, src/game_events/arrow_store"), ("collectors", "src/state/mod.rs: collect_into_*")],
  ["rows returned by the collectors against rows computed from the event stream"])

p("E02", "Arrow exports hold the rows of exactly the files asked, serially or in parallel",
  "An exported Arrow file holds exactly the rows of every matching replay found within the file count, depth and version bounds (both bounds inclusive), each replay's rows contiguous and in order and labelled with that replay's own id, with the declared schema (details rows whose date the timestamp column cannot hold are left out). Processing in parallel and serially gives the same set of per-replay rows for every kind of export, and the snapshot command writes for every table the same rows as the individual exports. Exporting nothing or to an impossible place is an error, not a crash.",
  ["inputs", "configurations", "schedules"], "every directory of replays (healthy, damaged, different versions), all export kinds, limits and version ranges, and all parallel schedules",
  "No test writes an Arrow file; parallel runs and version or count boundaries are not sampled.",
  ["src/arrow_store/mod.rs", "src/arrow_store/ipc_writer.rs", "src/lib.rs"],
  [("per-type serial and parallel handlers", "src/arrow_store/mod.rs"), ("ipc writer", "src/arrow_store/ipc_writer.rs")],
  ["the Arrow files on disk read back with the Arrow reader"])

p("E03", "Replay discovery returns exactly the replay files within bounds, once each",
  "Scanning a directory returns only regular files with the replay extension, each at most once, no deeper than the requested depth and no more than the requested number, and all of them when their number is below the limit. A single replay file given as source is returned itself; other paths give nothing, and neither unreadable nor odd entries make it fail.",
  ["inputs", "configurations"], "every directory tree (nesting, empty dirs, look-alike names, directories named like replays, symlinks, odd names), depth and count limit",
  "No test scans a directory.",
  ["src/lib.rs"], [("recursive scan", "src/lib.rs: get_matching_files")],
  ["the list of returned paths against a reference walk"])

p("E04", "Directory statistics count every file and player, serially and in parallel",
  "The directory summary reports the number of replay files, of those that can be read, and of those whose abilities are known, and the ten most frequent players and maps with their exact counts, most frequent first. The parallel and serial runs and repeated runs over the same directory give the same summary.",
  ["inputs", "configurations", "schedules"], "every set of replays (readable, damaged, unsupported, with and without known balance data, many players and maps with equal counts) and all parallel schedules",
  "No test runs the directory statistics.",
  ["src/dir_stats.rs"], [("scan", "src/dir_stats.rs: scan_path"), ("aggregation", "src/dir_stats.rs: from_directory")],
  ["the statistics value against counts computed from the generated files"])

p("E05", "Decoded data survives being written as JSON and read back",
  "Every decoded value that users store as JSON (lobby data, details, events, units, iteration items, flat rows, balance units, filters) reads back as an equal value from its JSON form, for all field values including optional parts, extreme numbers and any text.",
  ["inputs"], "all decoded values produced from any replay, including extreme integers, empty lists and unusual text",
  "No test reads JSON back.",
  ["src/state/mod.rs", "src/game_events/mod.rs", "src/tracker_events/mod.rs", "src/details.rs", "src/init_data/mod.rs", "src/filters.rs"],
  [("serde derives and attributes", "all public data types")],
  ["value, its JSON, and the value read back"])

p("B01", "Balance data is embedded completely and kept apart by game version",
  "The balance data built into the library equals the balance files it was built from: every version and unit, each unit filed under its own version and id with that file's abilities, commands and properties. Writing it as JSON and reading it back from a directory gives the same data, and an iteration only ever uses the entries of its replay's own version.",
  ["configurations", "inputs"], "every shipped version and unit, every written JSON directory, and every replay version including ones without balance data",
  "No test looks at the balance data as a whole or at mixing of versions.",
  ["src/game_events/ability/mod.rs", "src/game_events/mod.rs", "src/state/mod.rs"],
  [("embedded assets", "src/game_events/ability: read_balance_data_from_included_assets"), ("JSON round trip", "src/game_events/ability: write_balance_data_to_json, read_balance_data_from_json_dir"), ("version filter", "src/state/mod.rs: SC2EventIterator::new")],
  ["the balance map, the JSON directory and ability names resolved in an iteration"])

p("B02", "Balance XML files are read completely, and bad ones do not hide the others",
  "Reading a directory of game balance files gives one entry per unit and version with the abilities, command indexes, trained units, buildings, researches and properties stated in its file, whichever optional parts are present. A file that is not a valid unit description is reported or skipped without losing any other unit.",
  ["inputs", "configurations"], "every set of version directories and unit files with optional parts present or absent, repeated and unknown elements, unrelated and malformed files",
  "No test parses generated balance files.",
  ["src/game_events/ability"], [("XML model", "src/game_events/ability/*.rs"), ("directory traversal", "src/game_events/ability: traverse_versioned_balance_abilities")],
  ["the resulting unit map against the generated description"])

p("C01", "Cached map files decode to the dimensions, heights and texts they store",
  "The map information, height map and document header of a map decode to what is stored in them: sizes and playable bounds, one height per grid point in the stored order, and all localised texts, and the input left over is exactly what follows. Inputs that are cut short, carry a wrong signature or have inconsistent bounds are errors.",
  ["inputs"], "every map size and bounds, height value, number and kind of texts, file version, wrong signature and truncation point",
  "Each format has one unit test with one recorded sample.",
  ["src/cache_handles/document_header.rs", "src/cache_handles/map_info.rs", "src/cache_handles/t3_height_map.rs", "src/cache_handles/map"],
  [("parsers", "src/cache_handles/*.rs")],
  ["parsed values and remaining input"])

p("C02", "Map positions convert between the coordinate frames without moving",
  "The map, terrain, cell and playable frames of a map describe the same places. A terrain point is at its own integers on the map, a cell has its middle at its integers and a half, and both come back from the map frame as they were; any position within the map falls into the cell that contains it and is nearest to the terrain point that it rounds to (halves up). The playable frame starts at the left bottom of the playable area and ends at the size that the map information gives for it, and cells are bordered by one terrain point more than there are cells in each direction.",
  ["inputs", "configurations"], "every map size and playable area, every terrain point and cell, and positions with the fractions that replays store (4096ths)",
  "No test converts a coordinate.",
  ["src/cache_handles/map/coords.rs", "src/cache_handles/map_info.rs"],
  [("conversions", "src/cache_handles/map/coords.rs: From impls, PlayableTerrainCoord::from_map_terrain"), ("frame sizes", "src/cache_handles/map_info.rs: cell_dim_*, terrain_dim_*, terrain_left_bottom, cell_right_top")],
  ["the converted coordinates"])

p("L01", "Build configuration and logging never change a result",
  "The library builds with its default features, without any, and with tracing off, and what it decodes, which errors it returns, which events, hints and unit and player states an iteration gives, and what the directory statistics and balance tables hold are the same in each of these builds, and with logging on or off.",
  ["configurations", "inputs"], "every feature configuration that does not need the removed parts, log subscriber on and off, for every kind of input: healthy and damaged streams, sections, replays, map files and the embedded balance tables",
  "Tests run in one configuration with one logging setup; a statement that lives under a feature gate or inside a log macro is invisible to them.",
  ["Cargo.toml", "src/lib.rs", "src/state/mod.rs", "src/tracker_events/state.rs", "src/game_events/state.rs", "src/details.rs", "src/init_data/mod.rs"],
  [("feature gates", "Cargo.toml: [features]; cfg(feature = ...) throughout src"), ("trace statements", "tracing:: and peek_bits calls throughout src")],
  ["the complete printed result of every item, from three builds and twice in one of them"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P))
