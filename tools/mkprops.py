#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

F = "F15_Parser/F15Parse.py"; S = "F15_Parser/F15TokenSyntaxDescriptions.py"
R = "F15_Parser/ExtractedRouteRecord.py"; Q = "F15_Parser/ExtractedRouteSequence.py"
E = "F15_Parser/ErrorMessageDefinitions.py"; T = "Tokenizer/Tokenize.py"
TS = "Tokenizer/Tokens.py"; TK = "Tokenizer/Token.py"; U = "Utilities/Utils.py"; K = "Utilities/Constants.py"

p("C01", "Parsing any text terminates without an exception",
  "For every text given as field 15, however malformed, tokenizing and parsing return normally without raising, and the work done grows at most in proportion to the number of elements. The parser therefore never hangs on, and never dies on, a bad flight plan.",
  ["inputs"], "all finite Unicode strings used as field 15, including empty, garbage, very long elements and fields of many elements",
  "Tests parse ~150 hand-picked, mostly plausible strings; none uses garbage characters, random element sequences or long fields.",
  [F, T, TS, S], ["parse_f15 dispatches every token type; re_sync_parser_after_error always advances the cursor", "get_token_at returns None past the end"],
  [{"name": "token cursor", "meaning": "strictly advances, so parsing ends", "where": TS}])

p("C02", "Result is framed by ADEP and ADES; verdict is true iff no errors",
  "After parsing any field the extracted sequence begins with exactly one departure aerodrome placeholder and ends with exactly one destination aerodrome placeholder, both aerodrome points at position 0-0, with the destination carrying the flight rules of the record just before it. The parser's boolean verdict is true exactly when the error list of the result is empty, also when the result object was used before, and an empty or all-whitespace field, and no other, is reported as empty and yields just that frame plus that single error.",
  ["inputs"], "all field 15 strings", "Tests compare short record lists for chosen strings; the ADES rules and the verdict/error-list equivalence are not asserted for malformed or arbitrary fields.",
  [F, Q], ["constructor adds ADEP, parse_f15 always adds ADES", "return value computed from number of errors"])

p("C03", "Tokenizing is lossless and exact for any text and whitespace set",
  "Every character of the input is either one of the configured whitespace characters or belongs to exactly one token; each token is a maximal run of non-whitespace characters (or a single '/' when '/' is in the configured set), tokens appear in source order, and each token's start and end index slice its own text out of the input. Tokenizing the same text again gives an equal list, and a token list obtained earlier is not altered by later use of the tokenizer.",
  ["inputs", "configurations", "histories"], "all input strings, all whitespace sets, any sequence of tokenizer calls",
  "Tests tokenize five strings with two whitespace sets; they never vary the set, use non-ASCII text or re-use an instance after holding its tokens.",
  [T, TS, TK], ["Tokenize.tokenize scanning loop and __save_token index arithmetic", "a fresh Tokens list per tokenize call"])

p("C04", "Every element text is classified exactly by the field 15 syntax",
  "Each token of a parsed field carries the base type and subtype prescribed by the documented syntax for its whole text: fixed keywords, points, coordinates, bearing/distance points, ATS/NAT/PTS routes, SID/STAR designators, STAY and its time, and all speed/level, speed/VFR, cruise climb level pair and PLUS forms for every unit combination. Text matching no form is unknown, text longer than 25 characters is classified too long whatever its form, and classification depends on the text alone.",
  ["inputs"], "all element texts up to and beyond 25 characters, every unit combination and every digit value",
  "Tests check about 80 sample strings, and miss whole unit combinations (two were unreachable and one mis-typed when this was written).",
  [S, F], ["F15_SB_CONFIGURATION table and get_token_type first-match lookup", "assign_syntax_descriptions applies the length limit"])

p("C05", "Records and errors point at the exact source text they are about",
  "Every extracted record other than the two aerodrome placeholders, and every error record of a non-empty field, carries a start and end index that slice out of the original field exactly the element it represents, and its type is the one that element has (a speed/VFR element is named VFR but keeps its own indices). Every error message is one of the defined messages with its placeholder replaced by that same element.",
  ["inputs"], "all field 15 strings", "Tests compare names and messages for chosen strings and never check indices of records or errors against the source.",
  [F, Q, R, E], ["add_record and add_error copy text, indices and types from the token", "placeholder replacement in add_error"])

p("C06", "Records keep source order and no element is extracted twice",
  "In every parse result the extracted records are in strictly increasing source position, so no element yields two records and none is moved, and the reported errors are in non-decreasing source position. This holds for malformed fields as well as valid ones.",
  ["inputs"], "all field 15 strings, valid or not", "Only visible on inputs whose error handling re-enters the grammar at a particular place; tests list ~100 such cases out of an unbounded set.",
  [F, Q], ["single forward-only token cursor; append-only record and error lists"])

p("C07", "No element of the field is silently lost",
  "Every element of a non-empty field is accounted for: it appears as a record, in the break text of the enclosing break section, as a speed, level, cruise climb target or stay time on a record, or as the subject of an error report; otherwise it is pure punctuation of the grammar ('/', STAYn, T, or the C of a cruise climb) or, next to a reported error, a C directly before the offending element or a break-end keyword met while resuming. In a field reported as error-free every element other than that punctuation is present in the output, unless a speed/level is superseded by another one given for the same point.",
  ["inputs"], "all field 15 strings", "Silent loss needs specific multi-element sequences (for example a break-end keyword met during recovery); the tests enumerate none of them systematically.",
  [F], ["each grammar handler stores or reports the token it consumes", "recovery resumes with the following token"])

p("C08", "Fields are accepted exactly when grammatical, else the right error is named",
  "A field is reported error-free if and only if it follows the documented field 15 grammar and semantics (element order, permitted successors of every element kind, break pairing, position of SID and STAR, value ranges). When it is not, the first error names the first element at which the field stops being grammatical, with the message defined for that situation.",
  ["inputs"], "all sequences of field 15 elements", "The grammar has some 20 element kinds and a dozen states; tests cover chosen transitions with one sample each.",
  [F, E, S], ["per-state match statements (post_adep, post_point, route, dct, post_sid, stay, forward_slash, truncate, cruise climb)"])

p("C09", "After an error parsing resumes and extracts the rest of the field",
  "An error never stops extraction: analysis resumes at the element following the offending one (at the offending element itself where only its value or its position next to a route is wrong) and applies the same grammar again, so every further error is reported at its own element with its defined message and every later element in an admissible position is extracted as it would be in a valid field.",
  ["inputs"], "all erroneous field 15 strings with one or more errors at any positions", "Combinations of several errors are unbounded; tests mostly contain one error near the end of the field.",
  [F], ["add_error_and_re_sync / re_sync_parser_after_error dispatch"])

p("C10", "Speed and level apply at their point and carry forward until changed",
  "A speed/level given after a point (or first in the field, at departure) is the speed and level of that point, in both its textual and converted form, and every following record up to the destination (which carries none) shows the same speed and level until the next change; records before it are unaffected. A speed with VFR applies its speed and the default level to both the point and the VFR record.",
  ["inputs"], "all fields with any placement and number of speed/level changes", "Tests assert speed and level text on a few short routes and rarely more than one change.",
  [F, R], ["carry_speed_altitude_rules_forward on each append", "assign_speed_altitude writes the last record"])

p("C11", "Speeds and levels are converted to SI correctly for every value and unit",
  "For every speed (knots, km/h, Mach) and level (flight level, altitude in hundreds of feet, metric level and altitude) the SI value equals the physical conversion rounded to the nearest integer unit within the precision of the documented factors, with Mach evaluated from the speed of sound at the level given. Conversion is monotone in the written value, and a flight level not ending in 0 or 5 is reported as an error while its value is still converted.",
  ["inputs"], "all digit values of all speed units and level units and all their combinations", "Tests check four or five sample values; the value space has tens of thousands of values per unit pair.",
  [F, U, K], ["assign_altitude, assign_speed, mach_to_ms_speed and the conversion constants"])

p("C12", "Cruise climb values land on the climb point for every unit combination",
  "For a well-formed cruise climb the record of the climb point carries the speed, the lower level and the upper level (text and SI) exactly as written, for all three speed units and all level unit pairs, and for PLUS the marker PLUS without an SI upper level; the upper level never leaks to other records, and the C marker is not extracted as a point. Anything that is not a point in the climb point position, or is not a level pair or PLUS form in the level position, is reported.",
  ["inputs"], "all 3x(16+4) unit combinations, all digit values, climbs at every point of a route", "Tests sample a handful of unit combinations and do not check the upper level of the others.",
  [F, S, R], ["cruise_climb_c, cruise_climb_point, assign_speed_altitude_altitude, assign_speed_altitude_plus slicing"])

p("C13", "Break sections open, collect and close exactly as written",
  "From a VFR, OAT or IFPSTOP element (or speed/VFR) on, every element up to and including the terminating one is stored, in order and separated by single blanks, as break text of that one record, and nothing inside is interpreted; the section ends only at its own counterpart (IFR, GAT, IFPSTART) followed by a point, which for IFR must be followed by '/' and a speed/level or speed/VFR (nothing, or something else, after IFR and its point or after that '/' is reported as an incomplete rule change). Only records that open a break section have break text.",
  ["inputs"], "all fields with any number and nesting of break keywords and any text inside them", "The terminator is decided by look-ahead over up to three elements; tests cover a few endings only.",
  [F, R], ["break_start, break_text_save, break_end look-ahead, v_to_i and v_to_i_to_v rule changes"])

p("C14", "Flight rules per record and derived rules I, V, Y or Z are consistent",
  "In every field that starts with a speed/level or speed/VFR, each record's flight rules are IFR for points and routes, and VFR, OAT or IFPS on the record that opens such a break section, other connectors inherit from the preceding record, and departure takes the rules of the first element. The derived flight rules are V or Z when departure is VFR (Z exactly when some record is IFR), otherwise I or Y (Y exactly when some record is VFR).",
  ["inputs"], "all field 15 strings", "Depends on the whole record history; tests check the derived value on about a dozen routes.",
  [F, Q], ["derived-rule scan at the end of parse_f15", "set_flight_rules in point, route, break_start, assign_speed_*"])

p("C16", "Latitude/longitude points are decoded and range-checked exactly",
  "For every coordinate point, in degrees or degrees and minutes, wherever it is extracted (ordinary point, cruise climb point, point ending a break section), the record is flagged as having a position and holds the signed decimal value of the text: north and east positive, south and west negative. An error for the latitude, the longitude or the bearing is reported exactly when that component exceeds 90, 180 or 360 degrees or has minutes over 59, and points given by name never carry a position.",
  ["inputs"], "all 2x(degrees x minutes x hemispheres) texts in all syntactic positions", "Tests check a few dozen values at ordinary points only.",
  [F, U, R], ["assign_latitude/assign_longitude, assign_ll_deg(_min), is_degree_semantics, is_degree_minute_semantics"])

p("C17", "A coordinate/bearing/distance point is projected to the right position",
  "For every point written as a coordinate followed by bearing and distance, the stored position is the point reached on the WGS84 ellipsoid from that coordinate along that true bearing over that many nautical miles, to within metres and within the coordinate range (latitude -90 to 90, longitude -180 to 180), for both the degree and the degree-minute form.",
  ["inputs"], "all coordinates, bearings 000-360 and distances 000-999, including poles and the date line", "Tests use a few bearings near the equator.",
  [F, U, K], ["resolve_real_bd_point and get_bearing_distance_projected_point", "nautical mile constant"])

p("C18", "Track and distance are set between neighbouring known positions only",
  "Whenever two points with known positions follow each other directly or with a single connector (a record that is not a point) between them, the first one holds the initial true azimuth and the distance in metres of the WGS84 geodesic to the second one's final position. All other records have neither, so no leg is ever computed across a point whose position is unknown.",
  ["inputs"], "all fields mixing coordinate points, named points, connectors, cruise climbs and break sections", "Tests print such routes but compare few numbers and only for adjacent points.",
  [F, U], ["assign_azimuth_distance_between_points back-looking rule", "get_bearing_distance_between_points"])

p("C19", "STAY times are recorded in minutes on the point they follow",
  "A STAY of HHMM after a point records HH*60+MM minutes on that point's record and on no other, for every time from 0000 to 2359, and afterwards the route continues as after a point: in particular an ATS route still cannot follow a coordinate point. Any deviation from STAYn/HHMM is reported, and no stay time is recorded for it.",
  ["inputs"], "all 1440 times, all STAY digits, all following element kinds", "Tests use a few times and following elements.",
  [F, R], ["stay, stay_time, set_stay_time"])

p("C20", "SID and STAR are recognised only first and last and typed by position",
  "A designator that may be a SID or a STAR is recorded as a SID when it is the first record after departure and otherwise as a STAR when it is the last element of the field; a SID anywhere else, or a STAR followed by anything, is reported. The literal words SID and STAR keep their literal types.",
  ["inputs"], "all SID/STAR designator texts and keywords at every position of any route", "Tests use a few designators and positions.",
  [F, S], ["sid, star, sid_star, post_sid"])

p("C21", "XML output is well formed and carries every record and error faithfully",
  "For every field of characters legal in XML, the XML form of the result is well-formed and, read back by any XML parser, contains the derived flight rules, one entry per record and one per error in order, with every attribute and text equal to the corresponding value in the result (decimal values to two places). This includes texts with markup characters.",
  ["inputs"], "all field 15 strings over XML-legal characters", "Tests compare two literal XML documents without special characters.",
  [Q, R], ["as_xml of sequence and record, escaping"])

p("C22", "Printed output shows every record and error; the shipped example runs",
  "The printed form of any result states the true number of records and errors and lists, in order, one line per record and per error with the values of all columns (name, indices, types, speed, level, azimuth, distance, rules, stay, cruise climb target, position) and its break or error text; printing or exporting never raises and never changes the result. The example program shipped with the package runs to completion and prints the result of its field.",
  ["inputs"], "all parse results", "No test calls the print functions with an oracle or runs the example (which did not start when this was written).",
  [Q, R, "main.py", TS, TK], ["print_ers, to_string, print_tokens", "main.py"])

p("C23", "Concurrent parses do not influence one another",
  "Parsing in several threads at once, each with its own tokenizer, token list and result, even when sharing one parser object, gives every thread exactly the result it gets when run alone, for every interleaving of the threads.",
  ["schedules", "inputs"], "all interleavings of two or more parses, of all fields", "The test suite is single threaded.",
  [F, T, TS, Q, R, S], ["no mutable class-level or module-level state is written; all state hangs off per-parse instances"],
  [{"name": "class attributes", "meaning": "shadowed per instance, never mutated", "where": Q}])

p("C24", "Parsing is repeatable and independent of what was parsed before",
  "The result for a field depends on that field alone: parsing it again, with the same or a new parser, tokenizer or token list, in another order, after any other fields including failing ones, or in a fresh process, gives an equal result. Results obtained earlier, the input text and the order, texts and positions of the token list are not altered by later parses.",
  ["histories", "inputs"], "all histories of parses on shared or fresh objects", "Each test parses each string once with fresh objects.",
  [F, T, TS, Q, R], ["fresh lists in constructors; parse_f15 restarts the cursor at the first token"])

p("C25", "The token list behaves as a list with a cursor under any call history",
  "Under any sequence of append, insert, truncate, first/last/next/previous and peek calls the token list behaves as a sequence with one integer cursor: navigation returns the token at the moved cursor or nothing when it is outside the list, peeking and reading never move the cursor or change the list, and edits change exactly the addressed position. Each token returns exactly the text, indices and types last set on it.",
  ["histories"], "all finite sequences of token-list operations", "Tests append three tokens and walk them once.",
  [TS, TK], ["get_token_at bounds check; cursor arithmetic"])

p("C26", "Result containers behave as append-only lists with total accessors",
  "Under any sequence of appends and error additions a result container reports exactly the records and errors added, in order, its first, last, last-but-one and by-index accessors return the matching record or nothing when the index is outside, and a new container is independent of every other. Every field of a record reads back exactly what was last set, with stay times converted from HHMM to minutes and break text joined with single blanks.",
  ["histories"], "all finite sequences of container and record operations, all indices", "Tests use the accessors only in range on parser-built results.",
  [Q, R], ["get_element_at bounds check; per-instance lists; record setters/getters"])

p("C27", "Layout of whitespace does not affect the extracted route",
  "Replacing any run of blanks, tabs, carriage returns and newlines in a field by any other non-empty run, adding such runs at the start, at the end or around '/', changes nothing in the result (records, values, break texts, errors and messages, derived rules, verdict) except the source indices, which shift by exactly the change in layout.",
  ["inputs"], "all pairs of fields differing only in layout", "Tests use single blanks almost exclusively.",
  [T, F], ["whitespace handling in tokenize; parser works on tokens only"])

p("C28", "Angle checks, Mach conversion and geodesic helpers are exact over their range",
  "The degree check accepts exactly values up to the given maximum and the degree/minute check exactly values up to the maximum with minutes 0-59, for every digit string. The speed of sound falls with height to 11000 m and is constant above, Mach speeds are proportional to the Mach number, and projecting a position along a bearing and distance and measuring back returns that bearing and distance.",
  ["inputs"], "all digit strings of the field widths, all heights, all positions, bearings and distances in range", "Tests check around twenty sample values.",
  [U, K], ["is_degree_semantics, is_degree_minute_semantics, speed_of_sound_at_altitude, mach_to_ms_speed, geodesic wrappers"])

p("C29", "In error-free results points, connectors and truncation obey route structure",
  "In every error-free result of a non-empty field, each ATS route record is preceded by departure's SID or a point given by name and followed by a point given by name, the truncation end or the destination; each DCT is followed by a point or the end; no two connectors are adjacent except a SID and what may follow it; a STAR is the last record before the destination; break openings follow a point; and the truncation mark, when used, is the last element and is not extracted.",
  ["inputs"], "all error-free fields", "Tests compare chosen outputs; the structural invariant over all accepted fields is never stated.",
  [F], ["per-state successor dispatch"])

p("C15", "Later elements do not reach back",
  "What has been extracted and reported up to some place of a field does not depend on what follows several elements later: cutting the field off after any element leaves every error and every record about elements more than a few before the cut (four) unchanged, in order, and complete. Only the values of the last two of these records (speed, level, flight rules, break text, stay time, climb target, track and distance) may still change, as modifiers, break sections and legs are completed.",
  ["inputs"], "all fields and all places to cut them", "Tests look at whole fields only; the relation between a field and its beginnings is never stated.",
  [F], ["bounded look-ahead of all grammar methods; re_sync_parser_after_error"])

p("C30", "Only the kind of an element decides what happens to it",
  "Two fields whose elements agree one by one in kind (type and subtype) and in whether their values are in range give the same verdict, the same derived flight rules, and records and errors about the same element numbers with the same types, flight rules and messages. No particular name, number or spelling is treated differently from others of its kind, and it does not matter whether texts repeat within a field.",
  ["inputs"], "all pairs of fields with the same kinds of elements", "Tests use a few dozen names and values.",
  [F, S], ["dispatch by base type and subtype only"])

p("C31", "The helper methods for a second pass assign positions and legs correctly",
  "After parsing, the documented methods for assigning coordinates and calculating azimuth and distance work on any record: an assigned latitude or longitude text is stored as its signed decimal value, a bearing and distance resolve to the geodesic projection, and setting azimuth and distance between two positions stores the geodesic between them on the first. Nothing else in the result changes.",
  ["inputs", "histories"], "all parsed routes, coordinate texts, bearings and distances", "Tests never call these methods after parsing.",
  [F, U], ["assign_latitude, assign_longitude, set_azimuth_and_distance, resolve_real_bd_point"])

p("C32", "Every value in a result stays in its documented domain",
  "For every field, each record and error has a documented type and a subtype of that type, indices within the field, a speed and level that are empty or well formed with finite non-negative whole SI values that are zero where there is no text, flight rules that are empty or one of IFR, VFR, OAT, IFPS, a stay time of 0 to 1439 minutes, a climb target that is empty, PLUS or a level, and coordinates, azimuth and distance in range, present only where a position is known. Error entries carry a message and no route values; records carry no message; the derived rules are one of I, V, Y, Z.",
  ["inputs"], "all field 15 strings", "Tests compare particular values of particular fields.",
  [R, Q, F], ["record setters; assign_altitude, assign_speed, assign_speed_altitude_plus"])

p("C33", "Parsing has no effect besides its result",
  "Tokenizing, parsing, reading and exporting any field write nothing to standard output or error, open no file or connection, start no thread or process, do not sleep or prompt, and leave process-wide settings (recursion limit, environment, working directory, locale, warning filters, signal handlers, random state, module path, built-ins, ...) as they were. This holds for accepted and rejected fields alike.",
  ["inputs"], "all field 15 strings", "Tests look at results only; output and settings are never observed.",
  [F, T, TS, Q, R, S, U], ["no module performs I/O outside print_* methods"])

p("C34", "Results do not depend on the process environment",
  "The result of a field, its printed form and its XML form are identical in every process configuration: hash seed, optimisation level, locale and encodings, time zone and clock, working directory, environment variables, warning and development modes, recursion limit, garbage collection, random and decimal state, tracing, missing standard streams, or the calling thread.",
  ["configurations", "inputs"], "all process configurations and all fields", "The tests run in one configuration.",
  [F, T, Q, R, S, U], ["no use of unordered iteration, environment, clock or assertions with effects"])

p("C35", "Break sections are opaque",
  "What stands inside a break section (VFR, OAT, IFPSTOP or speed/VFR up to its counterpart, other than the counterpart itself and over-long elements) has no effect outside it: replacing it by any other elements, or by none, changes only the break text of the record the section belongs to and the positions of what follows. No record and no error comes from inside a section.",
  ["inputs"], "all routes with break sections and all pairs of contents", "Tests use a few break texts, each compared on its own.",
  [F], ["break_start, break_text, break_end"])

p("C36", "One stray element costs exactly one error",
  "Inserting one unrecognisable or over-long element anywhere into an error-free field, except inside a STAY or cruise climb group or directly after a C or a final SID or STAR designator, adds exactly one error, about that element. All records, their values and the derived flight rules stay as they were; inside a break section an unrecognisable element is not an error either.",
  ["inputs"], "all error-free fields, all places, all unrecognisable texts", "Tests have about twenty erroneous fields whose expected result was copied from the output.",
  [F], ["add_error_and_re_sync, re_sync_parser_after_error"])

p("C37", "Nothing is retained from one parse to the next",
  "When results, token lists, tokenizers and parsers are dropped, their memory is released: tokenizing, parsing, printing and exporting the same fields again and again, with fresh or shared parser objects, neither accumulates live objects nor entries in the library's own data nor memory. This holds for accepted and rejected fields.",
  ["histories"], "all histories of repeated parses", "Each test parses each string once.",
  [F, T, TS, Q, R], ["no module-level, class-level or parser-level collections are appended to"])

p("C38", "Only texts and positions of a token list matter",
  "Parsing a token list gives the same result however the list came about: filled by a tokenizer or by hand with append, insert and create in any order, cut down from a longer list, with the cursor anywhere and with any types left on its tokens from before. Positions are taken over as given and decide nothing (other positions on the same texts give the same result with those positions), and afterwards each token carries the type of its text.",
  ["histories", "inputs"], "all token lists and all ways to build them", "Tests parse only lists fresh from the tokenizer.",
  [F, TS, TK], ["assign_syntax_descriptions; get_first_token at the start of parse_f15"])

p("C39", "What came before matters only through the data in force",
  "Extraction has no memory beyond the flight data in force: once two fields have reached, in ordinary state, the same point with a speed and level followed by the same named point, whatever follows is extracted to the same records with the same values and the same errors (positions shifted), however long, faulty or similar to the rest the two beginnings were. Only the derived flight rules summarise the whole field.",
  ["inputs", "histories"], "all pairs of beginnings and all continuations", "Tests use short fields with one feature each; nothing compares the same continuation after different beginnings.",
  [F, Q, R, T], ["one handler per state, state carried only by the token cursor and the last record"])

p("C40", "An accepted field can be written back from its result",
  "The result of an error-free field determines a field with that result: writing the records back in field 15 syntax (departure speed and level, names, changes of speed and level, cruise climbs, stay times, break texts with what closed them) gives a field that is accepted as well and yields the same records with the same values and the same derived rules, apart from positions in the text.",
  ["inputs"], "all error-free fields", "Tests compare results with expected strings; none uses the result to rebuild the field.",
  [F, Q, R], ["break text keeps the closing element; cruise climb target and stay time are kept on the point"])

p("C41", "Geometry is symmetric",
  "Mirroring all coordinates of a field at the equator or at the Greenwich meridian (with the bearings of coordinate/bearing/distance points), or turning them about the pole by whole degrees, mirrors or turns every decoded position and every azimuth accordingly, leaves every distance unchanged, and changes nothing else: same records, same errors, same verdict.",
  ["inputs"], "all fields with legal coordinates, all three movements, all angles", "Tests have a handful of coordinates, nearly all in the northern and eastern hemispheres.",
  [F, U], ["assign_latitude, assign_longitude, resolve_real_bd_point, set_azimuth_and_distance"])

p("C42", "An operation that is broken off leaves nothing behind",
  "When tokenizing, parsing, XML export or printing is broken off by an exception - an interrupt or a caller's time limit raised in the middle of it, exhausted recursion depth or memory, an output stream that refuses to be written - the exception reaches the caller (the operation never pretends to be complete with part of its result), and everything used afterwards behaves as if the attempt had not been made: the same parser, tokenizer and token list, results obtained before or printed again, new objects, and the settings of the process; in particular no later use waits for something the broken operation held.",
  ["inputs", "fault_sequences", "histories"], "all fields, all operations, every point at which a documented method is entered, every recursion depth, every number of characters written; sequences of such faults, in a fresh process or after other uses", "Tests never break an operation off.",
  [F, Q, T, "Tokenizer/Tokens.py"], ["ParseF15 keeps no state between calls; results are built in the caller's objects; print_ers writes line by line"])

p("C43", "Results and token lists are plain data",
  "A result or a token list can be copied (deepcopy) and pickled with every protocol from 2 on, alone or sent to another process: the copy says exactly what the original says (values, types, XML, text lines), a copied token list parses to the same result, here or in another interpreter whose result can be sent back, and copies are independent: using, extending or changing one never changes the original or another copy.",
  ["inputs", "histories", "configurations"], "all fields, pickle protocols 2 to 5 and deepcopy, copies of copies", "Tests never copy or transport a result.",
  [Q, R, "Tokenizer/Token.py", "Tokenizer/Tokens.py"], ["records and tokens hold plain values; types are enumeration members; the parser itself deep-copies tokens"])
p("C44", "One result can be read by many at once",
  "Reading does not write: when several threads export the same result to XML, render its records as text, or read the values of its records, errors and tokens at the same time, while others parse other fields with the same parser, each gets exactly what it gets when it is alone, for every interleaving, and the result is the same afterwards.",
  ["schedules", "inputs"], "all results, all combinations of readers, all interleavings of bytecodes", "Tests run in one thread.",
  [Q, R, "Tokenizer/Tokens.py"], ["as_xml, to_string, the getters and peeking compute from the stored values and store nothing"])
p("C45", "Saying what is in force again changes nothing",
  "Giving again, at a point of an accepted field that has no modifier, the speed and level in force there leaves the field accepted with the same records, values and derived rules; inserting DCT between two points that follow each other adds just that record, with the data of the point before it, and leaves every other record as it was, its track and distance included.",
  ["inputs"], "all error-free fields, all points extracted in the ordinary state", "Tests never compare two fields.",
  [F, Q], ["assign_speed_altitude, dct, carry_speed_altitude_rules_forward, assign_azimuth_distance_between_points"])

for x in P: print(json.dumps(x))
