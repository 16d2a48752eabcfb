#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay reviewable)."""
import json, os
IO = "include/boost/astronomy/io/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Opening a FITS file returns exactly what the file holds",
  "For every conforming FITS file made of a primary HDU followed by any mix of ASCII-table, binary-table and unsupported extensions, opening it in full yields its HDUs in file order and nothing else, and every header keyword and value, every image pixel (at its row and column) and every table cell (text cells of ASCII tables without surrounding blanks) equals what the file stores; an unsupported extension appears as an empty placeholder at its position without disturbing its neighbours. "
  "This holds for every header and data size, including ones that end exactly on a 2880-byte record boundary, and for tables with a variable-length heap behind the rows. "
  "It holds however the storage splits, shortens, delays or interrupts the individual reads.",
  ["inputs", "fault_sequences", "schedules"],
  "every conforming file in the supported subset x every way the disk can chunk/interrupt the reads (short reads, EINTR, latency)",
  "The tests open three sample files whose reads always succeed whole; none has a block-aligned header, a 8/16/32/-64 bit image, gaps or whitespace bytes in cells, a heap, or two extensions.",
  [IO+"fits.hpp", IO+"fits_reader.hpp", IO+"fits_stream.hpp", IO+"header.hpp", IO+"card.hpp", IO+"default_card_policy.hpp", IO+"primary_hdu.hpp", IO+"image.hpp", IO+"ascii_table.hpp", IO+"binary_table.hpp", IO+"binary_data_converter.hpp", IO+"string_conversion_utility.hpp", IO+"extension_hdu.hpp", IO+"default_hdus.hpp"],
  [("fits_io::read_entire_hdus", IO+"fits_reader.hpp"), ("header::read_header / data_size", IO+"header.hpp"), ("fits_stream::find_unit_end / set_unit_end", IO+"fits_stream.hpp"), ("set_table_data", IO+"binary_table.hpp, "+IO+"ascii_table.hpp"), ("image::read_image", IO+"image.hpp")],
  ["fits::open", "reader[index]", "get_header().value_of", "get_data", "get_column"])

p("C02", "Header-only opening agrees with full opening",
  "For every conforming FITS file, opening only the headers finds the same HDUs in the same order with equal headers and equal table column metadata as opening it in full, while holding no image or table data. "
  "In both modes the file information the reader publishes (path, number of HDUs, and for each name the byte position of its header, the byte position of its data and its index) matches the actual layout of the file. "
  "This holds however the storage splits, shortens or interrupts the reads and seeks past data.",
  ["inputs", "fault_sequences"],
  "every conforming file x every read chunking; both opening modes on the same bytes",
  "One sample file is opened header-only and only its primary header's card count is looked at; positions are never checked.",
  [IO+"fits_reader.hpp", IO+"fits_stream.hpp", IO+"header.hpp"],
  [("fits_io::read_only_headers skips data by declared size", IO+"fits_reader.hpp"), ("control_block", IO+"fits_reader.hpp")],
  ["fits::open(path, read_only_headers)", "get_control_block_info"])

p("C03", "A save that returns leaves a complete, equal, well-formed file",
  "When saving an opened (and possibly edited) file returns normally, the stored file is well-formed FITS (a whole number of 2880-byte records, 80-byte cards ended by END, blank-padded headers, zero-padded binary data and blank-padded ASCII tables, data exactly as large as the headers declare) and an independent decoder reads from it the same headers, pixels and cells (of ASCII tables: without surrounding blanks) that were in memory, in the same order, unsupported extensions omitted; any bytes of an older file at that path are gone. "
  "Re-opening it with the library gives HDUs equal to those saved, saving those again gives the same bytes, and an image extension built from its header and data holds and saves the same pixels. "
  "This holds however the storage splits or interrupts the writes.",
  ["inputs", "histories", "fault_sequences"],
  "every supported content and edit history x every write chunking (short writes, EINTR) x pre-existing target files",
  "The only write tests are one header round trip and one primary HDU written without being read back; no whole file is ever written and compared.",
  [IO+"fits_reader.hpp", IO+"header.hpp", IO+"primary_hdu.hpp", IO+"ascii_table.hpp", IO+"binary_table.hpp", IO+"fits_stream.hpp", IO+"default_hdus.hpp"],
  [("fits_io::write_to", IO+"fits_reader.hpp"), ("write_header / write_to of each HDU", IO+"header.hpp and HDU headers"), ("fits_stream::find_unit_end", IO+"fits_stream.hpp")],
  ["reader.write_to(path)", "bytes on the simulated disk"])

p("C04", "A save that cannot complete is reported, and can be retried",
  "If the storage fails at any point of a save (the file cannot be created, the disk is full, a write is refused or fails, or the failure only shows when buffered bytes are finally flushed), the save raises an exception; it never returns normally leaving an incomplete file. "
  "A save of content that its own headers cannot describe (a cell that does not fit its field, or missing data) likewise raises. "
  "A failed save does not change what is held in memory, and the same save repeated once the storage works again succeeds completely.",
  ["fault_sequences", "crash_points", "inputs"],
  "every storage fault kind at every system call of the save, including the last flush and close",
  "No test ever makes a write, open or close fail.",
  [IO+"fits_reader.hpp", IO+"fits_stream.hpp", IO+"ascii_table.hpp", IO+"binary_table.hpp", IO+"primary_hdu.hpp"],
  [("fits_io::write_to", IO+"fits_reader.hpp"), ("fits_stream::create_file/write/close", IO+"fits_stream.hpp")],
  ["exception from reader.write_to(path)", "bytes on the simulated disk"])

p("C05", "Truncated, torn or unreadable files are never read as if they were whole",
  "For every file cut at any byte (a crash or full disk while it was being written or copied) and for every read error at any instant, opening terminates within work proportional to the bytes that are there, and either raises or returns exactly the HDUs that begin in the surviving bytes, all of them wholly present there (header, and data when data is read) and holding the values of those bytes; a read error in mid-file makes it raise unless everything was read all the same. "
  "No header card, pixel or cell is ever invented for missing bytes, and once the storage works again the same file opens completely.",
  ["crash_points", "fault_sequences", "inputs"],
  "every cut offset of every conforming file, every torn save (crash after any write), every read/seek/open error position, both opening modes",
  "All tests read intact files; a missing file is the only failure tested.",
  [IO+"fits_stream.hpp", IO+"fits_reader.hpp", IO+"header.hpp"],
  [("fits_stream::read", IO+"fits_stream.hpp"), ("header::read_header loop until END", IO+"header.hpp"), ("fits_stream::at_end", IO+"fits_stream.hpp")],
  ["fits::open", "number of simulated I/O steps and bytes allocated"])

p("C06", "Damaged bytes never cause memory errors, hangs or crashes",
  "For every file whose stored bytes were damaged in any way (flipped bits, overwritten, dropped, duplicated or swapped cards and blocks), opening it in either mode, walking over everything that was returned (headers, pixels, and the cells and column values of its tables) and saving it ends with a result or with an exception derived from std::exception. "
  "It never reads or writes outside its own memory, never aborts or divides by zero, and never runs on without bound.",
  ["fault_sequences", "inputs"],
  "every corruption (bit flips, header value changes, block loss/duplication/reordering) of every conforming file",
  "No test feeds a damaged file.",
  [IO+"fits_reader.hpp", IO+"header.hpp", IO+"card.hpp", IO+"ascii_table.hpp", IO+"binary_table.hpp", IO+"image.hpp", IO+"default_card_policy.hpp", IO+"binary_data_converter.hpp"],
  [("card validation", IO+"default_card_policy.hpp"), ("set_table_data bounds", IO+"ascii_table.hpp, "+IO+"binary_table.hpp"), ("header::read_header", IO+"header.hpp")],
  ["process survival under AddressSanitizer and libstdc++ assertions", "step budget"])

p("C07", "Column edits are seen by every reader of the table and survive saving",
  "After any sequence of column edits and reads - through any number of column handles or copies of handles, by index or by iteration, mixed with replacing the table's whole data or writing to its raw cells - every read of a cell through any handle, the raw table and the next saved and re-opened file all give the value last stored there (floating point numbers in ASCII tables to six significant digits), and every other cell keeps its value. "
  "An edit that fails (for example because memory runs out) leaves the old value everywhere; one that returns is seen everywhere.",
  ["histories", "fault_sequences"],
  "every interleaving of edits/reads over several handles of the same and different columns, every column type, with allocation failures inside edits and save/re-open steps in between",
  "Tests read one column of one table once; no test edits a cell, holds two handles or saves an edited table.",
  [IO+"column_data.hpp", IO+"table_extension.hpp", IO+"ascii_table.hpp", IO+"binary_table.hpp", IO+"string_conversion_utility.hpp", IO+"binary_data_converter.hpp"],
  [("column_view / Proxy write-through", IO+"column_data.hpp"), ("get_column handle cache", IO+"ascii_table.hpp, "+IO+"binary_table.hpp")],
  ["column_view::operator[]", "iterators", "get_data", "saved file"],
  [("table cells", "vector of rows of raw strings", IO+"table_extension.hpp"), ("cached columns", "per-table cache of handles", IO+"ascii_table.hpp, "+IO+"binary_table.hpp")])

p("C08", "A reader can be re-used and stays consistent after failures",
  "A reader object pointed at a file - however often it was pointed at others before, and whether or not those attempts failed part-way by a bad file, a storage error or lack of memory - presents exactly the HDUs of the file it was last pointed at, and nothing left over from earlier ones. "
  "After any failure every lookup by index or by name on it either raises or returns an HDU that really was read from the file it was last pointed at (by name: the last HDU of that name read so far). "
  "Re-reading one header object from another place in the file likewise leaves only the newly read header.",
  ["histories", "fault_sequences", "crash_points"],
  "every sequence of initialise/read/lookup on one reader over several good, bad and missing files with storage and allocation faults at any step",
  "Every test uses a fresh reader on one healthy file.",
  [IO+"fits_reader.hpp", IO+"header.hpp", IO+"fits_stream.hpp"],
  [("fits_io::initialize", IO+"fits_reader.hpp"), ("order of publishing an HDU and its index entry", IO+"fits_reader.hpp"), ("header::read_header", IO+"header.hpp")],
  ["reader[index]", "reader[name]", "get_hdu_list", "get_control_block_info"])

p("C09", "Independent readers and savers never influence each other",
  "When several clients in one process each use their own readers, streams, headers, tables and cards - on different files or reading the same file - every client gets exactly the results it would get running alone, whatever the interleaving of their operations, and a storage fault or lack of memory that hits one client changes nothing for the others.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of 2-4 clients at every system call and memory allocation, with faults aimed at single clients",
  "All tests are single-client and sequential.",
  [IO+"fits_reader.hpp", IO+"fits_stream.hpp", IO+"header.hpp", IO+"card.hpp", IO+"column_data.hpp"],
  [("no state shared between objects", "all of "+IO)],
  ["per-client result digests compared with the client's solo run"])

p("C10", "Header queries are independent of what was asked before",
  "What a header answers for a keyword (its presence, its value in each type it can be read as, or an exception when it is absent or not readable as that type) depends only on the header text: not on earlier queries of the same or other keywords in the same or other types, earlier failed or memory-starved queries, or on having been copied. "
  "Queries never change the header: it stays equal to an unqueried copy and is saved as the same bytes.",
  ["histories", "fault_sequences"],
  "every sequence of typed queries, failed queries, copies, comparisons and saves over a header read from storage, with allocation failures inside queries",
  "Tests query each keyword once, in one type.",
  [IO+"card.hpp", IO+"header.hpp", IO+"default_card_policy.hpp"],
  [("card value cache", IO+"card.hpp"), ("key index", IO+"header.hpp")],
  ["header::value_of", "contains_keyword", "get_hdu_name", "operator==", "write_header"],
  [("card_cache", "mutable cache of the parsed value", IO+"card.hpp")])

p("C11", "A card always shows its last successful edit, whole",
  "After any sequence of creating, re-creating and setting a card (logical, integer, floating point, complex, string, commentary), reading it in any type, copying it and attempting invalid edits, with memory running out at any instant, the card's text is the complete 80-character FITS record of the last edit that succeeded, and keyword, value and text agree with each other. "
  "A failed or rejected edit leaves the previous card intact, and a string value - including quotes, slashes and blanks inside it - reads back unchanged from the card's text.",
  ["histories", "fault_sequences"],
  "every sequence of edits and typed reads on one card and its copies with allocation failures at any allocation",
  "Tests create a card once and read it once, in the type it was created with.",
  [IO+"card.hpp", IO+"default_card_policy.hpp"],
  [("create_card / set_value / value cache", IO+"card.hpp"), ("serialize_to_fits_format / extract_value", IO+"default_card_policy.hpp")],
  ["card::raw_card", "card::value", "card::keyword"])

p("C12", "Running out of memory is survivable at every point",
  "If any single memory allocation, or every allocation from some point on, fails during opening, querying, editing or saving, the operation ends with an exception derived from std::exception: it never crashes, returns a wrong or partial result as if it had succeeded, or leaks memory or file handles. "
  "Objects not involved keep their contents, and the same operation repeated with memory available succeeds with the normal result.",
  ["fault_sequences", "crash_points"],
  "every allocation index of every operation, single and persistent failures",
  "No test makes an allocation fail.",
  [IO+"fits_reader.hpp", IO+"fits_stream.hpp", IO+"header.hpp", IO+"card.hpp", IO+"column_data.hpp", IO+"string_conversion_utility.hpp", IO+"default_card_policy.hpp"],
  [("value semantics / RAII", "all of "+IO), ("stream-based serialisation", IO+"string_conversion_utility.hpp, "+IO+"default_card_policy.hpp")],
  ["exceptions", "live allocation count", "open descriptor count", "results of the retry"])

p("C13", "The file stream behaves as a positioned byte file and admits failure",
  "For every sequence of open, create, read, write, positioned write, seek, record-end and close calls on a file stream, the bytes read, the position, the end-of-file answer and the final file contents are those of a simple byte array with a cursor, and the record end is the next multiple of 2880 (the position itself when it already is one); reading a single character at the end of the file gives a zero character. "
  "When the storage fails or holds fewer bytes than asked for, the failing or a later call on that stream says so (an exception or a false result, at the latest when it is explicitly closed): missing bytes are never returned as data and bytes that did not reach the file are never all reported as written. "
  "Re-opening the stream on a working file makes it fully usable again.",
  ["histories", "fault_sequences"],
  "every call sequence x every storage fault at any call",
  "Tests make one or two calls on a 74-byte file with no faults.",
  [IO+"fits_stream.hpp"],
  [("fits_stream over std::fstream", IO+"fits_stream.hpp")],
  ["return values, exceptions and disk contents"])

p("C14", "Printed coordinates and times are complete or the stream says otherwise",
  "Printing any coordinate point or decimal time to an output stream produces its full textual form (name, every component in order with its unit), numbers of coordinates formatted with the stream's own settings and times in a fixed hours-minutes-seconds form whose parts are those the time was built from; if the sink refuses bytes at any point, the bytes it accepted are a prefix of that text and the stream reports the failure. "
  "Printing never changes the printed object or the stream's format settings, and does not depend on what was printed before.",
  ["fault_sequences", "inputs", "histories"],
  "every value and stream format x every byte position at which the sink fails, stalls or throws",
  "No test prints anything.",
  ["include/boost/astronomy/coordinate/io/io.hpp", "include/boost/astronomy/coordinate/coord_sys/horizon_coord.hpp", "include/boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp", "include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp", "include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp", "include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp", "include/boost/astronomy/time/parser.hpp"],
  [("operator<< overloads", "coordinate/io/io.hpp, coordinate/coord_sys/*.hpp, time/parser.hpp")],
  ["bytes at a simulated sink, stream state"])

p("C15", "Table column metadata mirrors the header",
  "For every table of an opened file, the metadata of each column found by its name (position, format, name, unit, scale, zero, display format, dimensions, starting column, number of elements) is what the table's header says, and an optional item that the header omits has its FITS default (empty text, scale 1, zero 0) in every run, whatever was in memory before. "
  "Asking for a column that the header does not name raises. "
  "Replacing the table's data, copying the table, or a failed attempt at either leaves the metadata as the header has it.",
  ["inputs", "histories", "fault_sequences"],
  "every table header in the supported subset x memory contents x histories of copies and data replacement",
  "No test looks at column metadata; uninitialised metadata is invisible to a test unless memory happens to be dirty.",
  [IO+"column.hpp", IO+"table_extension.hpp", IO+"ascii_table.hpp", IO+"binary_table.hpp"],
  [("populate_column_data", IO+"ascii_table.hpp, "+IO+"binary_table.hpp"), ("get_column_metadata", IO+"table_extension.hpp")],
  ["get_column_metadata"])

p("C16", "Copies of HDUs and tables are independent values",
  "A copy of a table, HDU, HDU list or opened file's content holds the same headers and data as the original at the time of copying; afterwards editing, replacing data in, or destroying either one - including through column handles obtained before or after the copy was made - never changes, invalidates or is visible through the other. "
  "Assigning over a table replaces its content completely, including for handles taken from it afterwards.",
  ["histories", "fault_sequences"],
  "every sequence of copy, assign, move, edit, read, destroy over a pool of tables with handles taken at any moment and allocation failures inside copies",
  "Tests copy a table only before any handle has been taken.",
  [IO+"ascii_table.hpp", IO+"binary_table.hpp", IO+"table_extension.hpp", IO+"column_data.hpp", IO+"fits_reader.hpp"],
  [("cached column handles pointing into a table", IO+"ascii_table.hpp, "+IO+"binary_table.hpp"), ("get_hdu_list returns a copy", IO+"fits_reader.hpp")],
  ["get_column on original and copies", "get_data", "saved files"])

CO = "include/boost/astronomy/coordinate/"
TI = "include/boost/astronomy/time/"
p("C17", "Coordinate, time and image calculations depend on nothing but their arguments",
  "Every calculation (Julian date, sidereal times, decimal hours; conversion between Cartesian, spherical and equatorial representations and units; dot and cross product, sum, mean, magnitude, unit vector; sums of motions; the matrices between horizon, hour angle, right ascension, ecliptic and galactic coordinates and the obliquity; statistics of an image; printing to a stream of one's own) gives the result that its definition gives for its arguments alone: "
  "the same one whenever it is repeated, whatever was calculated before with other or partly equal arguments, whichever earlier calculations ran out of memory, whatever fresh memory contains, and whatever other threads calculate at the same time with objects of their own. A calculation that runs out of memory ends with an exception derived from std::exception and never with another number.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence and interleaving of calculations over arguments that agree in part, every allocation failure in them and every content of fresh memory",
  "Tests make each calculation once, in one order, in one thread, with memory available.",
  [TI+"time_conversions.hpp", TI+"parser.hpp", CO+"arithmetic.hpp", CO+"utility/utility.hpp", CO+"rep/cartesian_representation.hpp", CO+"rep/spherical_representation.hpp", CO+"rep/spherical_equatorial_representation.hpp", CO+"diff/cartesian_differential.hpp", CO+"io/io.hpp", IO+"image.hpp"],
  [("julian_date, GST, LST", TI+"time_conversions.hpp"), ("matrices filled element by element in fresh memory", CO+"utility/utility.hpp"), ("dot, cross, sum, mean, unit_vector", CO+"arithmetic.hpp"), ("median, std_dev", IO+"image.hpp")],
  ["values returned by the calculations"])

NA = [
("C30", "Julian date and sidereal time follow their formulae", "For every calendar instant the Julian date, Greenwich and local sidereal time equal the astronomical formulae and stay within 0-24 h.", ["include/boost/astronomy/time/time_conversions.hpp"], "julian_date, GST, LST"),
("C31", "Coordinate representations convert into each other without loss", "Converting a point between Cartesian, spherical and spherical-equatorial representations and back returns the same point up to rounding, in every unit combination.", ["include/boost/astronomy/coordinate/rep/cartesian_representation.hpp", "include/boost/astronomy/coordinate/rep/spherical_representation.hpp", "include/boost/astronomy/coordinate/rep/spherical_equatorial_representation.hpp"], "conversion constructors"),
("C32", "Vector arithmetic obeys vector algebra", "Dot, cross, magnitude, sum, mean and unit vector of representations satisfy the laws of vector algebra in every representation and unit.", ["include/boost/astronomy/coordinate/arithmetic.hpp"], "arithmetic free functions"),
("C33", "Differentials convert and combine consistently", "Converting and combining differentials (Cartesian, spherical, cos-lat, equatorial) is consistent with the Cartesian derivative.", ["include/boost/astronomy/coordinate/diff/base_differential.hpp", "include/boost/astronomy/coordinate/diff/cartesian_differential.hpp"], "conversion constructors"),
("C34", "Coordinate-system transformation matrices are proper rotations", "Transformations between horizon, equatorial, ecliptic and galactic coordinates are orthogonal and invert each other.", ["include/boost/astronomy/coordinate/utility/utility.hpp"], "matrix utilities"),
("C35", "Sky frames and points return the coordinates put into them", "Frames, coordinate systems and sky points return what was set and compute separations symmetrically.", ["include/boost/astronomy/coordinate/ref_frame/base_frame.hpp", "include/boost/astronomy/coordinate/sky_point.hpp"], "getters/setters, separation"),
("C36", "Length units convert exactly", "Astronomical length units convert with the defined constants in both directions.", ["include/boost/astronomy/units/length.hpp"], "unit typedefs"),
("C37", "Image statistics equal their definitions", "Maximum, minimum, mean, median and standard deviation of an image equal their mathematical definitions.", [IO+"image.hpp"], "image_buffer statistics"),
("C38", "Value conversions between text/bytes and C++ types are inverse", "Serialising a value to FITS text or big-endian bytes and deserialising it returns the same value for every supported type.", [IO+"binary_data_converter.hpp", IO+"string_conversion_utility.hpp"], "serialize / deserialize_to"),
("C39", "Card validation accepts exactly the valid card texts", "A card text is accepted if and only if it satisfies the documented layout rules.", [IO+"default_card_policy.hpp"], "is_card_valid"),
]
for id, t, s, files, mech in NA:
    p(id, t, s, ["inputs"], "every input value; a pure function with no state, schedule, clock, I/O or fault",
      "The tests sample a handful of values.", files, [(mech, files[0])])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
