#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the long texts stay readable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
PR='packedrtree/packedrtree.go'; HI='packedrtree/hilbert.go'; BX='packedrtree/box.go'
FR='flatgeobuf/file_reader.go'; FW='flatgeobuf/file_writer.go'; ST='flatgeobuf/stateful.go'; FB='flatgeobuf/flatbuffers.go'
SP='flatgeobuf/spec.go'; PRD='flatgeobuf/prop_reader.go'; PWR='flatgeobuf/prop_writer.go'; STR='flatgeobuf/stringers.go'
p('C01','In-memory index search is exact',
 'For every non-empty list of references whose boxes contain no NaN, every node size of at least 2 and every query box without NaN, searching the index built from the list returns each reference whose box intersects the query (touching edges count) exactly once, with its own offset and its position in the list, and returns nothing else. The index reports the list length, the node size, and as its bounds the smallest box that encloses every reference.',
 ['inputs','configurations'],'every reference list, node size and query box',
 'Tests search a handful of fixed trees with fixed boxes; a wrong child range, a wrong parent box or a wrong comparison shows only for particular counts, node sizes and coordinates (last partial node, touching edges, infinities).',
 [PR,BX],[('New (level layout, parent boxes)',PR),('search (pruned descent)',PR),('Box.Expand / Box.intersects',BX)],
 [('nodes','level-ordered node array, root first',PR)],['PackedRTree.Search','PackedRTree.Bounds','PackedRTree.NumRefs','PackedRTree.NodeSize'])
p('C02','Streaming index search equals in-memory search',
 'Searching a serialized index directly from a seekable stream, wherever in the stream the index starts and however the stream splits its reads, returns exactly the results that loading the index and searching it returns, sorted by ascending offset whatever order the index stores its references in. On success the stream is left positioned at the first byte after the index, and no byte outside the index is read.',
 ['inputs','configurations'],'every index, start position, read splitting and query box',
 'Tests seek over a few fixed indexes at position zero through readers that return everything asked for; relative seeks, short reads and stored orders where offsets are not ascending are never combined.',
 [PR],[('Seek fetch closure (relative seeks)',PR),('min-heap ticket bag',PR),('skip to end of index',PR)],
 [('offset','current stream position relative to index start',PR)],['packedrtree.Seek results','stream position after Seek'])
p('C03','Index serialization is a faithful round trip',
 'Serializing an index writes exactly the number of bytes given by the size function, in the FlatGeobuf layout: 40 little-endian bytes per node (minX, minY, maxX, maxY, offset), root level first, leaves last in reference order, and each interior node holding the smallest box around its children and the node number of its first child. Loading those bytes consumes exactly them and yields an index with the same reference count, node size, bounds, search results and serialized form; a stream that ends early gives an error.',
 ['inputs','configurations'],'every reference list and node size; every truncation point',
 'Tests round-trip a few fixed trees; they do not pin the byte layout for arbitrary values, other node sizes or truncated streams.',
 [PR,'packedrtree/native_littleendian.go'],[('Marshal / Unmarshal byte view of nodes',PR),('writeLittleEndianOctets, fixLittleEndianOctets','packedrtree/native_littleendian.go')],
 [],['bytes written by Marshal','index returned by Unmarshal'])
p('C04','Index size arithmetic is exact or an error',
 'For every reference count of at least 1 and node size of at least 2, the index size function returns exactly 40 times the number of nodes of the packed tree (the references plus one or more levels of parents, the last being a single root; a single reference still has a root above it), or an error when that does not fit in a signed integer; it never returns a wrapped or truncated number. A count below 1 or a node size below 2 is refused by a panic.',
 ['inputs'],'every (count, node size) pair, including counts near the integer limits',
 'Tests list a few dozen pairs; overflow and rounding errors sit at isolated counts in a 64-bit space.',
 [PR],[('size, totalNodes overflow checks',PR),('validateParams',PR)],[],['packedrtree.Size'])
p('C05','Bounding box algebra',
 'Expanding a box by another box, or by a coordinate pair, yields the smallest box containing both whenever no NaN is involved: each edge becomes exactly the lesser minimum or the greater maximum, nothing else changes, and the argument is not modified. The empty box is neutral for expansion in both directions, and width and height are the differences of the opposite edges.',
 ['inputs'],'every pair of boxes and coordinates, including infinities, zeros of either sign and empty boxes',
 'Tests use a few hand-picked boxes; a wrong edge or comparison direction can hide in combinations not listed.',
 [BX],[('Expand, ExpandXY, EmptyBox, Width, Height',BX)],[],['packedrtree.Box methods'])
p('C06','Hilbert sort is a permutation in curve order',
 'Sorting references keeps exactly the same references (box and offset together, none lost, duplicated or altered) and puts them in descending order of the position, on the order-16 Hilbert curve, of the centre of each box scaled into the given bounds (by 65535 times the relative position, rounded down; an axis of zero extent maps to 0). The curve used is the FlatGeobuf one: it visits every cell of the 65536 x 65536 grid once, consecutive positions being neighbouring cells.',
 ['inputs'],'every reference list and bounds whose centres fall inside the bounds',
 'Tests check a table of curve values and the order of the sample files; a wrong bit operation affects only some of 2^32 cells, and wrong scaling only some coordinates.',
 [HI,BX],[('hilbertOfXY',HI),('hilbertOfCenter scaling',HI),('HilbertSort descending Less and Swap',HI)],[],['order of the slice after HilbertSort'])
p('C07','Magic number and version gate',
 'A stream is recognised as FlatGeobuf exactly when its first eight bytes are "fgb", a major version byte, "fgb", a patch byte; the versions reported are those two bytes, exactly eight bytes are consumed when that many are available, and any other or shorter input gives an error. The file reader accepts exactly the supported major version (3) with any patch number, and what the file writer emits is accepted by both.',
 ['inputs'],'every 8-byte prefix and every shorter stream',
 'The existing test reads one valid file.',
 [SP,FR,FW],[('Magic',SP),('Header version check',FR)],[],['flatgeobuf.Magic','FileReader.Header','FileWriter.Header'])
p('C08','Written files read back unchanged',
 'A file produced by the file writer from a header and features (with or without an index, with the index supplied or built by the writer, with a known or unknown feature count) reads back through the file reader with a header and features byte-for-byte equal to those written, all of them, in the order written, followed by end-of-data. This holds whichever mix of batch sizes and of reading, skipping or searching the index is used to read it, from seekable and non-seekable sources, also where the file starts inside the source; header, index and features once returned stay intact as reading goes on, and when the header gives the count exactly the bytes of the file are consumed.',
 ['inputs','histories','configurations'],'every feature list, table contents, write mode and reading sequence',
 'No test writes a file; reading tests use a few sample files with one call pattern each.',
 [FW,FR,FB],[('writeSizePrefixedTable',FB),('IndexDataPtr',FW),('readFeature, Data, DataRem, skipIndex',FR)],
 [('featureIndex','next feature number',FR),('featureOffset','data-section offset of next feature',FR)],['bytes given to the underlying writer','FileReader.Header/Index/Data/DataRem results'])
p('C09','Spatial feature search through the reader is exact',
 'On a well-formed indexed file, a spatial search through the file reader returns exactly the features whose index entry box intersects the query, each once, complete, in file order, and equal to what reading the whole data section gives at that entry; no intersecting feature is missed. The result is the same for seekable and non-seekable sources and whether or not the index was loaded before; a file without an index gives the no-index error and its data can still be read.',
 ['inputs','histories','configurations'],'every indexed file (including entries stored in any order), query box, source kind and prior call history',
 'The only test of this function needs a data file that is absent, so nothing exercises it.',
 [FR,PR],[('IndexSearch',FR),('packedrtree.Seek / Search',PR),('discard / seek skip',FR)],
 [('featureOffset','position in data section while skipping',FR)],['FileReader.IndexSearch result'])
p('C10','Rewind makes the reader as good as new',
 'After a successful rewind of a seekable reader, whatever was read, skipped or searched before, loading the index, searching it, or reading data (all or in batches) gives exactly the results the same calls give on a fresh reader just after the header. Rewinding succeeds on every seekable source once the header has been read, whether or not the file has an index, and can be repeated.',
 ['histories','inputs'],'every sequence of reader calls with rewinds interleaved, on every well-formed file',
 'No passing test calls rewind; the lazily restored position depends on which offsets earlier calls happened to save.',
 [FR],[('Rewind lazy reset',FR),('indexOffset / dataOffset / cachedIndex bookkeeping',FR)],
 [('indexOffset','saved position of the index',FR),('dataOffset','saved position of the data section',FR),('cachedIndex','index kept across rewinds',FR)],['results of reader calls after Rewind'])
p('C11','Corrupt or truncated files fail cleanly',
 'Reading any byte stream as a FlatGeobuf file never panics or loops forever in the header, index, search, data or rewind calls (allocation of the sizes the stream itself declares is assumed to succeed, except that a header longer than 32 MiB is refused before allocating): every defect that prevents a call from completing is reported as an error. A stream that is cut short is never presented as complete: when the header declares a feature count, reading the data of a stream cut before the last feature ends, or searching for a feature that lies beyond the cut, gives an error, not end-of-data, and what was returned before is an intact prefix.',
 ['inputs','crash_points'],'every byte string up to the stated size; every truncation point of well-formed files; every call sequence',
 'Tests read only well-formed sample files.',
 [FR,PR,FB,SP],[('length checks in Header and readFeature',FR),('safeFlatBuffersInteraction',FB),('search child bounds',PR)],[],['errors and panics of FileReader methods','packedrtree.Unmarshal / Seek on arbitrary bytes'])
p('C12','Reader call protocol',
 'Calls on a file reader in any order never panic: before the header is read every other call gives an error and consumes nothing; a second header call, or an index call once the index position has passed, gives an error without disturbing later reads; after the last feature or after a search, data calls report end-of-data without reading. After a failure that leaves the position unknown every later call reports that same error, and after close every call, including a second close, reports the closed error; the source is closed exactly once if it can be closed.',
 ['histories'],'every sequence of reader calls',
 'Tests call each method once in the expected order.',
 [FR,ST],[('toState / toErr / close',ST),('indexStateErr, Data state checks, Rewind',FR)],[('state, err','protocol state and sticky error',ST)],['errors returned by FileReader methods','calls made on the underlying source'])
p('C13','Writer call protocol',
 'A file writer called in any order never panics on non-nil arguments and never emits anything but a prefix of one well-formed file: header, then the index exactly when the header announces one, then at most the announced number of features. A call that is out of order, or that supplies an index or feature list disagreeing with the header in count or node size, or a table that is not a complete size-prefixed root table at offset zero of its buffer (size prefix within the buffer, root table with its first four bytes within the size), is refused with an error and writes nothing. Close reports a file with fewer features than announced, passes the close on to the destination once, and every call after it reports the closed error.',
 ['histories','inputs'],'every sequence of writer calls with matching and mismatching arguments',
 'No test uses the file writer.',
 [FW,ST,FB],[('canWriteIndex, canWriteData, index count checks',FW),('tableSize',FB),('close',ST)],[('state, featureIndex','protocol state',FW)],['bytes given to the underlying writer','errors returned'])
p('C14','I/O faults surface and never corrupt results',
 'If the underlying source, destination or seeker fails at any point, the call in progress returns an error that wraps the underlying one, and no result is presented as success or end-of-data as a consequence. A reader or writer whose position has become unknown stays failed with that error. The byte count returned by each writing call equals the bytes the destination accepted during that call, and a call does not go on writing after a write of its own failed. (An error delivered together with the last bytes asked for may be dropped, as io.ReadFull does; a feature none of whose bytes were accepted may be written again; a writer that was short of features still says so when closed.)',
 ['fault_sequences','histories'],'every position at which a read, write or seek fails, every error kind, every short transfer',
 'No test injects an I/O error into the file reader or writer.',
 [FR,FW,ST,PR],[('wrapErr / toErr',ST),('readFeature, skipIndex, IndexSearch',FR),('Seek error paths',PR),('write accounting',FW)],[('err','sticky error',ST)],['returned errors and counts','bytes accepted by the destination'])
p('C15','Reading does not depend on how the source splits its data',
 'For every well-formed or truncated file, the results and errors of each reader call are the same whether the source delivers data in one piece, byte by byte, or in any mixture of short reads, including reads that deliver their last bytes together with end-of-file. This holds for header, index loading, index skipping, search and data.',
 ['schedules','inputs'],'every way of splitting the source reads',
 'Tests read from files on disk, which return full reads.',
 [FR,PR,SP,PRD],[('io.ReadFull uses',FR),('discard loop',FR)],[],['FileReader results','PropReader results'])
p('C16','Property values round trip',
 'Every property value of every column type (8- to 64-bit integers, booleans, floats, strings, binary) written with the property writer is read back with the property reader as the identical value, consuming exactly the bytes written; values already returned stay valid while reading continues. On the wire, numbers are little-endian of their natural width, booleans are one byte 0 or 1, and strings and binary values are a 32-bit length followed by the bytes; the count returned is the bytes written.',
 ['inputs'],'every value of every scalar type; every string/binary content up to the stated length, and lengths needing several length bytes',
 'Nothing tests the property writer; reading is tested on a few values below 256.',
 [PRD,PWR],[('Read* and Write* methods',PRD),('Write* methods',PWR)],[],['PropReader/PropWriter results and bytes'])
p('C17','Property lists decode according to the schema',
 'Decoding a property list against a schema returns, for every sequence of (column number, value) pairs, one entry per pair in stream order with the column number, column, type and value written. Input that ends inside a pair or names a column that is not in the schema gives an error instead of a made-up value, and input that ends between pairs ends the list.',
 ['inputs','crash_points'],'every schema, property sequence and truncation point',
 'Tests decode the properties of one or two sample features.',
 [PRD,'flatgeobuf/schema.go'],[('ReadSchema',PRD)],[],['PropReader.ReadSchema'])
p('C18','Header and feature summaries never crash',
 'Summarising a header or a feature as text never panics and always terminates, whatever bytes the table holds and whatever schema is supplied: a malformed table yields a text that reports an error. For a well-formed feature the summary shows the bounds over all coordinates of the geometry and its nested parts, and its properties decoded with the feature own columns if it has any, otherwise with the supplied schema.',
 ['inputs'],'every table content up to the stated size, and every well-formed feature',
 'Examples print a few well-formed sample headers and features.',
 [STR,FB],[('safeFlatBuffersInteraction recover',FB),('geomBounds recursion, stringProps schema choice',STR)],[],['HeaderString','FeatureString'])
p('C19','Table accessors agree with table builders',
 'For each table of the FlatGeobuf schema (header, coordinate system, column, feature, geometry), every field stored with the generated builder functions is read back unchanged by the generated accessor of that field and affects no other field; fields not stored read as the documented default (node size 16, column width/precision/scale -1, nullable true, everything else zero or absent). Mutators change exactly the stored field they name and report failure on absent fields, and enumeration names map to their values and back.',
 ['inputs'],'every combination of present and absent fields and every field value',
 'The generated package has no tests; sample files use few fields.',
 ['flatgeobuf/flat/Header.go','flatgeobuf/flat/Feature.go','flatgeobuf/flat/Geometry.go','flatgeobuf/flat/Column.go','flatgeobuf/flat/Crs.go','flatgeobuf/flat/ColumnType.go','flatgeobuf/flat/GeometryType.go'],
 [('vtable slot numbers and defaults','flatgeobuf/flat/Header.go')],[],['accessors, mutators and builder functions of package flat'])
p('C20','The index the writer builds describes the data it writes',
 'When the writer builds the index from features, each feature has exactly one entry, whose box is the smallest box around all coordinates of the feature geometry including nested parts, and whose offset is the byte position of that feature in the data section that follows. Hence a search of the resulting file returns exactly the features whose geometry bounds intersect the query.',
 ['inputs'],'every feature list, geometry nesting and table size',
 'No test writes a file.',
 [FW,STR,HI,PR],[('IndexDataPtr offset accumulation',FW),('featureBounds',FW)],[],['index and data sections of the written file'])
p('C21','Inputs and earlier results are left alone',
 'Building, searching, streaming-searching, saving, loading or describing an index, writing a header, index or features, writing and reading property values, and summarising headers and features never change what they are given (reference lists, indexes, tables, feature lists, byte values, schemas) nor anything returned by an earlier call, and hold on to no memory of the caller: a caller who changes its references, results, written bytes or values afterwards does not affect the index or later results. Repeating an operation on the same input gives the same answer (the same search results, bytes or text).',
 ['inputs','histories'],'every index content and query, every feature and property content, and every order of searching and saving',
 'Aliasing shows only when an earlier result is looked at after a later call; the tests look at each result at once.',
 [PR,BX,FW,STR,PRD,PWR],[('New copies the references',PR),('Search and Seek allocate their results',PR),('IndexDataPtr builds its own reference list',FW),('ReadBinary allocates',PRD)],[('nodes','level-ordered node array shared by searches',PR)],['arguments and earlier results after each call'])
p('C22','Summaries show the fields as stored',
 'For a well-formed header the text summary gives each field it covers exactly as stored: name, envelope (eight significant digits), geometry type, the dimension flags that are set, number of columns, feature count (or UNKNOWN), index node size (or NO INDEX), coordinate system with organisation, code, name, length of its definition and code string (or <nil>), title, description and metadata; absent text fields are left out and no field shows in place of another. The texts of a box, a reference and an index likewise give the edges in the order XMin, YMin, XMax, YMax to eight significant digits, the offset, and the bounds, reference count and node size.',
 ['inputs'],'every value and combination of header fields, every box and offset',
 'The tests print a few fixed headers.',
 [STR,BX,PR],[('HeaderString',STR),('Box.String',BX),('PackedRTree.String, Ref.String',PR)],[],['HeaderString, Box.String, Ref.String, PackedRTree.String'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
