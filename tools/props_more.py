prop('C04', 'LRU cache keeps the most recently used entries within capacity',
     'An LruCache behaves as a map with a recency order bounded by its capacity: put stores the value and makes its key the most recent, evicting exactly the least recently used key when the capacity would be exceeded; '
     'get returns the stored value and makes it most recent, peek returns it without changing recency, both refuse an absent key; exists, size and clear report and empty exactly that map, after every sequence of operations.',
     ['inputs', 'histories'], 'all operation sequences, keys, values and capacities',
     'Tests run short fixed sequences; the map/list agreement and eviction order must survive every history (element, string and style lookups are served from these caches).',
     ['core/src/utils/LruCache.hpp'],
     'LruCache operations over itemsList_/itemsMap_.',
     'Representation invariant plus functional postconditions of every operation, all histories by induction. Verified for LruCache<int,Payload>. Trusted: std::list / unordered_map models.',
     state=['itemsList_', 'itemsMap_', 'maxSize_'])

prop('C05', 'String table is a persistent bijection between strings and ids',
     'A string table gives equal strings equal ids and different strings different ids, numbered consecutively from 0 in order of first use; getString(getId(s)) is s whatever happened in between, an id not yet given has the empty string, '
     'and ids and strings survive closing and reopening the table and any sequence and interleaving of calls from several threads. (Strings without NUL characters.)',
     ['inputs', 'histories', 'schedules'], 'all histories of getId/getString/reopen over all NUL-free strings, including equal hashes and more strings than the cache holds',
     'Tests look up a few strings; collisions, cache eviction, reopening and their combinations are never sampled, and every tag of every element depends on the bijection.',
     ['core/src/index/StringTable.cpp', 'core/src/index/StringTable.hpp'],
     'StringTableImpl constructor, getId, getString, readString, writeString over index/data files, hash map, offsets and cache.',
     'Representation invariant (files, offsets, hash lists, cache) established by opening and preserved by both operations. Trusted: stream model, MurmurHash as a function, LruCache by its C04 contract, mutex serialisation (taking it before file access is proved).',
     state=['indexFile_', 'dataFile_', 'nextId_', 'map_', 'offsets_', 'cache_'])

prop('C06', 'Stored elements and meshes read back with the value which was written',
     'Writing an element appends exactly its record to the stream and changes nothing before it; reading at that position gives an element of the same kind with the same tags, coordinates and members (with their ids, recursively) and the id the caller names, '
     'and leaves the position behind the record. The same holds for meshes (name, vertices, triangles, colours, uvs, uv map in order; doubles rounded to float). An unknown type byte is refused. (At most 65535 tags, coordinates or members; names without NUL.)',
     ['inputs', 'histories'], 'all elements (any nesting) and meshes, at any position of any stream',
     'Tests write one small element of each kind; every tile persisted or cached passes through these codecs with arbitrary sizes, nesting and neighbours in the file.',
     ['core/src/index/ElementStream.cpp', 'core/src/index/MeshStream.cpp'],
     'ElementStream::write/read and their visitors and stream operators; MeshStream::write/read.',
     'Writer and reader proved against one definition of the record, recursion through members by contract, loops by invariants. Trusted: stream model, structural induction over finite elements.')

prop('C07', 'Text search reports exactly the elements which match the query',
     'After any sequence of additions, a text search reports, for every tile which has data, whose level is in the range and which intersects the box, exactly once each element which has every and-term, at least one of the or-terms if any is given, and none of the not-terms, '
     'and reports nothing else; terms are the tokens of tag keys and values at the documented delimiters, and a query with neither and- nor or-terms reports nothing.',
     ['inputs', 'histories'], 'all elements and tags, all histories of additions, all queries (any number and combination of terms, levels and boxes)',
     'Tests search a handful of fixed tags in one or two tiles; combinations of absent terms, several tiles, duplicates and long histories are not sampled.',
     ['core/src/index/BitmapIndex.cpp', 'core/src/index/BitmapIndex.hpp'],
     'BitmapIndex::add, search, tokenize, applyOperation over per-tile bitmaps of orders.',
     'The bitmap of a tile is a relation term x order extended by add and queried by search; loops by invariants. Trusted: EWAH bitmap as a set, boost tokenizer as a function, string ids (C05), tile visiting (C02, C03).',
     state=['bitmaps per quad key'])

prop('C08', 'An element is stored in exactly the tiles which it belongs to',
     'Storing an element over a range of levels, in one tile or in a box saves it exactly once in each tile of those levels which the bounding box of the element (hull of all its points, members included) intersects - for one tile only in that tile, for a box only if the element meets the box - '
     'and in no other tile; levels without a style or with a style that skips are left out, with a clipping style the clipper of that tile and its box gets the element instead and its result is saved in that tile; the result tells whether anything was stored. An element without points is stored nowhere.',
     ['inputs'], 'all elements (any kind, nesting and geometry), level ranges, tiles, boxes and styles per level',
     'Tests store a few nodes, ways and areas with one style; combinations of levels, styles, nested relations, borders and clipping over several tiles are not sampled.',
     ['core/src/index/ElementStore.cpp', 'core/src/index/ElementGeometryVisitor.hpp', 'core/src/BoundingBox.hpp'],
     'ElementStore::store (three overloads and the shared template), ElementStore constructor, ElementGeometryVisitor.',
     'Sets of saved and clipped tiles as ghost state, loops by invariants, the hull of nested elements by structural induction. Trusted: tile visiting by C02/C03, style lookup as a function of element and level, what the clipper does to geometry.')

prop('C09', 'The in-memory store returns the saved elements of a tile, in order',
     'A tile of the in-memory store holds copies of exactly the elements saved in it since it was last erased, in the order in which they were saved; a search in the tile visits exactly these in that order (a prefix of them once the search is cancelled), hasData tells whether there are any, '
     'erasing a tile removes its elements and their text index and touches no other tile, and a text search passes exactly those elements which the text index reports (C07) and whose bounding box meets the box of the query.',
     ['histories'], 'all histories of saving, searching and erasing over all elements, tiles and queries',
     'Tests save a few elements in one tile and search once; interleavings over several tiles, erased and refilled tiles, element kinds, cancellation and filters by box are not sampled.',
     ['core/src/index/InMemoryElementStore.cpp', 'core/src/index/ElementVisitorFilter.hpp', 'core/src/index/ElementGeometryVisitor.hpp'],
     'InMemoryElementStore::InMemoryElementStoreImpl (store, search, hasData, erase), InMemoryStringIndex, the delegating public functions.',
     'Each operation has a contract over the map of tiles, so that the property is an invariant of every history; copies are compared field by field per kind. Trusted: std::map and std::make_shared, structural induction over finite elements; the index itself is C07.',
     state=['elements per quad key', 'bitmaps per quad key'])

prop('C10', 'The persistent store keeps the saved elements of a tile in its files',
     'A tile of the persistent store has the elements saved in it since it was last erased, in the order in which they were saved: a search in the tile visits exactly these, with their ids and in that order (a prefix of them once cancelled), whether the tile was flushed, evicted from the cache of open tiles or the store was reopened in between; '
     'saving an element keeps all earlier ones, adds it to the text index of the tile and rewrites the bitmap file, which restores the same index; hasData tells whether the tile has a data file and a search creates no files; erasing a tile removes its three files and touches no other tile.',
     ['histories'], 'all histories of saving, searching, flushing, eviction, reopening and erasing over all elements and tiles',
     'Tests save and search once in a fresh directory; interleaved searches and saves (shared stream positions), evicted and reopened tiles and appended bitmaps are not sampled.',
     ['core/src/index/PersistentElementStore.cpp', 'core/src/index/BitmapStream.cpp', 'core/src/index/ElementStream.cpp'],
     'PersistentElementStoreImpl, QuadKeyData and BitmapData in PersistentElementStore.cpp, BitmapStream::read/write, the delegating public functions.',
     'Files of a tile are ghost streams whose content is an invariant (entry j of the index file names id and offset of element j, whose record is at that offset); every operation preserves it. Trusted: file system as byte-addressed streams, one writer per file; records by C06, cache by C04, index by C07.',
     state=['<tile>.dat', '<tile>.idf', '<tile>.bmp', 'cache of open tiles'])

prop('C11', 'The geo store adds data to the named store only and queries all stores',
     'Adding an element or a file to a store passes every element of the data, once and with the given levels, tile or box and styles, to the store registered under that name and touches no other store; the file is read by the parser of its format (chosen by suffix), and if the addition was cancelled the region is erased again in that store, after the data, else nothing is erased. '
     'A text search asks every registered store once with the given query, a search in a tile asks exactly the stores which have data of that tile, and there is data if any of the stores has some.',
     ['inputs', 'histories'], 'all numbers and names of registered stores, data files, regions, cancellations and queries',
     'Tests use one or two stores and never cancel; several stores, stores without data, each kind of region and each format are not combined.',
     ['core/src/index/GeoStore.cpp', 'core/src/index/GeoStore.hpp'],
     'GeoStore and GeoStoreImpl: add (five overloads), search (two), hasData, registerStore.',
     'Calls on stores are ghost state (counted per store), loops over the registered stores by invariants; callbacks are verified for an arbitrary element. Trusted: the parsers call the visitor they are given.',
     state=['registered stores'])

prop('C12', 'An element gets exactly the declarations of the style rules which match it',
     'At a level of detail, an element has the declarations of all rules of its kind (node, way, area, relation) whose selector covers the level and all of whose conditions hold for its tags (key exists; value is equal, not equal, numerically less, numerically greater), applied in the order of the sheet so that later ones win; if there is a rule for its id at that level, it has the declarations of the first such rule instead. '
     'hasStyle tells exactly whether some rule applies; the canvas has the declarations of all canvas rules of the level in order; sheets with unknown selector names or operations are refused.',
     ['inputs'], 'all style sheets, elements with tags sorted by distinct keys, levels of detail',
     'Tests check single rules with one or two conditions; the order of rules, several names and levels, the binary search over tags and the precedence of ids are not combined.',
     ['core/src/mapcss/StyleProvider.cpp', 'core/src/mapcss/Style.hpp', 'core/src/mapcss/StyleDeclaration.hpp'],
     'StyleBuilder (matchTags, visit functions), StyleProviderImpl (constructor, addConditionRule, addIdentifierRule), StyleProvider::forElement/hasStyle/forCanvas, Style::put/get/has/empty.',
     'Contracts: the sheet is converted rule by rule into filters of every level (loop invariants over nested maps), the visit functions put exactly the declarations of the matching filters in order (position of each declaration defined recursively), the tag search is a verified binary search. Trusted: string table (C05), number parsing, the parser of sheets is not part of it.',
     state=['filters of kinds and levels', 'declarations of a style'])

prop('C13', 'Importing OSM data stores every element once, with its geometry and tags',
     'Reading OSM data passes every node, way, area and relation of the source to the store exactly once, with sorted tags and the coordinates of its nodes in order; closed ways with more than three nodes become counter-clockwise areas.',
     ['inputs'], 'all OSM data sets', 'Tests import a few small files.',
     ['core/src/formats/osm/OsmDataVisitor.cpp', 'core/src/formats/osm/RelationProcessor.hpp', 'core/src/formats/osm/MultipolygonProcessor.cpp'],
     'OsmDataVisitor visit functions and complete, relation processors.', '',
     na='The visitor can be put under contract, but the input comes from the osm, pbf and shapefile parsers (boost property trees, protobuf, shapelib), for which no contract within reach exists, and relations are resolved by unbounded recursion over cyclic data that does not terminate on cycles of three or more; not claimed.')

prop('C14', 'Concurrent tile loads, imports and cancellations do not race',
     'Loading tiles, adding data and cancelling from several threads gives the results of some serial order and never touches freed or half-updated state.',
     ['schedules'], 'all interleavings of the public operations', 'Tests are single threaded.',
     ['core/src/index/StringTable.cpp', 'core/src/mapcss/StyleProvider.cpp', 'core/shared/Application.hpp'],
     'Mutexes of the string table, the style provider and the caches.', '',
     na='Contracts of the VC generator are sequential: it has no permissions or thread interference for C++, so it can only show that the string table takes its mutex (done in C05), not freedom from races.')

prop('C15', 'Meshes of areas, roads and terrain cover their geometry without holes',
     'Triangulated meshes cover exactly the clipped geometry of the elements of a tile, with valid indices and no gaps between neighbouring tiles.',
     ['inputs'], 'all geometries and styles', 'Tests count triangles of a few shapes.',
     ['core/src/builders/MeshBuilder.cpp', 'core/src/builders/terrain', 'core/lib/clipper', 'core/lib/triangle'],
     'Mesh and terrain builders over the Clipper and Triangle libraries.', '',
     na='Coverage depends on the Clipper and Triangle libraries (third-party sweep-line and Delaunay code with exact floating-point predicates); their postconditions are geometric facts over rounded doubles which no verifier here can discharge, and assuming them would assume the property.')
