#!/usr/bin/env python3-vt
"""Source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: VCs generated from the clang AST of the real functions, discharged by z3/cvc5'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, level='proof', na=None, functions=None, state=None, tech=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, note=note,
                  level=level, na=na, state=state, tech=tech))


prop('C01', 'Quadkey strings, tile ordering and level ranges identify tiles',
     'For every tile of levels 1 to 19 the quadkey string has one digit 0-3 per level, most significant first, encoding the column bit plus twice the row bit, so different tiles of a level have different strings and the parent tile\'s string is the prefix of its children\'s. '
     'Tiles are equal exactly when level, column and row agree, and are ordered lexicographically by (level, column, row). A level range keeps the bounds it is given and is refused with a domain error exactly when a bound is outside 1..19.',
     ['inputs'], 'all levels 1..19 and all tiles of their grids (about 3.7e11), all pairs of tiles, all integers as level bounds',
     'The tests sample a handful of tiles at one or two levels; injectivity and the prefix rule quantify over all pairs of tiles.',
     ['core/src/utils/GeoUtils.hpp', 'core/src/QuadKey.hpp', 'core/src/LodRange.hpp'],
     'Quadkey string construction, quadkey comparator and equality, LodRange constructor.',
     'All levels and tiles proved; loops unrolled completely per level (19 cases) under unwinding obligations. Trusted: std::string append model, int shifts as mathematical (values < 2^19).')

prop('C02', 'Geo coordinates, tiles and tile ranges agree',
     'At every level 1 to 19 a coordinate (clamped to the Web Mercator limits) is assigned the tile of the 2^level x 2^level Mercator grid that contains it, tile boxes follow the grid formula so neighbours share edges, and the box of a coordinate\'s tile contains the coordinate. '
     'Visiting a bounding box at a level visits each tile of the column/row range between its corners that intersects the box exactly once, with that tile\'s box, and nothing for an invalid box.',
     ['inputs'], 'all coordinates and boxes (as real numbers), all levels 1..19',
     'Tests check a few cities; the guarantee is about every coordinate, including the clamped poles and the antimeridian, and about every tile range.',
     ['core/src/utils/GeoUtils.hpp', 'core/src/BoundingBox.hpp', 'core/src/utils/MathUtils.hpp'],
     'Coordinate to tile conversion, tile to bounding box conversion, tile range visitor.',
     'Proved over real arithmetic (rounding of doubles not modelled; the companion run covers doubles by bounded search). Trusted: monotonicity/inverse facts of the Mercator function and the Gudermannian.')

prop('C03', 'Bounding boxes form a lattice with exact predicates',
     'Expanding a box with a point, another box or a range of points yields the smallest box that covers both, independent of order, with the default box as the neutral element. '
     'Point containment is strict on all sides, box containment is containment of both corners, intersection holds exactly when the closed boxes meet in both dimensions, validity means ordered corners, and centre, width and height are those of the corners.',
     ['inputs'], 'all boxes and points with non-NaN coordinates and all finite point sequences',
     'Tests cover single boxes; the lattice laws and the point-range expansion quantify over all sequences.',
     ['core/src/BoundingBox.hpp', 'core/src/GeoCoordinate.hpp'],
     'BoundingBox members; every index, clipping and search decision uses them.',
     'Proved for all non-NaN coordinates (order embedding of doubles in reals, exact for min/max/compare; centre/width/height over real arithmetic).')

exec(open(os.path.join(V, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props_more.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': ', '.join(p['files'])}]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': n, 'where': p['files'][0]} for n in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        assert len(p['title']) <= 80, p['title']
M = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified sources', 'source_commits': []},
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'] or TECH, 'level': p['level'], 'level_note': p['note']}
                for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'see DESIGN.md'}
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
