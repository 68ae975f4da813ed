"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS_TESTS = (
    'The tests draw random operands whose coordinates hardly ever coincide, '
    'and compare the operation with itself (commutativity, distributivity), '
    'not with the set it denotes; shared vertices, overlapping edges and '
    'T-junctions, where the sweep branches, are practically never drawn.'
)
REL_TESTS = (
    'The tests check that a relation is converse to the swapped one and agrees '
    'with some emptiness facts on random operands; coincidences of vertices '
    'and edges that separate one relation from another are of measure zero '
    'and practically never drawn.'
)


def m(name, where):
    return dict(name=name, where=where)


P = []


def prop(id_, title, statement, text, why, files, mechanism, observe,
         state=(), over=('inputs',)):
    P.append(dict(
        id=id_, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files, mechanism=[m(*x) for x in mechanism],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=observe, hook_needed=None,
        ),
    ))


CLIP = ['rene/_clipping/__init__.py', 'rene/_clipping/shaped.py',
        'rene/_clipping/sweep_line_key.py',
        'rene/_clipping/events_queue_key.py']
SWEEP_STATE = [
    ('sweep line', 'edges crossed by the sweep line, ordered from below',
     'rene/_clipping/shaped.py, Operation'),
    ('events queue', 'end points of (sub)edges not swept yet',
     'rene/_clipping/shaped.py, Operation'),
]
for id_, op, word, what, f in (
    ('C01', '&', 'intersection', 'exactly the closure of the common interior '
     'of the operands', 'intersection.py'),
    ('C02', '|', 'union', 'exactly the union of the operands',
     'union.py'),
    ('C03', '-', 'difference', 'exactly the closure of the interior of the '
     'first operand outside of the second one', 'difference.py'),
    ('C04', '^', 'symmetric difference', 'exactly the closure of the points '
     'interior to one of the operands and outside of the other',
     'symmetric_difference.py'),
):
    prop(
        id_, f'Exact {word} of regions',
        f'For any two valid polygons or multipolygons, their {word} is {what}. '
        'It is given as a valid polygon or multipolygon: simple contours '
        'without repeated or collinear vertices, holes and parts that do not '
        'cross or share boundary pieces, a multipolygon only for two or more '
        'parts, and the empty geometry when nothing is left. It never fails.',
        'every pair of valid polygons and multipolygons with rational '
        'coordinates, in every presentation of their contours',
        OPS_TESTS, CLIP + ['rene/_clipping/' + f],
        [('sweep over the edges of both operands',
          'rene/_clipping/shaped.py, rene/_clipping/' + f),
         ('edges kept by the operation, joined to contours, holes assigned to '
          'borders', 'rene/_clipping/' + f),
         ('shortcuts by bounding boxes', 'rene/_clipping/' + f)],
        [f'result of the operator {op} between polygons and multipolygons'],
        SWEEP_STATE,
    )
prop(
    'C05', 'Exact set operations of linear geometries',
    'For any two valid segments, multisegments or contours, intersection, '
    'union, difference and symmetric difference are exactly the set operation '
    'on their points, isolated points left out. The result is a segment, a '
    'multisegment of two or more pieces that neither cross nor overlap nor '
    'repeat, or the empty geometry. It never fails.',
    'every pair of valid segments, multisegments and contours with rational '
    'coordinates, all four operations, segments in any order and direction',
    OPS_TESTS,
    ['rene/_clipping/__init__.py', 'rene/_clipping/linear.py',
     'rene/_geometries/base_segment.py',
     'rene/_geometries/base_multisegment.py',
     'rene/_geometries/base_contour.py'],
    [('sweep over the segments of both operands',
      'rene/_clipping/linear.py'),
     ('special cases of single segments', 'rene/_clipping/difference.py, '
      'intersection.py, symmetric_difference.py, union.py')],
    ['results of the operators & | - ^ between linear geometries'],
    SWEEP_STATE,
)
prop(
    'C06', 'Exact intersection and difference of lines with regions',
    'The intersection of a valid linear geometry with a valid polygon or '
    'multipolygon, either way round, is exactly the part of the line inside '
    'or on the border of the region, and its difference with the region is '
    'exactly the closure of the rest; isolated points are left out. The '
    'result is a segment, a multisegment of pieces that neither cross nor '
    'overlap nor repeat, or the empty geometry. It never fails.',
    'every valid segment, multisegment or contour with every valid polygon or '
    'multipolygon',
    OPS_TESTS,
    ['rene/_clipping/__init__.py', 'rene/_clipping/mixed.py',
     'rene/_clipping/intersection.py', 'rene/_clipping/difference.py'],
    [('sweep over segments and oriented edges', 'rene/_clipping/mixed.py'),
     ('shortcuts by bounding boxes', 'rene/_clipping/intersection.py, '
      'difference.py')],
    ['results of & and - between linear and shaped geometries'], SWEEP_STATE,
)
prop(
    'C07', 'Laws of the empty set and of equal operands; rejected operands',
    'For every geometry, the four operations and the relation with the empty '
    'geometry, with itself and with an equal geometry presented differently '
    'give what sets give: x & empty = empty, x | empty = x - empty = '
    'x ^ empty = x, x - x = x ^ x = empty, x & x = x | x = x, in that type. '
    'Operations of a line with a region whose result would be neither, and '
    'operands that are not geometries, are rejected with a type error.',
    'every valid geometry of every kind; every unsupported pair of kinds',
    'Tests try random geometries one kind at a time in one presentation; '
    'operands sharing all of their boundary are swept as coincident edges, '
    'which a change can break for particular slopes or presentations only.',
    ['rene/_geometries/base_empty.py', 'rene/_geometries/base_segment.py',
     'rene/_geometries/base_multisegment.py',
     'rene/_geometries/base_contour.py', 'rene/_geometries/base_polygon.py',
     'rene/_geometries/base_multipolygon.py', 'rene/_clipping/shaped.py'],
    [('dispatch over kinds of operands', 'rene/_geometries/base_*.py'),
     ('coincident edges of both operands', 'rene/_clipping/shaped.py, '
      'linear.py')],
    ['results of operators and of the relation query'],
)
REL = ['rene/_relating/utils.py', 'rene/_relating/event.py',
       'rene/_relating/sweep_line_key.py',
       'rene/_relating/events_queue_key.py', 'rene/enums.py']
DEF = (
    'as its documentation defines them (equal, disjoint, touch, cross, '
    'overlap, cover, encloses, composite, component, enclosed, within)'
)
prop(
    'C08', 'Exact topological relation of regions',
    'For any two valid polygons or multipolygons the reported relation is the '
    f'one their point sets are in, {DEF}, whatever way their contours are '
    'presented. The query never fails.',
    'every pair of valid polygons and multipolygons with rational coordinates',
    REL_TESTS,
    REL + ['rene/_relating/polygon.py', 'rene/_relating/multipolygon.py',
           'rene/_relating/shaped.py'],
    [('sweep over the edges and classification of them',
      'rene/_relating/shaped.py'),
     ('shortcuts by bounding boxes', 'rene/_relating/polygon.py, '
      'multipolygon.py')],
    ['result of the relation query'],
)
prop(
    'C09', 'Exact topological relation of linear geometries',
    'For any two valid segments, multisegments or contours the reported '
    f'relation is the one their point sets are in, {DEF}, whatever way they '
    'are presented. The query never fails.',
    'every pair of valid segments, multisegments and contours',
    REL_TESTS,
    REL + ['rene/_relating/segment.py', 'rene/_relating/segment_endpoints.py',
           'rene/_relating/multisegment.py',
           'rene/_relating/multisegmental.py', 'rene/_relating/contour.py',
           'rene/_relating/linear.py'],
    [('sweep over the segments', 'rene/_relating/linear.py'),
     ('relation of a segment with a collection of segments',
      'rene/_relating/segment_endpoints.py')],
    ['result of the relation query'],
)
prop(
    'C10', 'Exact topological relation of lines with regions',
    'For any valid linear geometry and any valid polygon or multipolygon, '
    'either way round, the reported relation is the one their point sets are '
    f'in, {DEF}, whatever way they are presented. The query never fails.',
    'every valid segment, multisegment or contour with every valid polygon or '
    'multipolygon, both ways round',
    REL_TESTS,
    REL + ['rene/_relating/mixed.py', 'rene/_relating/segment.py',
           'rene/_relating/multisegmental.py', 'rene/_relating/polygon.py',
           'rene/_relating/multipolygon.py',
           'rene/_relating/segment_endpoints.py'],
    [('sweep over segments and oriented edges', 'rene/_relating/mixed.py'),
     ('segment against oriented edges', 'rene/_relating/segment_endpoints.py'),
     ('choice of parts with common bounding boxes',
      'rene/_relating/multisegmental.py, multipolygon.py')],
    ['result of the relation query'],
)
prop(
    'C11', 'Relations are converse and independent of the axes',
    'For any two valid geometries of any kinds, the relation of the second to '
    'the first is the converse of the relation of the first to the second, '
    'and taking the converse twice changes nothing. The relation does not '
    'change when both geometries are mirrored or turned by a right angle.',
    'every ordered pair of valid geometries of every kinds',
    REL_TESTS,
    REL + ['rene/_relating/shaped.py', 'rene/_relating/mixed.py',
           'rene/_relating/linear.py', 'rene/_relating/segment_endpoints.py',
           'rene/_enums.py'],
    [('converse relation', 'rene/_enums.py, Relation.complement'),
     ('dispatch of swapped operands', 'rene/_relating/*.py')],
    ['results of two relation queries'],
)
prop(
    'C12', 'Exact point location in every kind of geometry',
    'For every valid geometry and every point, the point is reported on the '
    'boundary, in the interior or in the exterior exactly as it lies (points '
    'of a line are its boundary, points of a region on a contour its '
    'boundary), and membership is not being in the exterior.',
    'every valid geometry of every kind and every rational point',
    'Random points are almost never on a boundary, at the ordinate of a '
    'vertex or collinear with an edge, which are the cases a ray crossing '
    'rule gets wrong.',
    ['rene/_utils.py', 'rene/_geometries/base_polygon.py',
     'rene/_geometries/base_multipolygon.py',
     'rene/_geometries/base_contour.py', 'rene/_geometries/base_segment.py',
     'rene/_geometries/base_multisegment.py'],
    [('ray crossing count', 'rene/_utils.py, locate_point_in_region'),
     ('point on a segment', 'rene/_utils.py, locate_point_in_segment'),
     ('border, then holes', 'rene/_geometries/base_polygon.py')],
    ['location and membership of a point'],
)
prop(
    'C13', 'Point location by trapezoidation, whatever the insertion order',
    'For every valid polygon, every multisegment whose segments do not cross '
    'or overlap, every order of insertion of the edges (every value of the '
    'seeder) and every point, the trapezoidation locates the point exactly '
    'where it lies. Seeds that are not integers of 64 bits are rejected.',
    'every valid polygon or multisegment, every seed, every rational point',
    'Tests use the default random seeder and random points: the number of '
    'orders is factorial and points on edges, at vertices or on a common '
    'vertical with one have measure zero.',
    ['rene/_seidel/trapezoidation.py', 'rene/_seidel/edge.py',
     'rene/_seidel/x_node.py', 'rene/_seidel/y_node.py',
     'rene/_seidel/leaf.py', 'rene/_seidel/trapezoid.py', 'rene/_utils.py',
     'rene/_exact/trapezoidation.py'],
    [('insertion of an edge into the search graph',
      'rene/_seidel/trapezoidation.py'),
     ('point location', 'rene/_seidel/x_node.py, y_node.py, leaf.py'),
     ('order of insertion', 'rene/_utils.py, permute')],
    ['location of a point in a trapezoidation'],
    [('search graph', 'nodes that split the plane by abscissa or by edge',
      'rene/_seidel/node.py')],
    over=('inputs', 'schedules'),
)
prop(
    'C14', 'Delaunay triangulation of point sets',
    'The triangles of the Delaunay triangulation of any set of points cover '
    'its convex hull without overlapping, use all the points and no others, '
    'and no point is strictly inside the circle about a triangle. The '
    'reported border is the boundary of the hull; repeated points change '
    'nothing, collinear points give no triangles.',
    'every finite set of rational points in every order',
    'Cocircular, collinear and repeated points, where the construction '
    'branches, are of measure zero among random points, and the tests do not '
    'check emptiness of circles.',
    ['rene/_triangulation/delaunay.py', 'rene/_triangulation/mesh.py',
     'rene/_triangulation/quad_edge.py', 'rene/_utils.py',
     'rene/_exact/triangulation.py'],
    [('divide and conquer over sorted points', 'rene/_triangulation/mesh.py'),
     ('circle test', 'rene/_utils.py, '
      'locate_point_in_point_point_point_circle')],
    ['border and triangles of a triangulation'],
    [('mesh', 'quad-edge records of the subdivision',
      'rene/_triangulation/mesh.py')],
)
prop(
    'C15', 'Constrained Delaunay triangulation of polygons',
    'The triangles of the constrained Delaunay triangulation of any valid '
    'polygon cover the polygon without overlapping, leave its holes out, and '
    'use its vertices only; every edge of its contours is kept. No vertex '
    'visible through an inner edge is strictly inside the circle about the '
    'triangle on its other side. It always terminates.',
    'every valid polygon, with or without holes, in every presentation',
    'Tests check counts on random polygons of one orientation; holes that '
    'touch the border, cocircular vertices and particular presentations '
    'are not drawn.',
    ['rene/_triangulation/constrained_delaunay.py',
     'rene/_triangulation/mesh.py', 'rene/_utils.py',
     'rene/_exact/triangulation.py'],
    [('insertion of contour edges and flipping',
      'rene/_triangulation/constrained_delaunay.py'),
     ('cutting holes and pockets',
      'rene/_triangulation/constrained_delaunay.py')],
    ['border and triangles of a triangulation'],
    [('mesh', 'quad-edge records of the subdivision',
      'rene/_triangulation/mesh.py')],
)
prop(
    'C16', 'Validity and orientation of contours',
    'A contour is reported valid exactly when it is a simple closed polyline '
    'in which no three consecutive vertices are collinear: edges meet their '
    'neighbours in the common vertex only and other edges nowhere. The '
    'reported orientation of a valid contour is the sign of the area it goes '
    'around. The answers do not depend on the start vertex, and reversing '
    'the vertices only inverts the orientation.',
    'every sequence of three or more rational points',
    'Random contours are either generated valid or invalid in a generic way; '
    'edges touching in a vertex, overlapping or repeated vertices are not '
    'drawn, and the tests never state what the answer has to be.',
    ['rene/_geometries/base_contour.py', 'rene/_utils.py',
     'rene/_bentley_ottmann/base.py',
     'rene/_bentley_ottmann/events_registry.py'],
    [('sweep for intersections', 'rene/_bentley_ottmann/base.py'),
     ('neighbour test', 'rene/_geometries/base_contour.py'),
     ('orientation at the smallest vertex', 'rene/_utils.py')],
    ['validity and orientation of a contour'],
)
prop(
    'C17', 'Validity of multisegments',
    'A multisegment whose segments have at most end points in common is '
    'reported valid, and one with two segments that cross, overlap or '
    'coincide is reported invalid. The answer does not depend on the order '
    'or the direction of the segments and the query never fails.',
    'every multisegment with rational coordinates',
    'The tests state only that the answer is a boolean that does not change '
    'under reordering; random segments do not overlap or share end points.',
    ['rene/_geometries/base_multisegment.py',
     'rene/_bentley_ottmann/base.py',
     'rene/_bentley_ottmann/events_registry.py',
     'rene/_bentley_ottmann/sweep_line_key.py',
     'rene/_bentley_ottmann/events_queue_key.py'],
    [('sweep for intersections', 'rene/_bentley_ottmann/base.py')],
    ['validity of a multisegment'],
)
prop(
    'C18', 'Relations of boxes',
    'For any two boxes of positive width and height, the relation and each of '
    'the predicates (covers, disjoint, enclosed by, encloses, equals, '
    'overlaps, touches, within) are exactly those of the two rectangles as '
    'sets, exactly one of the eight holds, and the relation of the swapped '
    'boxes is the converse. A box is valid exactly when neither of its '
    'minimums exceeds its maximum; boxes are equal exactly when their limits '
    'are.',
    'every pair of boxes: eight arbitrary rational numbers',
    'Random limits almost never coincide, so most of the 169 mutual '
    'positions are not drawn.',
    ['rene/_geometries/base_box.py', 'rene/_exact/box.py'],
    [('comparison of limits', 'rene/_geometries/base_box.py')],
    ['predicates, relation, equality and hash of boxes'],
)
prop(
    'C19', 'Tight bounding boxes',
    'The bounding box of every geometry is the smallest axis-parallel '
    'rectangle that contains it.',
    'every segment, multisegment, contour, polygon and multipolygon',
    'Tests state containment on random geometries; a limit that is off for a '
    'particular order of coordinates passes.',
    ['rene/_geometries/base_segment.py',
     'rene/_geometries/base_multisegment.py',
     'rene/_geometries/base_contour.py', 'rene/_geometries/base_polygon.py',
     'rene/_geometries/base_multipolygon.py', 'rene/_utils.py'],
    [('minimums and maximums', 'rene/_geometries/base_*.py'),
     ('merging of boxes', 'rene/_utils.py, merge_boxes')],
    ['bounding box of a geometry'],
)
prop(
    'C20', 'Equality, hash and order of geometries',
    'Geometries of a kind are equal exactly when one is another presentation '
    'of the other (endpoints swapped, contours started elsewhere or '
    'reversed, segments, holes or polygons permuted); equal geometries have '
    'equal hashes and geometries of different kinds are unequal. For valid '
    'contours, polygons and multipolygons equality is the same as the '
    'relation "equal". Points are ordered totally, by abscissa first.',
    'every pair and presentation of geometries',
    'Tests compare geometries of random coordinates, which share no vertices '
    'unless they are the same object.',
    ['rene/_geometries/base_point.py', 'rene/_geometries/base_segment.py',
     'rene/_geometries/base_multisegment.py',
     'rene/_geometries/base_contour.py', 'rene/_geometries/base_polygon.py',
     'rene/_geometries/base_multipolygon.py'],
    [('cyclic comparison of vertices', 'rene/_geometries/base_contour.py'),
     ('hash of the normal form', 'rene/_geometries/base_contour.py')],
    ['==, !=, hash, <, <=, >, >='],
)
prop(
    'C21', 'Operations do not depend on presentation and leave operands alone',
    'Presenting the operands differently (contours started elsewhere or '
    'reversed, segments, holes and parts permuted, endpoints swapped) does '
    'not change the set an operation gives, nor does swapping the operands '
    'of an intersection, a union or a symmetric difference. No operation or '
    'query changes its operands.',
    'every pair of valid geometries, in every presentation',
    OPS_TESTS,
    CLIP + ['rene/_clipping/linear.py', 'rene/_clipping/mixed.py',
            'rene/_utils.py'],
    [('orientation of contours before the sweep', 'rene/_utils.py'),
     ('dispatch of swapped operands', 'rene/_geometries/base_*.py')],
    ['results of the operators'],
)
prop(
    'C22', 'Algebra of sets on computed operands',
    'Results of operations serve as operands: for any two valid geometries '
    '(a - b) | (a & b) is a, (a | b) - b is a - b, (a - b) | (b - a) and '
    '(a | b) - (a & b) are a ^ b, (a - b) & b is empty, a & (a | b) and '
    'a | (a & b) are a. The laws hold for the sets and, for regions, for '
    'the relation query as well.',
    'every pair of valid geometries of the same dimension; sequences of two '
    'to three operations',
    OPS_TESTS, CLIP + ['rene/_clipping/linear.py'],
    [('results reused as operands', 'rene/_clipping/*.py')],
    ['results of sequences of operators'],
    over=('inputs', 'programs'),
)
prop(
    'C23', 'Components are exposed as given; too few are rejected',
    'A geometry exposes exactly the components it was made of, in their '
    'order, through read-only sequences that count, search, slice and compare '
    'as tuples of them do (negative and out of range positions included), '
    'whatever happens later to the list it was made of; the edges of a '
    'contour join consecutive vertices and the last one with the first. '
    'Its textual forms evaluate to an equal geometry with the same components '
    'in the same order. Contours of less than three vertices, multisegments '
    'and multipolygons of less than two components are rejected with '
    'ValueError when they are made.',
    'every geometry, every index and slice',
    'Tests sample indices and slices of random geometries.',
    ['rene/_exact/contour.py', 'rene/_exact/multisegment.py',
     'rene/_exact/polygon.py', 'rene/_exact/multipolygon.py',
     'rene/_exact/segment.py', 'rene/_exact/point.py'],
    [('sequence views', 'rene/_exact/*.py'),
     ('textual form', 'rene/_geometries/base_*.py')],
    ['attributes, sequences, repr'],
)
prop(
    'C90', 'The Rust and the Python implementation agree',
    'The compiled extension and the pure Python implementation give equal '
    'results for equal calls.',
    'every call of the public interface',
    'Tests run against one implementation at a time.',
    ['src/lib.rs', 'rene/exact.py'],
    [('choice of the implementation', 'rene/exact.py')],
    ['every public result'], over=('inputs', 'configurations'),
)
NOT_APPLICABLE = [dict(
    property='C90',
    reason='The Rust half cannot be compiled here: its dependencies (pyo3, '
    'rithm, traiter and others) are not in the offline cargo cache, so '
    'neither its MIR nor the extension module can be produced and there is '
    'nothing to execute symbolically or to replay a counterexample against.',
)]
NOTES = {
    'C18': 'Fully symbolic: all eight limits are solver variables, so within '
    'exact rational arithmetic there is no bound but the number of boxes.',
    'C19': 'All coordinates are solver variables; bounded by the numbers of '
    'vertices, segments and parts.',
}
LEVEL_NOTE = (
    'Dynamic symbolic execution of the real Python functions from '
    "/repo's working tree over a symbolic rational scalar: every branch on "
    'coordinates is a decision, Z3 (linear or nonlinear real arithmetic) '
    'enumerates the feasible sign combinations, and the property is asserted '
    'on every path against an independent oracle. A pass means that the '
    'property holds for every rational value of the parameters of the listed '
    'scenes; nothing is claimed outside of them. Candidates are replayed on '
    'the real code before being reported. Trusted: Z3, the exact arithmetic '
    'of rithm, hashing modelled as injective.'
)


def main():
    have = {
        f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
        if f.startswith('c') and f.endswith('.py')
    }
    na = {d['property'] for d in NOT_APPLICABLE}
    props = [p for p in P if p['id'] in have | na]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in props:
            f.write(json.dumps(p) + '\n')
    checks = [
        dict(
            property=p['id'],
            quick_cmd=f'./check.py {p["id"]} --tier quick',
            thorough_cmd=f'./check.py {p["id"]} --tier thorough',
            evidence_file=f'evidence/{p["id"]}.json',
            technique='symbolic execution of the real Python code with an SMT '
                      'solver (Z3) deciding every path',
            level='model_checking',
            level_note=(NOTES.get(p['id'], '') + ' ' + LEVEL_NOTE).strip(),
        )
        for p in props if p['id'] not in na
    ]
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(
            version=1, setup_cmd='./setup.sh', checks=checks,
            not_applicable=NOT_APPLICABLE,
            notes='No hooks in /repo: checks import /repo/rene afresh on '
                  'every run. See DESIGN.md.',
        ), f, indent=1)
        f.write('\n')


main()
