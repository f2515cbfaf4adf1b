"""Which functions are summarised on their own and referred to by name elsewhere."""
P = 'nlsn_delaunay::'
_OPQ = '''
properties::orientation::orientation
properties::continence::continence


properties::intersection::intersection
properties::intersection::intersection_vertex
properties::intersection::intersection_region
properties::circumcenter::circumcenter
properties::area::area_triangle
properties::area::area_segments
properties::angle::angle
properties::encroachment::encroach
elements::edge::Edge::contains
elements::edge::Edge::encroach
elements::edge::Edge::decompose
elements::edge::Edge::arrange
elements::triangle::Triangle::encircles
elements::triangle::Triangle::circumcenter
elements::triangle::Triangle::quality
elements::triangle::Triangle::area
elements::polyline::Polyline::contains
elements::polyline::Polyline::continence
elements::polyline::Polyline::intersection
elements::polyline::Polyline::intersection_vertices
elements::polyline::Polyline::subtraction
elements::polyline::Polyline::union
elements::polyline::Polyline::minified_noncolinear
elements::polyline::Polyline::triangles_hull
elements::polyline::Polyline::arrange
elements::polyline::segments_orientation
elements::polyline::split_intersections
elements::bounding_box::BoundingBox::from_vertices
elements::bounding_box::BoundingBox::intersection
elements::bounding_box::BoundingBox::contains
elements::bounding_box::BoundingBox::union
elements::bounding_box::BoundingBox::union_list
planar::triangulation::Triangulation::include_triangle
planar::triangulation::Triangulation::remove_triangle
planar::triangulation::Triangulation::from_initial_segment
planar::triangulation_procedures::boundary::include
planar::triangulation_procedures::hole::include
planar::triangulation_procedures::segment::include
planar::triangulation_procedures::vertices::include
planar::triangulation_procedures::vertices::may_insert_triangle
planar::triangulation_procedures::vertices::solve_conflicts
planar::triangulation_procedures::vertices::distribute_conflicts
planar::triangulation_procedures::vertices::distribute_conflicts_over_triangulation
planar::refine_procedures::encroachment::distribute_encroachments
planar::refine_procedures::encroachment::split_segment
planar::refine_procedures::encroachment::unencroach
planar::refine_procedures::encroachment::unencroach_segment
planar::refine_procedures::triangle_split::is_irregular_triangle
planar::refine_procedures::triangle_split::is_large_triangle
planar::refine_procedures::triangle_split::split_irregular
planar::refine_procedures::triangle_split::split_large
planar::refine_procedures::triangle_split::try_circumcenter_insertion
planar::triangulator::Triangulator::triangulate
planar::triangulator::Triangulator::refine
planar::triangulator::Triangulator::insert_vertices
planar::triangulator::Triangulator::insert_segments
planar::triangulator::Triangulator::insert_hole
planar::triangulator::Triangulator::new
triangulator_interface::parse
triangulator_interface::interpreter::parse
triangulator_interface::interpreter::polyline_parser::parse
triangulator_interface::interpreter::circle_parser::parse
triangulator_interface::interpreter::segments_parser::parse
triangulator_interface::interpreter::vertices_parser::parse
triangulator_interface::domain_evaluator::boundary
triangulator_interface::domain_evaluator::holes
json_serializar::models::output::TriangulationOutput::from_triangulator
glium_interface::display::new
glium_interface::edges::draw
glium_interface::vertex::Vertex::edges_from_triangulation
'''
OPAQUE = frozenset(P + l.strip() for l in _OPQ.split('\n') if l.strip())

import coll
coll.STRUCT_EQ[P + 'elements::edge::Edge'] = (('v1', P + 'elements::vertex::Vertex'), ('v2', P + 'elements::vertex::Vertex'))


SECONDS = 60
# referred to by name only inside one function
LOCAL = {
    'elements::edge::Edge::arrange': ('elements::edge::Edge::arrange::remove_edge', 'properties::dot::dot'),
}


def local(name):
    return [P + n for n in LOCAL.get(name.replace(P, ''), ())]


# functions whose aborts are part of what they do
TRACKED = '''
main
triangulator_interface::*
json_serializar::*
'''.split()


def tracked(name):
    import fnmatch
    n = name.replace('nlsn_delaunay::', '')
    return any(fnmatch.fnmatchcase(n, p) for p in TRACKED) and 'from_triangulator' not in n


# outputs without meaning of their own
IGNORE = {P + 'elements::polyline::Polyline::minified_noncolinear': ('aborts',)}
E = 'elements::'
PROPS = {
    'C01': """properties::orientation::orientation properties::continence::continence
        properties::encroachment::encroach properties::parallel::parallel
        elements::edge::Edge::encroach elements::triangle::Triangle::encircles
        elements::triangle::Triangle::is_ghost""",
    'C02': """properties::distance::distance properties::dot::dot properties::midpoint::midpoint
        properties::area::area_triangle properties::area::area_segments properties::circumcenter::circumcenter
        properties::angle::angle elements::edge::Edge::length elements::edge::Edge::midpoint
        elements::triangle::Triangle::area elements::triangle::Triangle::circumcenter
        elements::triangle::Triangle::quality elements::triangle::Triangle::center""",
    'C03': """properties::intersection::intersection properties::intersection::intersection_region
        properties::intersection::intersection_vertex elements::bounding_box::BoundingBox::intersection
        elements::bounding_box::BoundingBox::from_vertices""",
    'C04': """elements::bounding_box::BoundingBox::* elements::edge::Edge::contains
        elements::polyline::Polyline::bounding_box""",
    'C05': """<elements::vertex::Vertex*PartialEq*eq <elements::edge::Edge*PartialEq*eq
        <elements::triangle::Triangle*PartialEq*eq <elements::polyline::Polyline*PartialEq*eq
        <elements::bounding_box::BoundingBox*PartialEq*eq <elements::vertex::Vertex*cmp elements::vertex::Vertex::sort""",
    'C07': """elements::triangle::Triangle::inner_edges elements::triangle::Triangle::outer_edges
        elements::triangle::Triangle::opposite_vertex elements::triangle::Triangle::opposite_edge
        elements::triangle::Triangle::new elements::triangle::Triangle::as_polyline
        elements::edge::Edge::new elements::edge::Edge::opposite""",
    'C08': """elements::polyline::vertex_pairs elements::polyline::Polyline::into_edges
        elements::polyline::Polyline::contains elements::polyline::Polyline::new_closed
        elements::polyline::Polyline::new_opened elements::polyline::Polyline::head elements::polyline::Polyline::tail""",
    'C09': """elements::polyline::Polyline::continence elements::polyline::Polyline::contains
        elements::polyline::split_intersections""",
    'C10': """elements::polyline::split_intersections elements::polyline::Polyline::intersection_vertices
        elements::edge::Edge::decompose elements::edge::Edge::into_hashmap elements::edge::Edge::arrange
        elements::edge::Edge::arrange::remove_edge
        elements::edge::Edge::from_vertex_pairs elements::polyline::segments_orientation""",
    'C11': """elements::polyline::Polyline::triangles_hull elements::polyline::Polyline::arrange
        elements::polyline::Polyline::minified_noncolinear""",
    'C12': """planar::triangulation::Triangulation::*""",
    'C13': """planar::triangulation_procedures::vertices::solve_conflicts
        elements::triangle::Triangle::encircles elements::triangle::Triangle::inner_edges
        planar::triangulation::Triangulation::include_triangle planar::triangulation::Triangulation::remove_triangle""",
    'C14': """planar::triangulation_procedures::vertices::include
        planar::triangulation_procedures::vertices::distribute_conflicts
        planar::triangulation_procedures::vertices::distribute_conflicts_over_triangulation
        planar::triangulation_procedures::vertices::solve_conflicts planar::triangulation::Triangulation::vertices""",
    'C15': """planar::triangulation_procedures::vertices::may_insert_triangle
        planar::triangulation_procedures::vertices::distribute_conflicts
        planar::triangulation_procedures::vertices::solve_conflicts elements::triangle::Triangle::center""",
    'C16': """planar::triangulation_procedures::boundary::include""",
    'C17': """planar::triangulation_procedures::hole::include""",
    'C18': """planar::triangulation_procedures::segment::include""",
    'C19': """planar::triangulator::Triangulator::insert_vertices""",
    'C20': """planar::triangulator::Triangulator::insert_segments elements::edge::Edge::into_vertex_pairs
        elements::edge::Edge::from_vertex_pairs elements::polyline::split_intersections""",
    'C21': """planar::triangulator::Triangulator::insert_hole""",
    'C22': """planar::triangulator::Triangulator::new planar::triangulator::Triangulator::triangulate
        planar::triangulation::Triangulation::from_initial_segment elements::polyline::Polyline::into_edges""",
    'C23': """planar::refine_procedures::encroachment::unencroach
        planar::refine_procedures::encroachment::unencroach_segment
        planar::refine_procedures::encroachment::distribute_encroachments
        planar::refine_procedures::encroachment::split_segment""",
    'C24': """planar::refine_procedures::triangle_split::try_circumcenter_insertion
        planar::triangulation_procedures::vertices::solve_conflicts
        planar::triangulation_procedures::vertices::include
        planar::refine_procedures::encroachment::unencroach planar::refine_procedures::encroachment::unencroach_segment
        planar::refine_procedures::encroachment::split_segment""",
    'C25': """planar::refine_procedures::triangle_split::split_irregular
        planar::refine_procedures::triangle_split::try_circumcenter_insertion
        planar::refine_procedures::triangle_split::is_irregular_triangle
        planar::refine_procedures::triangle_split::is_large_triangle""",
    'C26': """planar::triangulator::Triangulator::refine planar::refine_procedures::encroachment::split_segment
        planar::refine_procedures::encroachment::unencroach planar::refine_procedures::encroachment::unencroach_segment
        planar::refine_procedures::triangle_split::split_irregular""",
    'C06': """elements::triangle::Triangle::is_ghost elements::triangle::Triangle::area
        elements::triangle::Triangle::circumcenter elements::triangle::Triangle::quality
        elements::triangle::Triangle::as_polyline elements::edge::Edge::as_polyline elements::edge::Edge::midpoint
        elements::vertex::Vertex::new elements::vertex::Vertex::new_ghost
        planar::triangulation::Triangulation::vertices
        glium_interface::vertex::Vertex::triangles_from_triangulation
        glium_interface::vertex::Vertex::edges_from_triangulation
        json_serializar::models::output::TriangulationOutput::from_triangulator
        planar::refine_procedures::triangle_split::split_irregular
        planar::refine_procedures::triangle_split::is_irregular_triangle
        planar::refine_procedures::triangle_split::is_large_triangle""",
    'C27': """json_serializar::models::output::TriangulationOutput::from_triangulator
        json_serializar::models::point::Point::from_vertex json_serializar::models::tesselations::Triangle::new
        planar::triangulation::Triangulation::vertices""",
    'C28': """triangulator_interface::interpreter::* json_serializar::models::action::empty_*
        json_serializar::models::point::zero_f64""",
    'C29': """triangulator_interface::domain_evaluator::*""",
    'C30': """triangulator_interface::parse main json_serializar::io::read json_serializar::io::write""",
    'C33': """elements::polyline::Polyline::intersection elements::polyline::Polyline::union
        elements::polyline::Polyline::subtraction elements::polyline::split_intersections
        elements::polyline::vertex_pairs elements::polyline::segments_orientation""",
    'C31': """elements::vertex::Vertex::from_coordinates elements::edge::Edge::from_coordinates
        elements::edge::Edge::from_vertices glium_interface::vertex::Vertex::*""",
}

ASSUMPTIONS = [
    'rustc nightly MIR construction and the models of core/alloc/std/nalgebra/float-cmp calls in engine/models.py',
    'floating-point arithmetic is treated as real arithmetic; integer overflow does not occur',
    'the specification in /verif/spec states the property',
]


def patterns(prop):
    return [p for p in PROPS.get(prop, '').split()]


def full(p):
    return '<nlsn_delaunay::' + p[1:] if p.startswith('<') else p


def functions(prop, ctx, tier='quick'):
    import fnmatch
    names = sorted({n.split('__')[0] for n in ctx.S.bodies if '{' not in n})
    out = []
    for p in patterns(prop):
        bare = [n for n in names if fnmatch.fnmatchcase(n.replace('nlsn_delaunay::', ''), p)]
        if not bare:
            raise SystemExit('no specification matches ' + p)
        out += [n for n in bare if n not in out]
    if tier == 'thorough':
        import refs
        out = refs.closure(ctx, out)
    return out
