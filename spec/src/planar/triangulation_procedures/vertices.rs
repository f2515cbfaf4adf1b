//! C13 - C15: constrained Bowyer-Watson insertion with a conflict map.
use crate::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use crate::planar::triangulation::Triangulation;
use crate::properties::continence::Continence;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

type Conflicts = HashMap<Rc<Triangle>, Vec<Rc<Vertex>>>;
type Triangles = HashSet<Rc<Triangle>>;

/// C14: only vertices not yet present are inserted; each is offered to the triangles in turn
pub fn include(
    triangulation: &mut Triangulation,
    vertices: Vec<Rc<Vertex>>,
    segment_constraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> (Triangles, Triangles) {
    let present = triangulation.vertices();
    let mut waiting: Vec<Rc<Vertex>> = Vec::new();
    for v in vertices.iter() {
        if !present.contains(v) {
            waiting.push(v.clone());
        }
    }
    let mut conflicts: Conflicts = HashMap::new();
    for triangle in triangulation.triangles.iter() {
        if waiting.is_empty() {
            break;
        }
        distribute_conflicts(triangle, &mut conflicts, &mut waiting, boundary, holes);
    }
    solve_conflicts(triangulation, &mut conflicts, &mut waiting, segment_constraints, boundary, holes)
}

/// C13, C24
pub fn solve_conflicts(
    triangulation: &mut Triangulation,
    conflict_map: &mut Conflicts,
    remaining_vertices: &mut Vec<Rc<Vertex>>,
    segment_constraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> (Triangles, Triangles) {
    let mut included: Triangles = HashSet::new();
    let mut removed: Triangles = HashSet::new();
    while let Some(first) = conflict_map.keys().next().cloned() {
        // one conflicting vertex is inserted, the others wait for a new triangle
        let mut others = conflict_map.remove(&first).unwrap();
        let vertex = others.pop().unwrap();
        remaining_vertices.append(&mut others);

        triangulation.remove_triangle(&first);
        removed.insert(first.clone());
        let (a, b, c) = first.inner_edges();
        let mut rim = vec![a, b, c];
        while let Some(edge) = rim.pop() {
            let across = Rc::new(edge.opposite());
            let outer = triangulation.adjacency.get(&across).unwrap().clone();

            // a ghost is also conflicting when the vertex lies on its solid edge
            let conflicting = outer.encircles(&vertex) == Continence::Inside
                || (outer.is_ghost() && Edge::new(&outer.v1, &outer.v2).contains(&vertex));
            let constrained = segment_constraints.contains(&edge) || segment_constraints.contains(&across);
            let allowed = may_insert_triangle(&outer, &vertex, boundary, holes);

            if conflicting && allowed && !constrained {
                triangulation.remove_triangle(&outer);
                removed.insert(outer.clone());
                if let Some(mut displaced) = conflict_map.remove(&outer) {
                    remaining_vertices.append(&mut displaced);
                }
                let (a, b, c) = outer.inner_edges();
                let (p, q) = if across == a {
                    (b, c)
                } else if across == b {
                    (a, c)
                } else {
                    (a, b)
                };
                rim.push(p);
                rim.push(q);
            } else {
                // ghost vertices always come last
                let new = Rc::new(if edge.v1.is_ghost {
                    Triangle::new(&edge.v2, &vertex, &edge.v1)
                } else if edge.v2.is_ghost {
                    Triangle::new(&vertex, &edge.v1, &edge.v2)
                } else {
                    Triangle::new(&edge.v1, &edge.v2, &vertex)
                });
                triangulation.include_triangle(&new);
                included.insert(new.clone());
                distribute_conflicts(&new, conflict_map, remaining_vertices, boundary, holes);
            }
        }
    }
    (included, removed)
}

/// C14: the vertices a triangle encircles move to its list, the others stay
fn distribute_conflicts(
    triangle: &Rc<Triangle>,
    conflict_map: &mut Conflicts,
    vertices: &mut Vec<Rc<Vertex>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) {
    let mut taken: Vec<Rc<Vertex>> = Vec::new();
    let mut kept: Vec<Rc<Vertex>> = Vec::new();
    for vertex in vertices.iter() {
        if triangle.encircles(vertex) == Continence::Inside && may_insert_triangle(triangle, vertex, boundary, holes) {
            taken.push(vertex.clone());
        } else {
            kept.push(vertex.clone());
        }
    }
    *vertices = kept;
    if !taken.is_empty() {
        conflict_map.entry(triangle.clone()).or_insert(Vec::new()).append(&mut taken);
    }
}

/// C14: breadth of solid triangles reachable from the start
pub fn distribute_conflicts_over_triangulation(
    triangulation: &mut Triangulation,
    initial_triangle: Option<Rc<Triangle>>,
    conflict_map: &mut Conflicts,
    vertices: &mut Vec<Rc<Vertex>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) {
    let start = match initial_triangle {
        Some(triangle) => triangle,
        None => triangulation.triangles.iter().next().unwrap().clone(),
    };
    let mut seen: Triangles = HashSet::new();
    seen.insert(start.clone());
    let mut pending = vec![start];
    while !pending.is_empty() && !vertices.is_empty() {
        let triangle = pending.pop().unwrap();
        let (a, b, c) = triangle.outer_edges();
        for edge in vec![a, b, c].iter() {
            if let Some(next) = triangulation.adjacency.get(edge) {
                if !next.is_ghost() && !seen.contains(next) {
                    seen.insert(next.clone());
                    pending.push(next.clone());
                }
            }
        }
        distribute_conflicts(&triangle, conflict_map, vertices, boundary, holes);
    }
}

/// C15: the way from the triangle to the vertex stays inside the boundary and outside all holes
fn may_insert_triangle(
    triangle: &Rc<Triangle>,
    target_vertex: &Rc<Vertex>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> bool {
    let way = if triangle.is_ghost() {
        Polyline::new_closed(vec![triangle.v1.clone(), triangle.v2.clone(), target_vertex.clone()])
    } else {
        Polyline::new_opened(vec![Rc::new(triangle.center()), target_vertex.clone()])
    };
    let way = way.unwrap();
    let within = match boundary {
        None => true,
        Some(outline) => match Polyline::continence(outline, &way) {
            None => false,
            Some((side, _)) => side != Continence::Outside,
        },
    };
    let clear = holes.iter().all(|hole| match Polyline::continence(hole, &way) {
        None => false,
        Some((side, _)) => side != Continence::Inside,
    });
    within && clear
}
