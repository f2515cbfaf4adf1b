//! C17: hole vertices and segments are recovered, the inside emptied, ghosts put on its outline.
use crate::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use crate::planar::triangulation::Triangulation;
use crate::planar::triangulation_procedures::{segment, vertices};
use std::collections::HashSet;
use std::rc::Rc;

pub fn include(triangulation: &mut Triangulation, hole: &Rc<Polyline>, segment_constraints: &HashSet<Rc<Edge>>) {
    let outline: HashSet<Rc<Edge>> = hole.into_edges().into_iter().collect();
    vertices::include(triangulation, hole.vertices.clone(), segment_constraints, &None, &HashSet::new());

    let mut constraints = segment_constraints.clone();
    constraints.extend(outline.iter().cloned());
    loop {
        let present = triangulation.edges();
        match outline.iter().find(|e| !present.contains(*e)) {
            None => break,
            Some(missing) => segment::include(triangulation, missing, &constraints),
        }
    }

    let ghost = Rc::new(Vertex::new_ghost());
    let mut front: Vec<Rc<Edge>> = Vec::new();
    for edge in outline.iter() {
        if let Some(t) = triangulation.adjacency.get(edge).cloned() {
            triangulation.remove_triangle(&t);
            let (a, b, c) = t.inner_edges();
            for side in vec![a, b, c] {
                if !outline.contains(&side) {
                    front.push(Rc::new(side.opposite()));
                }
            }
        }
        triangulation.include_triangle(&Rc::new(Triangle::new(&edge.v1, &edge.v2, &ghost)));
    }
    while let Some(edge) = front.pop() {
        if let Some(t) = triangulation.adjacency.get(&edge).cloned() {
            triangulation.remove_triangle(&t);
            let (a, b, c) = t.inner_edges();
            for side in vec![a, b, c] {
                front.push(Rc::new(side.opposite()));
            }
        }
    }
}
