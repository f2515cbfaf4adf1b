//! C16: everything outside the boundary is emptied and closed off by ghost triangles.
use crate::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use crate::planar::triangulation::Triangulation;
use crate::planar::triangulation_procedures::vertices;
use std::collections::HashSet;
use std::rc::Rc;

pub fn include(triangulation: &mut Triangulation, boundary: &Rc<Polyline>, segment_constraints: &HashSet<Rc<Edge>>) {
    let outward: HashSet<Rc<Edge>> = boundary.into_edges().iter().map(|e| Rc::new(e.opposite())).collect();
    vertices::include(triangulation, boundary.vertices.clone(), segment_constraints, &None, &HashSet::new());

    let mut front: Vec<Rc<Edge>> = Vec::new();
    for edge in outward.iter() {
        if let Some(t) = triangulation.adjacency.get(edge).cloned() {
            triangulation.remove_triangle(&t);
            let (a, b, c) = t.inner_edges();
            for side in vec![a, b, c] {
                if !outward.contains(&side) {
                    front.push(Rc::new(side.opposite()));
                }
            }
        }
    }
    while let Some(edge) = front.pop() {
        if let Some(t) = triangulation.adjacency.get(&edge).cloned() {
            triangulation.remove_triangle(&t);
            let (a, b, c) = t.inner_edges();
            for side in vec![a, b, c] {
                if !outward.contains(&side) {
                    front.push(Rc::new(side.opposite()));
                }
            }
        }
    }
    let ghost = Rc::new(Vertex::new_ghost());
    for edge in outward.iter() {
        triangulation.include_triangle(&Rc::new(Triangle::new(&edge.v1, &edge.v2, &ghost)));
    }
}
