//! C18: segment recovery by local retriangulation.
use crate::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use crate::planar::triangulation::Triangulation;
use crate::planar::triangulation_procedures::{boundary, vertices};
use crate::properties::continence::{BoundaryInclusion, Continence};
use crate::properties::orientation::{orientation, Orientation};
use std::collections::HashSet;
use std::rc::Rc;

/// the segment runs through the triangle, or an end vertex is not outside its circle
fn conflicts(triangle: &Rc<Triangle>, segment: &Rc<Edge>) -> bool {
    let apart = Some((Continence::Outside, BoundaryInclusion::Open));
    let (area, line) = (triangle.as_polyline().unwrap(), segment.as_polyline().unwrap());
    triangle.encircles(&segment.v1) != Continence::Outside
        || triangle.encircles(&segment.v2) != Continence::Outside
        || Polyline::continence(&area, &line) != apart
}

/// a constrained side of the triangle separates it from an end vertex
fn shielded(triangle: &Rc<Triangle>, segment: &Rc<Edge>, constraints: &HashSet<Rc<Edge>>) -> bool {
    let faces = |e: &Rc<Edge>, v: &Rc<Vertex>| orientation(&e.v1, &e.v2, v) == Orientation::Counterclockwise;
    let (a, b, c) = triangle.outer_edges();
    vec![a, b, c].iter().any(|side| {
        (constraints.contains(side) || constraints.contains(&side.opposite()))
            && (faces(side, &segment.v1) || faces(side, &segment.v2))
    })
}

pub fn include(triangulation: &mut Triangulation, segment: &Rc<Edge>, segment_constraints: &HashSet<Rc<Edge>>) {
    let mut taken: HashSet<Rc<Triangle>> = HashSet::new();
    for t in triangulation.triangles.iter() {
        if !t.is_ghost() && conflicts(t, segment) && !shielded(t, segment, segment_constraints) {
            taken.insert(t.clone());
        }
    }
    for t in taken.iter() {
        triangulation.remove_triangle(t);
    }
    let hull = Rc::new(Polyline::triangles_hull(&taken).unwrap());
    let mut corners: HashSet<Rc<Vertex>> = HashSet::new();
    for t in taken.iter() {
        corners.insert(t.v1.clone());
        corners.insert(t.v2.clone());
        corners.insert(t.v3.clone());
    }

    let mut only: HashSet<Rc<Edge>> = HashSet::new();
    only.insert(segment.clone());
    let mut local = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
    boundary::include(&mut local, &hull, &only);
    vertices::include(&mut local, corners.into_iter().collect(), &only, &Some(hull), &HashSet::new());

    for t in local.triangles.iter() {
        if !t.is_ghost() {
            triangulation.include_triangle(t);
        }
    }
}
