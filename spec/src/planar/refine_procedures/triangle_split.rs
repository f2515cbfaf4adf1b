//! C24, C25: refinement of bad triangles.
use crate::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use crate::planar::refine_params::RefineParams;
use crate::planar::refine_procedures::encroachment;
use crate::planar::triangulation::Triangulation;
use crate::planar::triangulation_procedures::vertices;
use crate::properties::continence::Continence;
use crate::properties::zero;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

type Triangles = HashSet<Rc<Triangle>>;

fn is_irregular_triangle(triangle: &Triangle, params: &RefineParams) -> bool {
    let quality = triangle.quality().unwrap();
    quality >= params.quality_ratio || zero(quality - params.quality_ratio)
}

fn is_large_triangle(triangle: &Triangle, params: &RefineParams) -> bool {
    let area = triangle.area().unwrap();
    match params.max_area {
        None => false,
        Some(limit) => area >= limit || zero(area - limit),
    }
}

/// every bad solid triangle a step created is queued, every one it removed is dropped
fn requeue(params: &RefineParams, irregular: &mut Triangles, large: &mut Triangles, new: &Triangles, old: &Triangles) {
    for t in new.iter() {
        if !t.is_ghost() {
            if is_irregular_triangle(t, params) {
                irregular.insert(t.clone());
            } else if is_large_triangle(t, params) {
                large.insert(t.clone());
            }
        }
    }
    for t in old.iter() {
        irregular.remove(t);
        large.remove(t);
    }
}

pub fn split_irregular(
    triangulation: &mut Triangulation,
    params: &RefineParams,
    segment_contraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> HashMap<Rc<Edge>, Rc<Edge>> {
    let mut constraints: HashSet<Rc<Edge>> = segment_contraints.clone();
    let mut irregular: Triangles = HashSet::new();
    let mut large: Triangles = HashSet::new();
    for t in triangulation.triangles.iter() {
        if !t.is_ghost() {
            if is_irregular_triangle(t, params) {
                irregular.insert(t.clone());
            }
            if is_large_triangle(t, params) {
                large.insert(t.clone());
            }
        }
    }
    let mut origin: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
    loop {
        let triangle;
        if let Some(t) = irregular.iter().next().cloned() {
            irregular.remove(&t);
            triangle = t;
        } else if let Some(t) = large.iter().next().cloned() {
            large.remove(&t);
            triangle = t;
        } else {
            return origin;
        }
        match try_circumcenter_insertion(triangulation, &triangle, &constraints, boundary, holes) {
            Ok((new, old)) => requeue(params, &mut irregular, &mut large, &new, &old),
            Err(encroached) => {
                let mut by: HashSet<Rc<Vertex>> = HashSet::new();
                by.insert(Rc::new(triangle.circumcenter().unwrap()));
                for segment in encroached.iter() {
                    let (parts, new, old) = encroachment::unencroach_segment(
                        triangulation,
                        segment,
                        &mut by,
                        &constraints,
                        boundary,
                        holes,
                    );
                    constraints.remove(segment);
                    origin.remove(segment);
                    for part in parts.iter() {
                        constraints.insert(part.clone());
                        origin.insert(part.clone(), segment.clone());
                    }
                    requeue(params, &mut irregular, &mut large, &new, &old);
                }
            }
        }
    }
}

/// C24: a circumcenter that would encroach a constrained segment leaves no trace
fn try_circumcenter_insertion(
    triangulation: &mut Triangulation,
    triangle: &Rc<Triangle>,
    segment_constraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> Result<(Triangles, Triangles), HashSet<Rc<Edge>>> {
    let center = Rc::new(triangle.circumcenter().unwrap());
    let mut conflicts: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
    vertices::distribute_conflicts_over_triangulation(
        triangulation,
        Some(triangle.clone()),
        &mut conflicts,
        &mut vec![center.clone()],
        boundary,
        holes,
    );
    let (new, old) = vertices::solve_conflicts(
        triangulation,
        &mut conflicts,
        &mut Vec::new(),
        segment_constraints,
        boundary,
        holes,
    );
    let mut encroached: HashSet<Rc<Edge>> = HashSet::new();
    for t in new.iter() {
        let base = t.opposite_edge(&center).unwrap();
        let constrained = segment_constraints.contains(&base) || segment_constraints.contains(&base.opposite());
        if constrained && base.encroach(&center) == Continence::Inside {
            encroached.insert(base);
        }
    }
    if encroached.is_empty() {
        return Ok((new, old));
    }
    for t in new.iter() {
        triangulation.remove_triangle(t);
    }
    for t in old.iter() {
        triangulation.include_triangle(t);
    }
    Err(encroached)
}
