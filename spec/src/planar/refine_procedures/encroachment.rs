//! C23: encroached segments are halved until no collected vertex encroaches a part.
use crate::elements::{edge::Edge, polyline::Polyline, triangle::Triangle, vertex::Vertex};
use crate::planar::triangulation::Triangulation;
use crate::planar::triangulation_procedures::vertices;
use crate::properties::continence::Continence;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

type Triangles = HashSet<Rc<Triangle>>;

/// C24: what a step removed is no longer included
fn record(included: &mut Triangles, removed: &mut Triangles, new: &Triangles, old: &Triangles) {
    let mut current: Triangles = HashSet::new();
    for t in included.iter().chain(new.iter()) {
        if !old.contains(t) {
            current.insert(t.clone());
        }
    }
    *included = current;
    removed.extend(old.iter().cloned());
}

pub fn unencroach(
    triangulation: &mut Triangulation,
    segment_contraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> (HashMap<Rc<Edge>, Rc<Edge>>, Triangles, Triangles) {
    let mut included: Triangles = HashSet::new();
    let mut removed: Triangles = HashSet::new();
    let mut origin: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
    let mut encroached: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> = HashMap::new();
    distribute_encroachments(segment_contraints, &triangulation.vertices(), &mut encroached);
    while let Some(segment) = encroached.keys().next().cloned() {
        let mut by = encroached.remove(&segment).unwrap();
        let (parts, new, old) =
            unencroach_segment(triangulation, &segment, &mut by, segment_contraints, boundary, holes);
        for part in parts.iter() {
            origin.insert(part.clone(), segment.clone());
        }
        record(&mut included, &mut removed, &new, &old);
    }
    (origin, included, removed)
}

pub fn unencroach_segment(
    triangulation: &mut Triangulation,
    encroached_edge: &Rc<Edge>,
    encroaching_vertices: &mut HashSet<Rc<Vertex>>,
    segment_contraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> (HashSet<Rc<Edge>>, Triangles, Triangles) {
    let mut included: Triangles = HashSet::new();
    let mut removed: Triangles = HashSet::new();
    let mut finished: HashSet<Rc<Edge>> = HashSet::new();
    let mut pending: Vec<Rc<Edge>> = vec![encroached_edge.clone()];
    while let Some(segment) = pending.pop() {
        let (h1, h2, new, old) = split_segment(triangulation, &segment, segment_contraints, boundary, holes);
        record(&mut included, &mut removed, &new, &old);
        let open1 = encroaching_vertices.iter().any(|v| h1.encroach(v) == Continence::Inside);
        let open2 = encroaching_vertices.iter().any(|v| h2.encroach(v) == Continence::Inside);
        encroaching_vertices
            .retain(|v| h1.encroach(v) == Continence::Inside || h2.encroach(v) == Continence::Inside);
        if open1 {
            pending.push(h1);
        } else {
            finished.insert(h1);
        }
        if open2 {
            pending.push(h2);
        } else {
            finished.insert(h2);
        }
    }
    (finished, included, removed)
}

pub fn distribute_encroachments(
    segments: &HashSet<Rc<Edge>>,
    vertices: &HashSet<Rc<Vertex>>,
    encroach_map: &mut HashMap<Rc<Edge>, HashSet<Rc<Vertex>>>,
) {
    for s in segments.iter() {
        let mut by: HashSet<Rc<Vertex>> = HashSet::new();
        for v in vertices.iter() {
            if s.encroach(v) == Continence::Inside {
                by.insert(v.clone());
            }
        }
        if !by.is_empty() {
            encroach_map.insert(s.clone(), by);
        }
    }
}

/// the midpoint goes in with every constraint but the split segment itself
fn split_segment(
    triangulation: &mut Triangulation,
    segment: &Rc<Edge>,
    segment_constraints: &HashSet<Rc<Edge>>,
    boundary: &Option<Rc<Polyline>>,
    holes: &HashSet<Rc<Polyline>>,
) -> (Rc<Edge>, Rc<Edge>, Triangles, Triangles) {
    let mut others: HashSet<Rc<Edge>> = HashSet::new();
    for e in segment_constraints.iter() {
        let same = e == segment;
        let reverse = e.v1 == segment.v2 && e.v2 == segment.v1;
        if !same && !reverse {
            others.insert(e.clone());
        }
    }
    let middle = Rc::new(segment.midpoint());
    let (new, old) = vertices::include(triangulation, vec![middle.clone()], &others, boundary, holes);
    (
        Rc::new(Edge::new(&segment.v1, &middle)),
        Rc::new(Edge::new(&middle, &segment.v2)),
        new,
        old,
    )
}
