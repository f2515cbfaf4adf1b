//! C19 - C22, C26: the public entry points.
use crate::elements::{edge::Edge, polyline::split_intersections, polyline::Polyline, vertex::Vertex};
use crate::planar::refine_params::RefineParams;
use crate::planar::refine_procedures::{encroachment, triangle_split};
use crate::planar::triangulation::Triangulation;
use crate::planar::triangulation_procedures;
use crate::properties::continence::{BoundaryInclusion, Continence};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub struct Triangulator {
    pub triangulation: RefCell<Triangulation>,
    pub boundary: Rc<Polyline>,
    pub holes: HashSet<Rc<Polyline>>,
    pub vertices: HashSet<Rc<Vertex>>,
    pub segments: HashSet<Rc<Edge>>,
}

const INSIDE: Option<(Continence, BoundaryInclusion)> = Some((Continence::Inside, BoundaryInclusion::Open));
const OUTSIDE: Option<(Continence, BoundaryInclusion)> = Some((Continence::Outside, BoundaryInclusion::Open));

fn outline(segment: &Rc<Edge>) -> Polyline {
    Polyline::new_opened(vec![segment.v1.clone(), segment.v2.clone()]).unwrap()
}

impl Triangulator {
    pub fn new(boundary: &Rc<Polyline>) -> Self {
        Triangulator {
            boundary: boundary.clone(),
            triangulation: RefCell::new(Triangulation::new()),
            segments: HashSet::new(),
            vertices: HashSet::new(),
            holes: HashSet::new(),
        }
    }

    /// C19: all or nothing; a vertex on a segment splits it instead of being kept
    pub fn insert_vertices(&mut self, vertices: &HashSet<Rc<Vertex>>) -> Result<&Self, HashSet<Rc<Vertex>>> {
        let mut rejected: HashSet<Rc<Vertex>> = HashSet::new();
        for v in vertices.iter() {
            let inside = self.boundary.contains(v) == Some(Continence::Inside);
            if !inside || self.holes.iter().any(|hole| hole.contains(v) != Some(Continence::Outside)) {
                rejected.insert(v.clone());
            }
        }
        if !rejected.is_empty() {
            return Err(rejected);
        }
        for v in vertices.iter() {
            let mut keep = true;
            let present: HashSet<Rc<Edge>> = self.segments.clone();
            for s in present.iter() {
                if s.v1 == *v || s.v2 == *v {
                    keep = false;
                    break;
                }
                if s.contains(v) {
                    self.segments.remove(s);
                    self.segments.insert(Rc::new(Edge::new(&s.v1, v)));
                    self.segments.insert(Rc::new(Edge::new(v, &s.v2)));
                    keep = false;
                    break;
                }
            }
            if keep {
                self.vertices.insert(v.clone());
            }
        }
        Ok(self)
    }

    /// C20: all or nothing; split at vertices on it, then at mutual crossings
    pub fn insert_segments(&mut self, segments: &HashSet<Rc<Edge>>) -> Result<&Self, HashSet<Rc<Edge>>> {
        if segments.is_empty() {
            return Ok(self);
        }
        let mut rejected: HashSet<Rc<Edge>> = HashSet::new();
        for s in segments.iter() {
            let line = outline(s);
            if Polyline::continence(&self.boundary, &line) != INSIDE
                || self.holes.iter().any(|hole| Polyline::continence(hole, &line) != OUTSIDE)
            {
                rejected.insert(s.clone());
            }
        }
        if !rejected.is_empty() {
            return Err(rejected);
        }
        let mut whole: HashSet<Rc<Edge>> = HashSet::new();
        let mut pending: Vec<Rc<Edge>> = segments.iter().cloned().collect();
        while let Some(s) = pending.pop() {
            let mut keep = true;
            let present: HashSet<Rc<Vertex>> = self.vertices.clone();
            for v in present.iter() {
                if s.v1 == *v || s.v2 == *v {
                    self.vertices.remove(v);
                } else if s.contains(v) {
                    self.vertices.remove(v);
                    pending.push(Rc::new(Edge::new(&s.v1, v)));
                    pending.push(Rc::new(Edge::new(v, &s.v2)));
                    keep = false;
                    break;
                }
            }
            if keep {
                whole.insert(s);
            }
        }
        let mut pairs: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
        for s in whole.iter() {
            pairs.push((s.v1.clone(), s.v2.clone()));
        }
        for s in self.segments.iter() {
            pairs.push((s.v1.clone(), s.v2.clone()));
        }
        self.segments = Edge::from_vertex_pairs(split_intersections(&pairs)).into_iter().collect();
        Ok(self)
    }

    /// C21
    pub fn insert_hole(&mut self, hole: &Rc<Polyline>) -> Result<&Self, HashSet<Rc<Vertex>>> {
        let mut conflicts: HashSet<Rc<Vertex>> = HashSet::new();
        if Polyline::continence(&self.boundary, hole) != INSIDE {
            conflicts.extend(self.boundary.vertices.iter().cloned());
        }
        for other in self.holes.iter() {
            if Polyline::continence(other, hole) != OUTSIDE {
                conflicts.extend(other.vertices.iter().cloned());
            }
        }
        if !conflicts.is_empty() {
            return Err(conflicts);
        }
        for s in self.segments.iter() {
            if Polyline::continence(hole, &outline(s)) != OUTSIDE {
                conflicts.insert(s.v1.clone());
                conflicts.insert(s.v2.clone());
            }
        }
        if !conflicts.is_empty() {
            return Err(conflicts);
        }
        let mut uncovered: HashSet<Rc<Vertex>> = HashSet::new();
        for v in self.vertices.iter() {
            if hole.contains(v) == Some(Continence::Outside) {
                uncovered.insert(v.clone());
            }
        }
        self.vertices = uncovered;
        self.holes.insert(hole.clone());
        Ok(self)
    }

    /// C26: every hole, boundary and inserted segment is a constraint; halves replace split ones
    pub fn refine(&mut self, params: RefineParams) -> &Self {
        let mut constraints: HashSet<Rc<Edge>> = HashSet::new();
        for hole in self.holes.iter() {
            constraints.extend(hole.into_edges());
        }
        constraints.extend(self.boundary.into_edges());
        constraints.extend(self.segments.iter().cloned());

        let boundary = Some(self.boundary.clone());
        let (parts, _, _) = encroachment::unencroach(
            &mut self.triangulation.borrow_mut(),
            &constraints,
            &boundary,
            &self.holes,
        );
        let gone: HashSet<Rc<Edge>> = parts.values().cloned().collect();
        let mut current: HashSet<Rc<Edge>> = HashSet::new();
        for s in constraints.iter() {
            if !gone.contains(s) && !gone.contains(&s.opposite()) {
                current.insert(s.clone());
            }
        }
        current.extend(parts.keys().cloned());
        triangle_split::split_irregular(
            &mut self.triangulation.borrow_mut(),
            &params,
            &current,
            &boundary,
            &self.holes,
        );
        self
    }

    /// C22: boundary, then holes, then segments, then the remaining vertices
    pub fn triangulate(&mut self) -> &Self {
        let corners = &self.boundary.vertices;
        let mut mesh = Triangulation::from_initial_segment((&corners[0], &corners[1]));
        triangulation_procedures::boundary::include(&mut mesh, &self.boundary, &HashSet::new());
        let mut constraints: HashSet<Rc<Edge>> = self.boundary.into_edges().into_iter().collect();
        for hole in self.holes.iter() {
            triangulation_procedures::hole::include(&mut mesh, hole, &constraints);
            constraints.extend(hole.into_edges());
        }
        for s in self.segments.iter() {
            triangulation_procedures::segment::include(&mut mesh, s, &constraints);
            constraints.insert(s.clone());
        }
        triangulation_procedures::vertices::include(
            &mut mesh,
            self.vertices.iter().cloned().collect(),
            &constraints,
            &Some(self.boundary.clone()),
            &self.holes,
        );
        self.triangulation = RefCell::new(mesh);
        self
    }
}
