//! C12, C06: the triangle store and its directed-edge index.
use crate::elements::{edge::Edge, triangle::Triangle, vertex::Vertex};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub struct Triangulation {
    pub triangles: HashSet<Rc<Triangle>>,
    pub adjacency: HashMap<Rc<Edge>, Rc<Triangle>>,
}

impl Triangulation {
    pub fn new() -> Self {
        Triangulation { triangles: HashSet::new(), adjacency: HashMap::new() }
    }
    pub fn from_initial_segment((v1, v2): (&Rc<Vertex>, &Rc<Vertex>)) -> Self {
        let ghost = Rc::new(Vertex::new_ghost());
        let mut triangulation = Triangulation::new();
        for (a, b) in vec![(v1, v2), (v2, v1)] {
            triangulation.include_triangle(&Rc::new(Triangle::new(a, b, &ghost)));
        }
        triangulation
    }
    pub fn include_triangle(&mut self, triangle: &Rc<Triangle>) -> bool {
        let is_new = self.triangles.insert(triangle.clone());
        if is_new {
            let (a, b, c) = triangle.inner_edges();
            for edge in vec![a, b, c] {
                self.adjacency.insert(edge, triangle.clone());
            }
        }
        is_new
    }
    pub fn remove_triangle(&mut self, triangle: &Rc<Triangle>) -> bool {
        let was_there = self.triangles.remove(triangle);
        if was_there {
            let (a, b, c) = triangle.inner_edges();
            for edge in vec![a, b, c] {
                self.adjacency.remove(&edge);
            }
        }
        was_there
    }
    pub fn vertices(&self) -> HashSet<Rc<Vertex>> {
        let mut found = HashSet::new();
        for t in self.triangles.iter() {
            for v in vec![&t.v1, &t.v2, &t.v3] {
                if !v.is_ghost {
                    found.insert(v.clone());
                }
            }
        }
        found
    }
    pub fn edges(&self) -> HashSet<Rc<Edge>> {
        let mut found = HashSet::new();
        for t in self.triangles.iter() {
            found.insert(Rc::new(Edge::new(&t.v1, &t.v2)));
            found.insert(Rc::new(Edge::new(&t.v2, &t.v3)));
            found.insert(Rc::new(Edge::new(&t.v3, &t.v1)));
        }
        found
    }
}
