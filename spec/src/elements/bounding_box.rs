//! C04: axis-parallel boxes.
use crate::elements::vertex::Vertex;
use std::rc::Rc;

pub struct BoundingBox {
    pub origin: Rc<Vertex>,
    pub destin: Rc<Vertex>,
}

impl PartialEq for BoundingBox {
    fn eq(&self, other: &Self) -> bool {
        self.origin == other.origin && self.destin == other.destin
    }
}
impl Eq for BoundingBox {}

fn boxed(lx: f64, ly: f64, ux: f64, uy: f64) -> BoundingBox {
    BoundingBox { origin: Rc::new(Vertex::new(lx, ly)), destin: Rc::new(Vertex::new(ux, uy)) }
}

impl BoundingBox {
    pub fn from_vertices(vertices_list: Vec<Rc<Vertex>>) -> Option<Self> {
        let first = vertices_list.first()?;
        Some(boxed(
            vertices_list.iter().fold(first.x, |m, v| min(m, v.x)),
            vertices_list.iter().fold(first.y, |m, v| min(m, v.y)),
            vertices_list.iter().fold(first.x, |m, v| max(m, v.x)),
            vertices_list.iter().fold(first.y, |m, v| max(m, v.y)),
        ))
    }
    pub fn contains(&self, vertex: &Vertex) -> bool {
        self.origin.x <= vertex.x
            && vertex.x <= self.destin.x
            && self.origin.y <= vertex.y
            && vertex.y <= self.destin.y
    }
    pub fn intersection(b1: &Self, b2: &Self) -> Option<Self> {
        let common = boxed(
            max(b1.origin.x, b2.origin.x),
            max(b1.origin.y, b2.origin.y),
            min(b1.destin.x, b2.destin.x),
            min(b1.destin.y, b2.destin.y),
        );
        if common.destin.x < common.origin.x || common.destin.y < common.origin.y {
            None
        } else {
            Some(common)
        }
    }
    pub fn union(b1: &BoundingBox, b2: BoundingBox) -> Self {
        boxed(
            min(b1.origin.x, b2.origin.x),
            min(b1.origin.y, b2.origin.y),
            max(b1.destin.x, b2.destin.x),
            max(b1.destin.y, b2.destin.y),
        )
    }
    pub fn union_list(box_list: Vec<BoundingBox>) -> Option<Self> {
        let first = box_list.first()?;
        Some(boxed(
            box_list.iter().fold(first.origin.x, |m, b| min(m, b.origin.x)),
            box_list.iter().fold(first.origin.y, |m, b| min(m, b.origin.y)),
            box_list.iter().fold(first.destin.x, |m, b| max(m, b.destin.x)),
            box_list.iter().fold(first.destin.y, |m, b| max(m, b.destin.y)),
        ))
    }
}

fn min(f1: f64, f2: f64) -> f64 {
    if f2 <= f1 { f2 } else { f1 }
}
fn max(f1: f64, f2: f64) -> f64 {
    if f2 >= f1 { f2 } else { f1 }
}
