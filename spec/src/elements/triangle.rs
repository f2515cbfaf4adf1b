//! C05, C06, C07, C02: triangles.
use crate::elements::{edge::Edge, polyline::Polyline, vertex::Vertex};
use crate::properties::{area, circumcenter, continence, continence::Continence, distance, orientation, orientation::Orientation};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Debug)]
pub struct Triangle {
    pub v1: Rc<Vertex>,
    pub v2: Rc<Vertex>,
    pub v3: Rc<Vertex>,
}

impl PartialEq for Triangle {
    /// equal up to rotation
    fn eq(&self, other: &Self) -> bool {
        let mine = [&self.v1, &self.v2, &self.v3];
        let rotations = [
            [&other.v1, &other.v2, &other.v3],
            [&other.v2, &other.v3, &other.v1],
            [&other.v3, &other.v1, &other.v2],
        ];
        rotations.iter().any(|r| (0..3).all(|i| mine[i] == r[i]))
    }
}
impl Eq for Triangle {}
impl Hash for Triangle {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.is_ghost().hash(state);
    }
}

impl Triangle {
    pub fn new(v1: &Rc<Vertex>, v2: &Rc<Vertex>, v3: &Rc<Vertex>) -> Triangle {
        Triangle { v1: v1.clone(), v2: v2.clone(), v3: v3.clone() }
    }
    pub fn is_ghost(&self) -> bool {
        [&self.v1, &self.v2, &self.v3].iter().any(|v| v.is_ghost)
    }
    pub fn area(&self) -> Option<f64> {
        if self.is_ghost() { None } else { Some(area::area_triangle(&self.v1, &self.v2, &self.v3)) }
    }
    /// ghost triangles: left of the solid edge v1 -> v2
    pub fn encircles(&self, vertex: &Vertex) -> Continence {
        if self.is_ghost() {
            let side = orientation::orientation(&self.v1, &self.v2, vertex);
            if side == Orientation::Colinear {
                Continence::Boundary
            } else if side == Orientation::Counterclockwise {
                Continence::Inside
            } else {
                Continence::Outside
            }
        } else {
            continence::continence(&self.v1, &self.v2, &self.v3, vertex)
        }
    }
    pub fn circumcenter(&self) -> Option<Vertex> {
        if self.is_ghost() { None } else { circumcenter::circumcenter(&self.v1, &self.v2, &self.v3) }
    }
    /// circumradius over shortest side, R = abc / 4A
    pub fn quality(&self) -> Option<f64> {
        if self.is_ghost() {
            return None;
        }
        let area = self.area().unwrap();
        Some({
            let a = distance::distance(&self.v1, &self.v2);
            let b = distance::distance(&self.v2, &self.v3);
            let c = distance::distance(&self.v3, &self.v1);
            let others = if a <= b && a <= c { b * c } else if b <= c { a * c } else { a * b };
            others / (4.0 * area)
        })
    }
    pub fn inner_edges(&self) -> (Rc<Edge>, Rc<Edge>, Rc<Edge>) {
        (
            Rc::new(Edge::new(&self.v1, &self.v2)),
            Rc::new(Edge::new(&self.v2, &self.v3)),
            Rc::new(Edge::new(&self.v3, &self.v1)),
        )
    }
    pub fn outer_edges(&self) -> (Rc<Edge>, Rc<Edge>, Rc<Edge>) {
        let (a, b, c) = self.inner_edges();
        (Rc::new(a.opposite()), Rc::new(b.opposite()), Rc::new(c.opposite()))
    }
    pub fn center(&self) -> Vertex {
        let mean = |corners: &[&Rc<Vertex>], n: f64| {
            Vertex::new(
                corners.iter().map(|v| v.x).sum::<f64>() / n,
                corners.iter().map(|v| v.y).sum::<f64>() / n,
            )
        };
        if self.is_ghost() {
            mean(&[&self.v1, &self.v2], 2.0)
        } else {
            mean(&[&self.v1, &self.v2, &self.v3], 3.0)
        }
    }
    pub fn opposite_vertex(&self, edge: &Rc<Edge>) -> Option<Rc<Vertex>> {
        let is = |p: &Rc<Vertex>, q: &Rc<Vertex>| edge.v1 == *p && edge.v2 == *q;
        if is(&self.v1, &self.v2) {
            return Some(self.v3.clone());
        }
        if is(&self.v2, &self.v3) {
            return Some(self.v1.clone());
        }
        if is(&self.v3, &self.v1) {
            return Some(self.v2.clone());
        }
        None
    }
    pub fn opposite_edge(&self, vertex: &Rc<Vertex>) -> Option<Rc<Edge>> {
        let (e12, e23, e31) = self.inner_edges();
        vec![(&self.v1, e23), (&self.v2, e31), (&self.v3, e12)]
            .into_iter()
            .find(|(corner, _)| *corner == vertex)
            .map(|(_, edge)| edge)
    }
    pub fn as_polyline(&self) -> Option<Polyline> {
        if self.is_ghost() {
            return None;
        }
        let vertices = vec![self.v1.clone(), self.v2.clone(), self.v3.clone()];
        Some(Polyline { vertices, opened: false })
    }
}
