//! C05, C31: the point type.
use crate::properties::zero;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Debug)]
pub struct Vertex {
    pub x: f64,
    pub y: f64,
    pub is_ghost: bool,
}

impl PartialEq for Vertex {
    fn eq(&self, other: &Self) -> bool {
        match (self.is_ghost, other.is_ghost) {
            (true, true) => true,
            (false, false) => zero(self.x - other.x) && zero(self.y - other.y),
            _ => false,
        }
    }
}
impl Eq for Vertex {}

impl Ord for Vertex {
    fn cmp(&self, other: &Self) -> Ordering {
        if self.is_ghost && other.is_ghost {
            return Ordering::Equal;
        }
        let by = |a: f64, b: f64| {
            if a < b {
                Ordering::Less
            } else if a > b {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        };
        by(self.x, other.x).then(by(self.y, other.y))
    }
}
impl Hash for Vertex {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.x.to_bits().hash(state);
        self.y.to_bits().hash(state);
    }
}
impl PartialOrd for Vertex {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(Ord::cmp(self, other))
    }
}

impl Vertex {
    pub fn new(x: f64, y: f64) -> Self {
        Vertex { x, y, is_ghost: false }
    }
    pub fn new_ghost() -> Vertex {
        Vertex { is_ghost: true, x: 0.0, y: 0.0 }
    }
    pub fn from_coordinates(raw_array: &Vec<f64>) -> Vec<Rc<Vertex>> {
        assert!(raw_array.len() % 2 == 0);
        (0..raw_array.len() / 2)
            .map(|i| Rc::new(Vertex::new(raw_array[2 * i], raw_array[2 * i + 1])))
            .collect()
    }
    pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
        vertex_list.sort_by(|p, q| {
            p.x.partial_cmp(&q.x).unwrap().then_with(|| p.y.partial_cmp(&q.y).unwrap())
        })
    }
}
