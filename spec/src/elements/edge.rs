//! C02, C04, C05, C07, C10, C31: directed edges.
use crate::elements::{bounding_box::BoundingBox, polyline::Polyline, vertex::Vertex};
use crate::properties::{
    continence::Continence, distance, dot, encroachment, intersection, orientation,
    orientation::Orientation, parallel,
};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::rc::Rc;

#[derive(Hash, Debug)]
pub struct Edge {
    pub v1: Rc<Vertex>,
    pub v2: Rc<Vertex>,
}

impl PartialEq for Edge {
    /// same direction
    fn eq(&self, other: &Self) -> bool {
        other.v2 == self.v2 && other.v1 == self.v1
    }
}
impl Eq for Edge {}

impl Edge {
    pub fn new(v1: &Rc<Vertex>, v2: &Rc<Vertex>) -> Self {
        Edge { v1: v1.clone(), v2: v2.clone() }
    }
    pub fn opposite(&self) -> Self {
        Edge::new(&self.v2, &self.v1)
    }
    pub fn length(&self) -> f64 {
        distance::distance(&self.v2, &self.v1)
    }
    pub fn encroach(&self, vertex: &Vertex) -> Continence {
        encroachment::encroach(&self.v1, &self.v2, vertex)
    }
    pub fn midpoint(&self) -> Vertex {
        Vertex::new(0.5 * (self.v1.x + self.v2.x), 0.5 * (self.v1.y + self.v2.y))
    }
    pub fn from_coordinates(coordinates: &Vec<f64>) -> Vec<Rc<Edge>> {
        Edge::from_vertices(&Vertex::from_coordinates(coordinates))
    }
    /// each vertex to the next, the last to the first
    pub fn from_vertices(vertices_list: &Vec<Rc<Vertex>>) -> Vec<Rc<Edge>> {
        (0..vertices_list.len())
            .map(|i| {
                let next = vertices_list.get(i + 1).unwrap_or(&vertices_list[0]);
                Rc::new(Edge::new(&vertices_list[i], next))
            })
            .collect()
    }
    pub fn into_vertex_pairs(edges: Vec<Rc<Edge>>) -> Vec<(Rc<Vertex>, Rc<Vertex>)> {
        let mut pairs = Vec::new();
        for edge in edges {
            pairs.push((edge.v1.clone(), edge.v2.clone()));
        }
        pairs
    }
    pub fn from_vertex_pairs(vertex_pairs: Vec<(Rc<Vertex>, Rc<Vertex>)>) -> Vec<Rc<Edge>> {
        let mut edges = Vec::new();
        for (from, to) in vertex_pairs {
            edges.push(Rc::new(Edge { v1: from, v2: to }));
        }
        edges
    }
    /// in the closed bounding box of the ends and colinear with them
    pub fn contains(&self, vertex: &Vertex) -> bool {
        BoundingBox::from_vertices(vec![self.v1.clone(), self.v2.clone()]).unwrap().contains(vertex)
            && orientation::orientation(&self.v1, &self.v2, vertex) == Orientation::Colinear
    }
    pub fn decompose(base: &HashSet<Rc<Edge>>, edge: &Rc<Edge>) -> Option<Vec<Rc<Edge>>> {
        let overlaps_along = |piece: &Edge| {
            intersection::intersection(&piece.v1, &piece.v2, &edge.v1, &edge.v2).is_some()
                && parallel::parallel(&piece.v1, &piece.v2, &edge.v1, &edge.v2)
                && dot::dot(&piece.v1, &piece.v2, &edge.v1, &edge.v2) > 0.0
        };
        let mut next: HashMap<Rc<Vertex>, Rc<Vertex>> = HashMap::new();
        for piece in base {
            if overlaps_along(piece) {
                next.insert(piece.v1.clone(), piece.v2.clone());
            }
        }
        let mut reached = edge.v1.clone();
        let mut pieces = Vec::new();
        while reached != edge.v2 {
            let to = next.get(&reached)?.clone();
            pieces.push(Rc::new(Edge::new(&reached, &to)));
            reached = to;
        }
        Some(pieces)
    }
    /// Joins edges into maximal chains: a chain grows at its tail, else at its head, by an edge that is
    /// colinear with it and runs on in the same direction; each edge is used once.
    pub fn arrange(edges: &HashSet<Rc<Edge>>) -> HashSet<Rc<Self>> {
        type Links = HashMap<Rc<Vertex>, RefCell<HashSet<Rc<Vertex>>>>;
        fn remove_edge(ahead: &mut Links, behind: &mut Links, (from, to): (&Rc<Vertex>, &Rc<Vertex>)) {
            let exhausted = {
                let mut ends = ahead.get(from).unwrap().borrow_mut();
                ends.remove(to);
                ends.is_empty()
            };
            if exhausted {
                ahead.remove(from);
            }
            let exhausted = {
                let mut starts = behind.get(to).unwrap().borrow_mut();
                starts.remove(from);
                starts.is_empty()
            };
            if exhausted {
                behind.remove(to);
            }
        }
        fn onward(links: &Links, start: &Rc<Vertex>, end: &Rc<Vertex>) -> Option<Rc<Vertex>> {
            links.get(end)?.borrow().iter().find(|next| {
                orientation::orientation(start, end, next) == Orientation::Colinear
                    && dot::dot(start, end, end, next) > 0.0
            }).cloned()
        }
        let (mut tails, mut heads) = Self::into_hashmap(edges);
        let mut chains = HashSet::new();
        while !tails.is_empty() {
            let mut head = tails.keys().next().unwrap().clone();
            let mut tail = tails.get(&head).unwrap().borrow().iter().next().unwrap().clone();
            remove_edge(&mut tails, &mut heads, (&head, &tail));
            loop {
                if let Some(next) = onward(&tails, &head, &tail) {
                    remove_edge(&mut tails, &mut heads, (&tail, &next));
                    tail = next;
                } else if let Some(next) = onward(&heads, &tail, &head) {
                    remove_edge(&mut heads, &mut tails, (&head, &next));
                    head = next;
                } else {
                    break;
                }
            }
            chains.insert(Rc::new(Edge::new(&head, &tail)));
        }
        chains
    }
    /// successors by head, predecessors by tail
    pub fn into_hashmap(
        base: &HashSet<Rc<Edge>>,
    ) -> (
        HashMap<Rc<Vertex>, RefCell<HashSet<Rc<Vertex>>>>,
        HashMap<Rc<Vertex>, RefCell<HashSet<Rc<Vertex>>>>,
    ) {
        let mut tails: HashMap<Rc<Vertex>, RefCell<HashSet<Rc<Vertex>>>> = HashMap::new();
        let mut heads: HashMap<Rc<Vertex>, RefCell<HashSet<Rc<Vertex>>>> = HashMap::new();
        for edge in base.iter() {
            tails
                .entry(edge.v1.clone())
                .or_insert_with(|| RefCell::new(HashSet::new()))
                .borrow_mut()
                .insert(edge.v2.clone());
            heads
                .entry(edge.v2.clone())
                .or_insert_with(|| RefCell::new(HashSet::new()))
                .borrow_mut()
                .insert(edge.v1.clone());
        }
        (tails, heads)
    }
    pub fn as_polyline(&self) -> Option<Polyline> {
        match self.v1.is_ghost || self.v2.is_ghost {
            true => None,
            false => Some(Polyline { opened: true, vertices: vec![self.v1.clone(), self.v2.clone()] }),
        }
    }
}
