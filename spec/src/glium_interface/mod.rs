//! C31: what the viewer is given; the window itself is not analysed.
pub mod display {
    use glium::{glutin, Display};
    pub fn new() -> (Display, glutin::event_loop::EventLoop<()>) {
        unimplemented!()
    }
}
pub mod edges {
    use super::vertex;
    use glium::{glutin, Display};
    pub fn draw((_display, _event_loop): (Display, glutin::event_loop::EventLoop<()>), _shape: Vec<vertex::Vertex>, _line_width: f32) {
        unimplemented!()
    }
}
pub mod vertex {
    use nlsn_delaunay::elements::edge::Edge;
    use nlsn_delaunay::planar::triangulation::Triangulation;
    use std::collections::HashSet;
    use std::rc::Rc;

    #[derive(Copy, Clone)]
    pub struct Vertex {
        pub position: [f32; 2],
    }

    fn place(v: &nlsn_delaunay::elements::vertex::Vertex) -> Vertex {
        Vertex { position: [v.x as f32, v.y as f32] }
    }

    impl Vertex {
        pub fn from_coordinates(coordinates: Vec<f32>) -> Vec<Self> {
            (0..coordinates.len()).step_by(2).map(|i| Vertex { position: [coordinates[i], coordinates[i + 1]] }).collect()
        }
        pub fn triangles_from_triangulation(triangulation: &Triangulation) -> Vec<Self> {
            let mut list = Vec::new();
            for t in triangulation.triangles.iter() {
                if !t.is_ghost() {
                    list.push(place(&t.v1));
                    list.push(place(&t.v2));
                    list.push(place(&t.v3));
                }
            }
            list
        }
        /// both ends of every solid edge, each edge in one direction only
        pub fn edges_from_triangulation(triangulation: &Triangulation) -> Vec<Self> {
            let mut all: Vec<Rc<Edge>> = Vec::new();
            for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
                let (a, b, c) = t.inner_edges();
                all.push(a);
                all.push(b);
                all.push(c);
            }
            let mut distinct: HashSet<Rc<Edge>> = HashSet::new();
            while let Some(edge) = all.pop() {
                if distinct.contains(&edge) || distinct.contains(&edge.opposite()) {
                    continue;
                }
                distinct.insert(edge);
            }
            let mut list = Vec::new();
            for edge in distinct.iter() {
                list.push(place(&edge.v1));
                list.push(place(&edge.v2));
            }
            list
        }
    }
}
