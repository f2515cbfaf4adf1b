pub mod io {
    //! C30
    use super::models::input::TriangulationInput;
    use std::path::Path;

    pub fn read(path: &Path) -> Option<TriangulationInput> {
        let text = std::fs::read_to_string(path).ok()?;
        serde_json::from_str(&text).ok()
    }
    pub fn write(path: &Path, json_string: String) -> std::io::Result<()> {
        std::fs::write(path, json_string)
    }
}
pub mod models {
    pub mod action {
        use super::point::Point;
        pub struct Action {
            pub intent: String,
            pub geometry: String,
            pub scalars: Vec<f64>,
            pub points: Vec<Point>,
            pub assemble: Vec<Vec<usize>>,
        }
        fn empty_scalar() -> Vec<f64> {
            vec![]
        }
        fn empty_points() -> Vec<Point> {
            vec![]
        }
        fn empty_assemble() -> Vec<Vec<usize>> {
            vec![]
        }
    }
    pub mod input {
        use super::action::Action;
        use uuid::Uuid;
        pub struct TriangulationInput {
            pub id: Uuid,
            pub name: String,
            pub date: String,
            pub actions: Vec<Action>,
            pub params: RefineParams,
        }
        pub struct RefineParams {
            pub max_area: Option<f64>,
            pub quality: f64,
        }
    }
    pub mod point {
        use nlsn_delaunay::elements::vertex::Vertex;
        pub struct Point {
            pub x: f64,
            pub y: f64,
            pub z: f64,
        }
        fn zero_f64() -> f64 {
            0.0
        }
        impl Point {
            pub fn from_vertex(v: &Vertex) -> Self {
                Point { x: v.x, y: v.y, z: 0.0 }
            }
        }
    }
    pub mod tesselations {
        pub struct Triangle {
            pub v1: usize,
            pub v2: usize,
            pub v3: usize,
        }
        pub struct Tetrahedron {
            pub v1: usize,
            pub v2: usize,
            pub v3: usize,
            pub v4: usize,
        }
        impl Triangle {
            pub fn new(v1: usize, v2: usize, v3: usize) -> Self {
                Triangle { v1, v2, v3 }
            }
        }
    }
    pub mod output {
        //! C27
        use super::{input::TriangulationInput, point::Point, tesselations::*};
        use nlsn_delaunay::{elements::vertex::Vertex, planar::triangulator::Triangulator};
        use std::collections::HashMap;
        use std::rc::Rc;
        use uuid::Uuid;
        pub struct TriangulationOutput {
            pub id: Uuid,
            pub name: String,
            pub date: String,
            pub coordinates: Vec<Point>,
            pub triangles: Vec<Triangle>,
            pub tetrahedrons: Vec<Tetrahedron>,
        }
        impl TriangulationOutput {
            pub fn from_triangulator(input: &TriangulationInput, triangulator: &Triangulator) -> Self {
                let mesh = triangulator.triangulation.borrow();
                let numbered: Vec<Rc<Vertex>> = mesh.vertices().into_iter().collect();
                let mut number: HashMap<Rc<Vertex>, usize> = HashMap::new();
                for i in 0..numbered.len() {
                    number.insert(numbered[i].clone(), i);
                }
                let mut triangles = Vec::new();
                for t in mesh.triangles.iter() {
                    if !t.is_ghost() {
                        triangles.push(Triangle::new(number[&t.v1], number[&t.v2], number[&t.v3]));
                    }
                }
                TriangulationOutput {
                    id: input.id,
                    name: input.name.clone(),
                    date: input.date.clone(),
                    coordinates: numbered.iter().map(|v| Point { x: v.x, y: v.y, z: 0.0 }).collect(),
                    triangles,
                    tetrahedrons: vec![],
                }
            }
        }
    }
}
