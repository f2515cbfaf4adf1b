//! C31: flat result lists.
pub struct TriangulationData {
    pub coordinates: Vec<f64>,
    pub triangles: Vec<usize>,
}
impl TriangulationData {
    pub fn from(coordinates: Vec<f64>, triangles: Vec<usize>) -> Self {
        TriangulationData { triangles, coordinates }
    }
}
