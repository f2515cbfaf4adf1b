pub struct RefineParams {
    pub max_area: Option<f64>,
    pub quality_ratio: f64,
}
