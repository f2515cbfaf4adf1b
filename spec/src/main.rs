//! C27 - C31: the command-line tool.
#![allow(dead_code, unused_imports, non_snake_case)]
use structopt::StructOpt;

pub struct CliOptions {
    input: String,
    output: Option<String>,
    show: bool,
}
impl StructOpt for CliOptions {}

mod glium_interface;
mod json_serializar;
mod triangulator_interface;

/// C30: read, assemble, triangulate, refine, export; every failure ends the command
fn main() {
    let options = CliOptions::from_args();
    let input = match json_serializar::io::read(std::path::Path::new(&options.input)) {
        Some(input) => input,
        None => panic!("input"),
    };
    let (mut triangulator, params) = match triangulator_interface::parse(&input) {
        Ok(parsed) => parsed,
        Err(()) => panic!("problem"),
    };
    triangulator.triangulate();
    triangulator.refine(params);
    let exported = json_serializar::models::output::TriangulationOutput::from_triangulator(&input, &triangulator);
    let text = serde_json::to_string_pretty(&exported).unwrap();
    match options.output {
        Some(name) => {
            if json_serializar::io::write(std::path::Path::new(&name), text).is_err() {
                panic!("output");
            }
        }
        None => println!("{}", text),
    }
    if options.show {
        let window = glium_interface::display::new();
        let shape = glium_interface::vertex::Vertex::edges_from_triangulation(&triangulator.triangulation.borrow());
        glium_interface::edges::draw(window, shape, 1.0);
    }
}
