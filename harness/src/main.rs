#[macro_use]
mod sym;
mod gen;
mod enc;
mod h_model;
mod h_pbf;
mod h_spec;
mod h_par;
mod h_api;
mod h_io;
mod h_flow;
fn main() {
    let mut t: Vec<(&str, extern "C" fn())> = vec![];
    for x in [h_model::TABLE, h_pbf::TABLE, h_spec::TABLE, h_par::TABLE, h_api::TABLE, h_io::TABLE, h_flow::TABLE] { t.extend_from_slice(x); }
    sym::main(&t)
}
