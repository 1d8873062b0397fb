//! Checkers of the crates that need no database.
#[global_allocator]
static A: kit::Guard = kit::Guard;

mod bulk;
mod costs;
mod dense;
mod element;
mod flags;
mod merk_proof;
mod misc;
mod mmr;
mod mock;
mod path;
mod proof_ops;
mod query;

fn main() {
    let mut specs = vec![];
    specs.extend(costs::specs());
    specs.extend(element::specs());
    specs.extend(path::specs());
    specs.extend(misc::specs());
    specs.extend(flags::specs());
    specs.extend(query::specs());
    specs.extend(proof_ops::specs());
    specs.extend(merk_proof::specs());
    specs.extend(mmr::specs());
    specs.extend(bulk::specs());
    specs.extend(dense::specs());
    kit::main(&specs);
}
