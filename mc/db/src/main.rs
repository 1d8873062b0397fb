//! Checkers of the database as a whole.
#[global_allocator]
static A: kit::Guard = kit::Guard;

mod accounts;
mod audit;
mod batches;
mod chunks;
mod contexts;
mod data;
mod engine;
mod entries;
mod ways;
mod model;
mod lifecycle;
mod maps;
mod queries;
mod readers;
mod estimates;
mod oneby;
mod restore;
mod forged;
mod prices;
mod proofs;
mod selfcheck;
mod sessions;
mod sync;
mod upwards;

fn main() {
    let mut specs = vec![];
    specs.extend(maps::specs());
    specs.push(kit::Spec { id: "D08", level: "model_checking", run: queries::d08 });
    specs.push(kit::Spec { id: "D09", level: "model_checking", run: proofs::d09 });
    specs.push(kit::Spec { id: "D10", level: "model_checking", run: forged::d10 });
    specs.push(kit::Spec { id: "D04", level: "model_checking", run: batches::d04 });
    specs.push(kit::Spec { id: "D05", level: "model_checking", run: sessions::d05 });
    specs.push(kit::Spec { id: "D06", level: "model_checking", run: sessions::d06 });
    specs.push(prices::spec());
    specs.push(accounts::spec());
    specs.push(entries::spec());
    specs.push(ways::spec());
    specs.push(contexts::spec());
    specs.push(sync::spec());
    specs.push(chunks::spec());
    specs.push(readers::spec());
    specs.push(selfcheck::spec());
    specs.push(lifecycle::spec());
    specs.push(kit::Spec { id: "D22", level: "model_checking", run: upwards::d22 });
    specs.push(kit::Spec { id: "D23", level: "model_checking", run: estimates::d23 });
    specs.push(kit::Spec { id: "D24", level: "model_checking", run: restore::d24 });
    specs.push(kit::Spec { id: "D25", level: "model_checking", run: oneby::d25 });
    kit::main(&specs);
}
