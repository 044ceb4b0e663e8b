use vcore::world::Weights;
use vcore::*;

fn main() {
    let mut rep = Report::new("C05", "Random histories of register, unregister, create, remove, write and bind on both baselines of a realm, with valid and invalid arguments. After every operation all that can be observed is compared with a reference model. A case is one reached state of a baseline (contracts, objects, their values); it is distinct by that whole state");
    let wt = Weights { reg: 4, unreg: 2, create: 15, create_bad: 2, remove: 8, remove_bad: 1, write: 60, bulk: 1 };
    let n = rep.scale(300, 8000);
    hist::run(&mut rep, "C05", wt, n, 90);
    big::run(&mut rep, "C05");
    rep.finish()
}
