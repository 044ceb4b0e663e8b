use vcore::world::Weights;
use vcore::*;

fn main() {
    let mut rep = Report::new("C06", "Random histories of register, unregister, create, remove, write and bind on both baselines of a realm, with valid and invalid arguments. After every operation all that can be observed is compared with a reference model. A case is one reached state of a baseline (contracts, objects, their values); it is distinct by that whole state");
    let wt = Weights { reg: 12, unreg: 9, create: 35, create_bad: 2, remove: 14, remove_bad: 1, write: 10, bulk: 2 };
    let n = rep.scale(300, 8000);
    hist::run(&mut rep, "C06", wt, n, 80);
    big::run(&mut rep, "C06");
    rep.finish()
}
