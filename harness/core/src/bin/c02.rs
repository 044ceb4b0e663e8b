use vcore::world::Weights;
use vcore::*;

fn main() {
    let mut rep = Report::new("C02", "Random histories of register, unregister, create, remove, write and bind on both baselines of a realm, with valid and invalid arguments. After every operation all that can be observed is compared with a reference model. A case is one reached state of a baseline (contracts, objects, their values); it is distinct by that whole state");
    let wt = Weights { reg: 4, unreg: 3, create: 30, create_bad: 3, remove: 22, remove_bad: 10, write: 10, bulk: 2 };
    let n = rep.scale(300, 8000);
    hist::run(&mut rep, "C02", wt, n, 80);
    big::run(&mut rep, "C02");
    rep.finish()
}
