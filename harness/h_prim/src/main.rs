mod coll;
mod elem;
mod endo;
mod point;
mod sim;
mod sponge;
fn main() {
    vlib::main(vec![elem::elements(), elem::booleans(), point::points(), endo::endoscalars(), sponge::sponges(), coll::collections(), coll::consistencies(), sim::simulators()]);
}
