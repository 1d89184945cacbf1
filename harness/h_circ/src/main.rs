mod horner;
mod layout;
mod metrics;
mod poly;
mod poly_mask;
mod reg;
mod stage;
mod wiring;
fn main() {
    layout::rank_is();
    vlib::main(vec![poly::polynomials(), poly::t_poly(), wiring::wiring(), wiring::traces(), wiring::identities(), metrics::sizes(), reg::registries(), reg::digests(), stage::staging(), stage::bonds(), horner::buffers()]);
}
