#[macro_use]
mod app;
mod crook;
mod fold;
mod head;
mod intern;
mod plain;
mod same;
mod tamper;
mod trans;
mod tree;
fn main() {
    vlib::main(vec![
        tree::completeness(),
        tamper::own(),
        tamper::recursion(),
        head::headers(),
        tree::fiat_shamir(trans::transcripts()),
        fold::folding(),
        fold::endoscaling(),
        tree::freshness(),
        intern::hashes(),
        intern::collapses(),
        intern::evaluation(),
        same::reproducible(),
    ]);
}
