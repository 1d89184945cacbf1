mod gadgets;
mod programs;

fn main() {
    vlib::main(vec![programs::linear(), programs::emulators(), programs::routines(), gadgets::prop()]);
}
