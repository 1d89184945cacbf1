mod gen_struct;
mod neg;
mod pos;
mod rc;

fn main() {
    vlib::main(vec![pos::derive_prop(), pos::kind_prop(), pos::literal_prop(), neg::prop(), pos::cast_prop(), neg::maybe_prop()])
}
