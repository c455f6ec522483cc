mod baggage;
mod ctx;
mod noop;
mod propag;
mod values;
fn main() {
    let mut f = vec![];
    f.extend(ctx::families());
    f.extend(propag::families());
    f.extend(baggage::families());
    f.extend(values::families());
    f.extend(noop::families());
    bmc::main(f)
}
