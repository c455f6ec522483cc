mod agree;
mod common;
mod group;
mod ident;
mod model;
mod obs;
mod sync;
mod views;
fn main() {
    let mut f = vec![];
    f.extend(sync::families());
    f.extend(agree::families());
    f.extend(group::families());
    f.extend(views::families());
    f.extend(ident::families());
    f.extend(obs::families());
    bmc::main(f)
}
