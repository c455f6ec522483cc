//! C49: what a scrape of the Prometheus exporter shows.
mod conflict;
mod histories;
mod labels;
mod names;
mod text;
mod world;
fn main() {
    let mut f = vec![];
    f.extend(names::families());
    f.extend(labels::families());
    f.extend(histories::families());
    f.extend(conflict::families());
    bmc::main(f)
}
