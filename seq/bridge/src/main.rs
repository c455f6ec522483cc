mod facade;
mod record;
#[cfg(feature = "full")]
mod structured;
mod tracing_events;
fn main() {
    let mut f = vec![];
    f.extend(facade::families());
    f.extend(tracing_events::families());
    #[cfg(feature = "full")]
    f.extend(structured::families());
    bmc::main(f)
}
