mod util;
mod spans;
mod logs;
mod providers;
mod metrics;
mod arun;
mod asyncs;
mod periodic;
mod shared_span;
mod globals;
mod remote;
mod feedback;
mcstd::interpose!();
fn main() {
    let mut v = Vec::new();
    v.extend(spans::scenarios());
    v.extend(logs::scenarios());
    v.extend(providers::scenarios());
    v.extend(metrics::scenarios());
    v.extend(periodic::scenarios());
    v.extend(asyncs::scenarios());
    v.extend(shared_span::scenarios());
    v.extend(globals::scenarios());
    v.extend(remote::scenarios());
    v.extend(feedback::scenarios());
    mcstd::explore::main(v);
}
