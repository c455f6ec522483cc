mod back;
mod client;
mod common;
mod logs;
mod grpc;
mod http;
mod mets;
mod net;
mod otlp;
mod spans;
mod tree;
mod zip;
fn main() {
    let mut f = vec![];
    f.extend(spans::families());
    f.extend(logs::families());
    f.extend(mets::families());
    f.extend(http::families());
    f.extend(grpc::families());
    f.extend(client::families());
    f.extend(zip::families());
    f.extend(back::families());
    bmc::main(f)
}
