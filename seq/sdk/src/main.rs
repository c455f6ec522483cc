mod span;
mod env;
mod inmem;
mod jaeger;
mod logs;
mod scope;
mod resource;
mod sample;
mod tree;
fn main() {
    let mut f = vec![];
    f.extend(span::families());
    f.extend(tree::families());
    f.extend(sample::families());
    f.extend(resource::families());
    f.extend(logs::families());
    f.extend(env::families());
    f.extend(scope::families());
    f.extend(inmem::families());
    f.extend(jaeger::families());
    bmc::main(f)
}
