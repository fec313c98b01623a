mod api;
mod build;
mod check;
mod cost;
mod edit;
mod ext;
mod families;
mod hist;
mod model;
mod run;
mod spec;
mod textprops;
mod up;

fn main() {
    check::main()
}
