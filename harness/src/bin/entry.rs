//! drives the program through its deployed entry point only
fn main() {
    tbc_conformance::serve(tbc_conformance::entry_runner, |_| None)
}
