//! One operation on the installed MPI: mpireal CASE OUT, started by mpirun. Every rank writes its
//! results into OUT.<rank>.

mod calls;
#[path = "../../harness/src/hooks.rs"]
mod hooks;
#[path = "../../harness/src/ops.rs"]
#[allow(dead_code)]
mod ops;

use serde_json::Value;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let case: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("case")).expect("case");
    let inst = ops::Inst::new(&case);
    let rank = std::env::var("OMPI_COMM_WORLD_RANK").expect("not started by mpirun");
    let v = calls::calls(&inst, &case["ops"][0]);
    std::fs::write(format!("{}.{rank}", a[2]), v.to_string()).expect("result");
}
