//! The operations of one rank.

use crate::ops::Inst;
use serde_json::{json, Value};

use mpi::topology::{Communicator, SystemCommunicator};
use walky::computation_mode::MPI_COMPUTATION;
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::matching::{
    approx_min_cost_matching, bootstrap_mpi_matching_calc, mpi_improve_matching,
};
use walky::solvers::approximate::nearest_neighbour::{
    n_nearest_neighbour, nearest_neighbour, nearest_neighbour_mpi,
};
use walky::solvers::exact;
use walky::{mst, one_tree};

fn us(v: &Value) -> usize {
    v.as_u64().expect("natural number") as usize
}

/// the part of a process that only helps the main one to find a matching
fn helper() -> Value {
    let world = SystemCommunicator::world();
    let rank = world.rank();
    let root = world.process_at_rank(0);
    let mut tries = 0;
    let (mut matching, graph) =
        bootstrap_mpi_matching_calc(&root, &mut [], rank, &mut tries, &NAMatrix::from_dim(1));
    mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
    json!({"k": "match", "v": 0, "m": matching, "dim": graph.dim(), "tries": tries})
}

pub fn call(inst: &Inst, op: &Value) -> Value {
    let m = inst.na();
    match op["op"].as_str().unwrap() {
        "mstatic" => match op["prefix"].as_u64() {
            Some(p) => inst.sol(exact::static_mpi_solver_generic(&m, p as usize)),
            None => inst.sol(exact::static_mpi_solver(&m)),
        },
        "mdyn" => inst.sol(exact::dynamic_mpi_solver(&m)),
        "mnn" => inst.sol(match op["var"].as_str() {
            Some("direct") => nearest_neighbour_mpi(&m),
            Some("n") => n_nearest_neighbour::<{ MPI_COMPUTATION }>(&m, us(&op["num"])),
            _ => nearest_neighbour::<{ MPI_COMPUTATION }>(&m),
        }),
        "motb" => inst.enc_of(one_tree::one_tree_lower_bound::<{ MPI_COMPUTATION }>(&m), inst.n),
        "mmst" => inst.adj(&mst::prim::<{ MPI_COMPUTATION }>(&m)),
        "mchris" => {
            if SystemCommunicator::world().rank() == 0 {
                inst.sol(christofides::<{ MPI_COMPUTATION }>(&m))
            } else {
                helper()
            }
        }
        // the matching alone: over a list of vertices, or from a given matching
        "mmatch" => {
            if SystemCommunicator::world().rank() != 0 {
                return helper();
            }
            let vs: Vec<usize> = op["verts"].as_array().unwrap().iter().map(us).collect();
            let t = us(&op["tries"]);
            let r = if op["var"].as_str() == Some("given") {
                let mut r: Vec<[usize; 2]> = vs.chunks_exact(2).map(|c| [c[0], c[1]]).collect();
                mpi_improve_matching(&m, r.as_mut_slice(), t, SystemCommunicator::world());
                r
            } else {
                approx_min_cost_matching::<{ MPI_COMPUTATION }>(&m, vs, t)
            };
            json!({"k": "match", "v": 0, "m": r, "dim": m.dim(), "tries": t})
        }
        "cli" => {
            let args: Vec<&str> = op["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
            let cli = <walky::cli::Cli as clap::Parser>::try_parse_from(std::iter::once("walky").chain(args));
            match cli {
                Err(e) => json!({"k": "usage", "msg": e.to_string().chars().take(200).collect::<String>()}),
                Ok(c) => match walky::run(c) {
                    Ok(()) => json!({"k": "ok"}),
                    Err(e) => json!({"k": "err", "msg": e.to_string().chars().take(200).collect::<String>()}),
                },
            }
        }
        x => panic!("unknown operation {x}"),
    }
}

/// all calls of one rank, one after the other
pub fn calls(inst: &Inst, op: &Value) -> Value {
    let mut out = vec![];
    let universe = if op["init"].as_bool().unwrap_or(true) { mpi::initialize() } else { None };
    for c in op["calls"].as_array().unwrap() {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(inst, c)));
        match r {
            Ok(v) => out.push(v),
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                out.push(json!({"k": "panic", "msg": msg.chars().take(200).collect::<String>()}));
                // a real process would be gone now, and its job with it
                std::mem::forget(universe);
                return json!(out);
            }
        }
    }
    drop(universe);
    json!(out)
}
