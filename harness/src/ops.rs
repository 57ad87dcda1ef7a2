use serde_json::{json, Value};
use std::cell::RefCell;

use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, Solution, VecMatrix};
use walky::solvers::approximate::christofides::{christofides, christofides_generic};
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::{
    n_nearest_neighbour, nearest_neighbour, single_nearest_neighbour,
};
use walky::solvers::{exact, is_hamiltonian_cycle};
use walky::{mst, one_tree, parser, preconditions};

/// costs from this value on mean that there is no edge
pub const INF: i64 = 1_000_000_000;

/// An instance: integer costs, and the factor that turns them into the floats the library gets.
pub struct Inst {
    pub n: usize,
    pub c: Vec<Vec<i64>>,
    pub mul: f64,
    pub div: f64,
    /// costs from this value on (a detour nobody takes) become astronomically large
    pub huge: i64,
    /// what is added to the cost of every edge (and subtracted from every result, once per edge):
    /// no tour, tree or matching changes its place, but all costs get close to each other
    pub off: f64,
}

const HUGE: f64 = 1e20;

fn us(v: &Value) -> usize {
    v.as_u64().expect("natural number") as usize
}
fn uss(v: &Value) -> Vec<usize> {
    v.as_array().expect("array").iter().map(us).collect()
}

impl Inst {
    pub fn new(case: &Value) -> Self {
        let c: Vec<Vec<i64>> = match case["c"].as_array() {
            Some(rows) => rows
                .iter()
                .map(|r| {
                    r.as_array()
                        .unwrap()
                        .iter()
                        .map(|x| x.as_i64().unwrap())
                        .collect()
                })
                .collect(),
            None => Vec::new(),
        };
        Inst {
            n: c.len(),
            c,
            mul: case["mul"].as_f64().unwrap_or(1.0),
            div: case["div"].as_f64().unwrap_or(1.0),
            huge: case["huge"].as_i64().unwrap_or(INF),
            off: case["off"].as_f64().unwrap_or(0.0),
        }
    }
    pub fn f(&self, v: i64) -> f64 {
        if v >= INF {
            f64::INFINITY
        } else if v >= self.huge {
            HUGE
        } else {
            self.off + v as f64 * self.mul / self.div
        }
    }
    pub fn na(&self) -> NAMatrix {
        let mut m = NAMatrix::from_dim(self.n);
        for i in 0..self.n {
            for j in 0..self.n {
                m.set(i, j, self.at(i, j));
            }
        }
        m
    }
    fn at(&self, i: usize, j: usize) -> f64 {
        if i == j && self.c[i][j] == 0 {
            0.0
        } else {
            self.f(self.c[i][j])
        }
    }
    fn vec(&self) -> VecMatrix {
        let rows: Vec<Vec<f64>> = (0..self.n)
            .map(|i| (0..self.n).map(|j| self.at(i, j)).collect())
            .collect();
        rows.into()
    }
    /// as adjacency list, edges in the given order of targets
    pub fn graph(&self) -> Graph {
        Graph::from(
            (0..self.n)
                .map(|i| {
                    (0..self.n)
                        .filter(|&j| j != i && self.c[i][j] < INF)
                        .map(|j| Edge {
                            to: j,
                            cost: self.f(self.c[i][j]),
                        })
                        .collect::<Vec<Edge>>()
                })
                .collect::<Vec<_>>(),
        )
    }
    /// float of the library --> integer of the model
    pub fn enc(&self, x: f64) -> Value {
        self.enc_of(x, 1)
    }
    /// the same for the sum of the costs of so many edges
    pub fn enc_of(&self, x: f64, edges: usize) -> Value {
        if x.is_nan() {
            return json!({"k": "nan", "v": -1});
        }
        if x == f64::INFINITY {
            return json!({"k": "inf", "v": INF});
        }
        if x == f64::NEG_INFINITY {
            return json!({"k": "neginf", "v": -1});
        }
        let y = (x - self.off * edges as f64) / self.mul * self.div;
        let r = y.round();
        if (y - r).abs() > 1e-6 * r.abs().max(1.0) {
            return json!({"k": "frac", "v": -1, "raw": format!("{:?}", x)});
        }
        if r.abs() > 6e8 {
            return json!({"k": "big", "v": -1, "raw": format!("{:?}", x)});
        }
        json!({"k": "num", "v": r as i64})
    }
    pub fn sol(&self, s: Solution) -> Value {
        let mut v = self.enc_of(s.0, self.n);
        v["p"] = json!(s.1);
        v
    }
    pub fn adj(&self, g: &Graph) -> Value {
        let adj: Vec<Vec<Value>> = g
            .iter()
            .map(|v| {
                v.iter()
                    .map(|e| json!([e.to, self.enc(e.cost)["v"]]))
                    .collect()
            })
            .collect();
        let ends: usize = g.iter().map(|v| v.iter().count()).sum();
        let mut v = self.enc_of(g.undirected_edge_weight(), ends / 2);
        let d = self.enc_of(g.directed_edge_weight(), ends);
        v["adj"] = json!(adj);
        v["dk"] = d["k"].clone();
        v["dv"] = d["v"].clone();
        v
    }
}

thread_local! {
    /// the matching the callback of christofides_generic has computed
    static USED: RefCell<(Vec<usize>, Vec<[usize; 2]>)> = const { RefCell::new((Vec::new(), Vec::new())) };
}

fn odd_vertices(mst: &Graph) -> Vec<usize> {
    (0..mst.num_vertices())
        .filter(|&i| mst.vertex_degree(i) % 2 == 1)
        .collect()
}

fn remember(mst: &Graph, m: Vec<[usize; 2]>) -> Vec<[usize; 2]> {
    let odd = odd_vertices(mst);
    USED.with(|u| *u.borrow_mut() = (odd, m.clone()));
    m
}

fn exact_matching(mst: &Graph, g: &NAMatrix) -> Vec<[usize; 2]> {
    fn go(g: &NAMatrix, vs: &[usize]) -> (f64, Vec<[usize; 2]>) {
        if vs.is_empty() {
            return (0.0, vec![]);
        }
        let mut best = (f64::INFINITY, vec![]);
        for k in 1..vs.len() {
            let rest: Vec<usize> = (1..vs.len()).filter(|&i| i != k).map(|i| vs[i]).collect();
            let (c, mut m) = go(g, &rest);
            let c = c + g.get(vs[0], vs[k]);
            if c < best.0 {
                m.push([vs[0], vs[k]]);
                best = (c, m);
            }
        }
        best
    }
    remember(mst, go(g, &odd_vertices(mst)).1)
}

/// pairs the odd vertices in the order of their indices
fn naive_matching(mst: &Graph, _g: &NAMatrix) -> Vec<[usize; 2]> {
    remember(
        mst,
        odd_vertices(mst).chunks(2).map(|c| [c[0], c[1]]).collect(),
    )
}

/// pairs the odd vertices from the outside to the inside, larger vertex first
fn nested_matching(mst: &Graph, _g: &NAMatrix) -> Vec<[usize; 2]> {
    let o = odd_vertices(mst);
    let m = (0..o.len() / 2).map(|i| [o[o.len() - 1 - i], o[i]]).collect();
    remember(mst, m)
}

/// matches along edges of the spanning tree where possible, which doubles tree edges
fn tree_matching(mst: &Graph, _g: &NAMatrix) -> Vec<[usize; 2]> {
    let odd = odd_vertices(mst);
    let mut left: Vec<usize> = odd.clone();
    let mut m = vec![];
    for &v in &odd {
        if !left.contains(&v) {
            continue;
        }
        if let Some(e) = mst[v].iter().find(|e| e.to != v && left.contains(&e.to)) {
            m.push([v, e.to]);
            left.retain(|&x| x != v && x != e.to);
        }
    }
    m.extend(left.chunks(2).map(|c| [c[0], c[1]]));
    remember(mst, m)
}

fn approx_matching(mst: &Graph, g: &NAMatrix) -> Vec<[usize; 2]> {
    let odd = odd_vertices(mst);
    let t = odd.len() * odd.len();
    remember(
        mst,
        approx_min_cost_matching::<{ SEQ_COMPUTATION }>(g, odd, t),
    )
}

fn par(op: &Value) -> bool {
    op["mode"].as_str() == Some("par")
}

pub fn run(inst: &Inst, op: &Value) -> Value {
    let name = op["op"].as_str().expect("op");
    match name {
        "v0" | "v1" | "v2" | "v3" | "v4" if op["rep"].as_str() == Some("vec") => {
            let m = inst.vec();
            inst.sol(match name {
                "v0" => exact::naive_solver(&m),
                "v1" => exact::first_improved_solver(&m),
                "v2" => exact::second_improved_solver(&m),
                "v3" => exact::third_improved_solver(&m),
                _ => exact::fourth_improved_solver(&m),
            })
        }
        "v0" | "v1" | "v2" | "v3" | "v4" | "v5" | "v6" => {
            let m = inst.na();
            inst.sol(match name {
                "v0" => exact::naive_solver(&m),
                "v1" => exact::first_improved_solver(&m),
                "v2" => exact::second_improved_solver(&m),
                "v3" => exact::third_improved_solver(&m),
                "v4" => exact::fourth_improved_solver(&m),
                "v5" => exact::fifth_improved_solver(&m),
                _ => exact::sixth_improved_solver(&m),
            })
        }
        "thr" => crate::hooks::threaded(inst, &inst.na(), op, |m| exact::threaded_solver(m)),
        "mst" => {
            let m = inst.na();
            let ex = if op["ex"].is_null() { vec![] } else { uss(&op["ex"]) };
            let g = match op["var"].as_str().unwrap() {
                "prim_seq" => mst::prim::<{ SEQ_COMPUTATION }>(&m),
                "prim_par" => mst::prim::<{ PAR_COMPUTATION }>(&m),
                "seq" => mst::prim_with_excluded_node_single_threaded(&m, &ex),
                "par" => mst::prim_with_excluded_node_multi_threaded(&m, &ex),
                "pq" => mst::prim_with_excluded_node_priority_queue(&m, &ex),
                x => panic!("unknown variant {x}"),
            };
            inst.adj(&g)
        }
        "onetree" => inst.adj(&one_tree::one_tree(&inst.na(), us(&op["s"]))),
        "otb" => {
            let m = inst.na();
            let bound = if par(op) {
                one_tree::one_tree_lower_bound::<{ PAR_COMPUTATION }>(&m)
            } else {
                one_tree::one_tree_lower_bound::<{ SEQ_COMPUTATION }>(&m)
            };
            inst.enc_of(bound, inst.n)
        }
        "nn1" => inst.sol(single_nearest_neighbour(&inst.na(), us(&op["s"]))),
        "nn" => {
            let m = inst.na();
            inst.sol(if par(op) {
                nearest_neighbour::<{ PAR_COMPUTATION }>(&m)
            } else {
                nearest_neighbour::<{ SEQ_COMPUTATION }>(&m)
            })
        }
        "nnk" => {
            let m = inst.na();
            let k = us(&op["num"]);
            inst.sol(if par(op) {
                n_nearest_neighbour::<{ PAR_COMPUTATION }>(&m, k)
            } else {
                n_nearest_neighbour::<{ SEQ_COMPUTATION }>(&m, k)
            })
        }
        "match" => {
            let m = if inst.n == 0 {
                big(us(&op["dim"]))
            } else {
                inst.na()
            };
            let vs = uss(&op["verts"]);
            let t = us(&op["tries"]);
            let r = if par(op) {
                approx_min_cost_matching::<{ PAR_COMPUTATION }>(&m, vs, t)
            } else {
                approx_min_cost_matching::<{ SEQ_COMPUTATION }>(&m, vs, t)
            };
            json!({"k": "num", "v": 0, "m": r})
        }
        "chris" => {
            let m = inst.na();
            let g: Option<fn(&Graph, &NAMatrix) -> Vec<[usize; 2]>> = match op["with"].as_str() {
                None => None,
                Some("exact") => Some(exact_matching),
                Some("naive") => Some(naive_matching),
                Some("nested") => Some(nested_matching),
                Some("tree") => Some(tree_matching),
                Some("approx") => Some(approx_matching),
                Some(x) => panic!("unknown matching {x}"),
            };
            USED.with(|u| *u.borrow_mut() = (Vec::new(), Vec::new()));
            let s = match (g, par(op)) {
                (None, false) => christofides::<{ SEQ_COMPUTATION }>(&m),
                (None, true) => christofides::<{ PAR_COMPUTATION }>(&m),
                (Some(g), false) => christofides_generic::<{ SEQ_COMPUTATION }>(&m, g),
                (Some(g), true) => christofides_generic::<{ PAR_COMPUTATION }>(&m, g),
            };
            let mut v = inst.sol(s);
            USED.with(|u| {
                v["odd"] = json!(u.borrow().0);
                v["m"] = json!(u.borrow().1);
            });
            v
        }
        "parse" => {
            let xml = op["xml"].as_str().unwrap();
            match parser::TravellingSalesmanProblemInstance::parse_from_xml(xml) {
                Err(_) => json!({"k": "rejected"}),
                Ok(t) => {
                    let m: NAMatrix = (&t.graph).into();
                    let w: VecMatrix = t.graph.clone().into();
                    let n = t.graph.num_vertices();
                    let enc = |f: &dyn Fn(usize, usize) -> f64| -> Vec<Vec<Value>> {
                        (0..n)
                            .map(|i| (0..n).map(|j| inst.enc(f(i, j))["v"].clone()).collect())
                            .collect()
                    };
                    json!({"k": "accepted", "n": n,
                        "m": enc(&|i, j| m.get(i, j)), "w": enc(&|i, j| w.get(i, j)),
                        "name": t.name, "source": t.source, "description": t.description,
                        "dp": t.double_precision, "ig": t.ignored_digits})
                }
            }
        }
        "doc" => {
            // a generated document: what the parser makes of it, and whether Christofides'
            // algorithm accepts it (its assertions insist on the triangle inequality)
            let xml = std::fs::read_to_string(op["path"].as_str().unwrap()).expect("file");
            match parser::TravellingSalesmanProblemInstance::parse_from_xml(&xml) {
                Err(_) => json!({"k": "rejected"}),
                Ok(t) => {
                    let m: NAMatrix = (&t.graph).into();
                    let w: VecMatrix = t.graph.clone().into();
                    let n = t.graph.num_vertices();
                    let raw: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| m.get(i, j)).collect()).collect();
                    let metric = m.is_metric() && w.is_metric();
                    if op["chris"].as_bool() == Some(true) {
                        christofides::<{ SEQ_COMPUTATION }>(&m);
                    }
                    json!({"k": "accepted", "n": n, "raw": raw, "metric": metric})
                }
            }
        }
        "pre" => {
            // adjacency list given explicitly: the preconditions one by one
            let g = graph_of(inst, &op["adj"]);
            json!({"k": "num", "v": 0,
                "full": preconditions::is_fully_connected(&g),
                "multi": preconditions::is_multi_edge(&g)})
        }
        "undirected" => {
            let g = graph_of(inst, &op["adj"]);
            json!({"k": "num", "v": 0, "und": preconditions::is_undirected(&g)})
        }
        "perm" => {
            let mut a: Vec<i64> = op["a"]
                .as_array()
                .unwrap()
                .iter()
                .map(|x| x.as_i64().unwrap())
                .collect();
            let limit = us(&op["limit"]);
            let mut seen = vec![json!(a)];
            let mut more = true;
            while seen.len() <= limit {
                more = exact::next_permutation(&mut a);
                if !more {
                    break;
                }
                seen.push(json!(a));
            }
            json!({"k": "num", "v": 0, "seen": seen, "more": more})
        }
        "next" => {
            let mut d = uss(&op["d"]);
            let r = exact::get_next_value(&mut d, us(&op["b"]));
            json!({"k": "num", "v": 0, "none": r.is_none(),
                "r": r.unwrap_or_default(), "d": d, "d0": op["d"]})
        }
        "split" => {
            let (d, b, n) = (us(&op["d"]), us(&op["b"]), us(&op["num"]));
            let ch: Vec<Value> = (0..n)
                .map(|k| {
                    let (lo, hi) = exact::split_up_b_ary_number_into_n_chunks(d, b, n, k);
                    json!([lo, hi])
                })
                .collect();
            json!({"k": "num", "v": 0, "chunks": ch})
        }
        "splitat" => {
            // some chunks of a space that is too large to look at all of them
            let num = |v: &Value| v.as_str().unwrap().parse::<usize>().unwrap();
            let (d, b, n) = (us(&op["d"]), us(&op["b"]), num(&op["num"]));
            let mut last = None;
            let some: Vec<Value> = op["ks"]
                .as_array()
                .unwrap()
                .iter()
                .map(num)
                .map(|k| {
                    let (lo, hi) = exact::split_up_b_ary_number_into_n_chunks(d, b, n, k);
                    let next = k > 0 && last == Some(k - 1);
                    last = Some(k);
                    json!({"lo": lo, "hi": hi, "first": k == 0, "last": k + 1 == n, "next": next})
                })
                .collect();
            json!({"k": "num", "v": 0, "some": some})
        }
        "eval" => {
            let p = uss(&op["p"]);
            let (na, ve) = (inst.na(), inst.vec());
            let via: NAMatrix = (&ve).into();
            json!({"k": "num", "v": 0, "r": [
                inst.enc(na.evaluate_path(&p)), inst.enc(ve.evaluate_path(&p)),
                inst.enc(via.evaluate_path(&p))],
                "q": [inst.enc(na.evaluate_circle(&p)), inst.enc(ve.evaluate_circle(&p)),
                inst.enc(via.evaluate_circle(&p))]})
        }
        "matrices" => {
            let g = inst.graph();
            let a: NAMatrix = (&g).into();
            let b: VecMatrix = g.into();
            let c: NAMatrix = (&b).into();
            let d = inst.na();
            let e: NAMatrix = (&inst.vec()).into();
            let mut f = VecMatrix::from_dim(inst.n);
            for i in 0..inst.n {
                for j in 0..inst.n {
                    if i != j {
                        f.set(i, j, inst.f(inst.c[i][j]));
                    }
                }
            }
            let ms: [(&str, &dyn Fn(usize, usize) -> f64, usize, bool); 6] = [
                ("graph->na", &|i, j| a.get(i, j), a.dim(), a.is_metric()),
                ("graph->vec", &|i, j| b.get(i, j), b.dim(), b.is_metric()),
                ("graph->vec->na", &|i, j| c.get(i, j), c.dim(), c.is_metric()),
                ("na", &|i, j| d.get(i, j), d.dim(), d.is_metric()),
                ("vec->na", &|i, j| e.get(i, j), e.dim(), e.is_metric()),
                ("set", &|i, j| f.get(i, j), f.dim(), f.is_metric()),
            ];
            let r: Vec<Value> = ms
                .iter()
                .map(|(name, get, dim, metric)| {
                    json!({"how": name, "dim": dim, "metric": metric,
                        "m": (0..*dim).map(|i| (0..*dim).map(|j| inst.enc(get(i, j))["v"].clone())
                            .collect::<Vec<_>>()).collect::<Vec<_>>()})
                })
                .collect();
            json!({"k": "num", "v": 0, "ms": r})
        }
        "points" => {
            let pts: Vec<[f64; 2]> = op["pts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| [p[0].as_f64().unwrap(), p[1].as_f64().unwrap()])
                .collect();
            let n = pts.len();
            let ps = op["ps"].as_f64().unwrap_or(1.0);
            let at: [f64; 2] = [op["at"][0].as_f64().unwrap_or(0.0), op["at"][1].as_f64().unwrap_or(0.0)];
            let pts: Vec<[f64; 2]> = pts.iter().map(|p| [p[0] * ps + at[0], p[1] * ps + at[1]]).collect();
            let a = NAMatrix::from_points(&pts);
            let b = NAMatrix::par_from_points(&pts);
            let milli = |m: &NAMatrix| -> Vec<Vec<i64>> {
                (0..n)
                    .map(|i| {
                        (0..n)
                            .map(|j| {
                                let x = m.get(i, j) / ps * 1000.0;
                                if x.is_finite() && x < 1e9 { x.round() as i64 } else { -1 }
                            })
                            .collect()
                    })
                    .collect()
            };
            // largest relative difference, in units of 1e-12
            let mut diff = 0f64;
            for i in 0..n {
                for j in 0..n {
                    let (x, y) = (a.get(i, j), b.get(i, j));
                    let d = (x - y).abs() / x.abs().max(1e-300) * 1e12;
                    diff = diff.max(if d.is_nan() { 1e9 } else { d.min(1e9) });
                }
            }
            json!({"k": "num", "v": 0, "a": milli(&a), "b": milli(&b), "diff": diff.round() as i64,
                "am": a.is_metric(), "bm": b.is_metric()})
        }
        "ham" => {
            let s = uss(&op["p"]);
            let n = us(&op["n"]);
            let a = is_hamiltonian_cycle(&s, &NAMatrix::from_dim(n));
            let b = is_hamiltonian_cycle(&s, &VecMatrix::from_dim(n));
            json!({"k": "num", "v": 0, "a": a, "b": b})
        }
        "hist" => {
            // a history of operations on an adjacency list
            let n = us(&op["n"]);
            let mut g = Graph::from(vec![Vec::<Edge>::new(); n]);
            let snap = |g: &Graph| -> Value {
                let mut v = inst.adj(g);
                v["deg"] = json!((0..g.num_vertices()).map(|i| g.vertex_degree(i)).collect::<Vec<_>>());
                v
            };
            let mut steps = vec![snap(&g)];
            for e in op["h"].as_array().unwrap() {
                g.add_undirected_edge(us(&e[0]), us(&e[1]), inst.f(e[2].as_i64().unwrap()));
                steps.push(snap(&g));
            }
            json!({"k": "num", "v": 0, "steps": steps})
        }
        x => panic!("unknown operation {x}"),
    }
}

/// a big instance, not given explicitly: cost(i, j) = |i - j| mod 7
fn big(n: usize) -> NAMatrix {
    NAMatrix(nalgebra::DMatrix::from_fn(n, n, |i, j| (i.abs_diff(j) % 7) as f64))
}

fn graph_of(inst: &Inst, adj: &Value) -> Graph {
    Graph::from(
        adj.as_array()
            .unwrap()
            .iter()
            .map(|v| {
                v.as_array()
                    .unwrap()
                    .iter()
                    .map(|e| Edge {
                        to: us(&e[0]),
                        cost: inst.f(e[1].as_i64().unwrap()),
                    })
                    .collect::<Vec<Edge>>()
            })
            .collect::<Vec<_>>(),
    )
}
