#![feature(allocator_api)]
#![allow(clippy::all)]
mod big;
mod ctx;
mod gens;
mod p_dsu;
mod p_flow;
mod p_hand;
mod p_help;
mod p_impl;
mod p_mesh;
mod p_num;
mod p_poly;
mod p_pred;
mod p_tet;
mod p_tri;

use ctx::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string())
    };
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "10").parse().unwrap();
    let only: Option<u64> = get("--case", "").parse().ok();
    let mut c = Ctx::new(seed, secs, only);
    match prop.as_str() {
        "mesh" => p_mesh::run(&mut c, false),
        "mesh_iter" => p_mesh::run(&mut c, true),
        "tri" => p_tri::run(&mut c),
        "handles" => p_hand::run(&mut c),
        "tet" => p_tet::run(&mut c),
        "dedup" => p_poly::run_dedup(&mut c),
        "poly" => p_poly::run_poly(&mut c),
        "dsu" => p_dsu::run(&mut c),
        "flow_pr" => p_flow::run_pr(&mut c),
        "flow_bk" => p_flow::run_bk(&mut c),
        "expansion" => p_num::run_exp(&mut c),
        "interval" => p_num::run_ival(&mut c),
        "implicit" => p_impl::run_points(&mut c),
        "less" => p_impl::run_less(&mut c),
        "orient_impl" => p_impl::run_orient(&mut c),
        "helpers" => p_help::run(&mut c),
        "orient" => p_pred::run_orient(&mut c),
        "lift" => p_pred::run_lift(&mut c),
        _ => {
            eprintln!("unknown replay suite {prop}");
            std::process::exit(3);
        }
    }
    c.finish();
}
