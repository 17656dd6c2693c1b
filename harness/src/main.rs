mod alloc;
mod engine;
mod ops;
mod p_backend;
mod p_bscale;
mod p_mem;
mod p_scale;
mod p_sched;
mod p_sim;
mod p_stdlib;
mod refmodel;
mod sched;

#[global_allocator]
static ALLOC: alloc::Track = alloc::Track;

use engine::{Property, Tier};
use std::path::PathBuf;

fn properties() -> Vec<Property> {
    let p = |id: &'static str, jobs: fn(Tier) -> Vec<engine::Job>, a: &[&str]| Property {
        id,
        jobs,
        assumptions: a.iter().map(|s| (*s).to_string()).collect(),
    };
    let fp = "floating-point comparison tolerance 1e-8, equality up to one global phase";
    vec![
        p("C01", |t| [p_sim::c01(t), p_scale::c01(t)].into_iter().flatten().collect(), &[fp]),
        p("C02", |t| [p_sim::c02(t), p_scale::c02(t)].into_iter().flatten().collect(), &[fp]),
        p("C03", |t| [p_sim::c03(t), p_scale::c03(t)].into_iter().flatten().collect(), &[fp]),
        p("C04", |t| [p_sim::c04(t), p_scale::c04(t)].into_iter().flatten().collect(), &[fp]),
        p("C05", |t| [p_sim::c05(t), p_scale::c05(t)].into_iter().flatten().collect(), &[fp, "random draws come from the scripted generator in the vendored rand crate"]),
        p("C06", |t| [p_sim::c06(t), p_scale::c06(t)].into_iter().flatten().collect(), &[fp]),
        p("C07", |t| [p_sim::c07(t), p_scale::c07(t)].into_iter().flatten().collect(), &[fp]),
        p("C08", |t| [p_sim::c08(t), p_scale::c08(t), p_backend::c08_backend(t)].into_iter().flatten().collect(), &["a rejection is a panic of the call itself"]),
        p("C09", |t| [p_sim::c09(t), p_scale::c09(t)].into_iter().flatten().collect(), &[fp]),
        p("C10", |t| [p_sim::c10(t), p_scale::c10(t)].into_iter().flatten().collect(), &[fp]),
        p("C11", |t| [p_sim::c11_sim(t), p_backend::c11_backend(t), p_bscale::c11(t)].into_iter().flatten().collect(), &["the genuine generators of the rand crate are deterministic per seed"]),
        p("C12", |t| [p_backend::c12(t), p_bscale::c12(t)].into_iter().flatten().collect(), &[fp]),
        p("C13", |t| [p_backend::c13(t), p_bscale::c13(t)].into_iter().flatten().collect(), &[fp]),
        p("C14", |t| [p_backend::c14(t), p_bscale::c14(t)].into_iter().flatten().collect(), &[fp, "random draws come from the scripted generator in the vendored rand crate"]),
        p("C15", |t| [p_backend::c15(t), p_bscale::c15(t)].into_iter().flatten().collect(), &[fp, "probabilities and tolerances are finite and at least 10% of the tolerance away from the boundary (certain outcomes are also asserted with tolerance zero)"]),
        p("C16", |t| [p_backend::c16(t), p_bscale::c16(t)].into_iter().flatten().collect(), &["a fresh OS thread stands for a fresh process (the backend's state is thread-local)"]),
        p("C17", |t| [p_backend::c17(t), p_bscale::c17(t), p_sched::c17(t)].into_iter().flatten().collect(), &["inside runtime calls, threads are preempted at allocations, deallocations and random draws only"]),
        p("C18", p_backend::c18, &[fp]),
        p("C19", |t| [p_backend::c19(t), p_bscale::c19(t)].into_iter().flatten().collect(), &[fp]),
        p("C20", p_stdlib::c20, &["a program gives up its aliases before its last reference", "memory is tracked through the global allocator"]),
        p("C21", p_stdlib::c21, &["a program gives up its aliases before its last reference"]),
        p("C22", p_stdlib::c22, &["element size is at least one byte"]),
        p("C23", p_stdlib::c23, &["division truncates towards zero and the remainder has the dividend's sign, as in the program's source language"]),
        p("C24", p_stdlib::c24, &[]),
        p("C25", p_stdlib::c25, &["a controlled callable is invoked with a (controls, arguments) tuple per level"]),
        p("C26", p_stdlib::c26, &["messages are valid UTF-8"]),
        p("C27", p_stdlib::c27, &["the host's libm is the specification of the elementary functions, with one unit in the last place of slack"]),
        p("C32", p_mem::c32, &["functions that hand out unmanaged memory by design (memory_allocate, bigint_get_data) are left out"]),
        p("C28", p_stdlib::c28, &["a panic that cannot unwind (abort) counts as termination"]),
    ]
}

fn main() {
    engine::install_quiet_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    engine::main_with(properties(), &args, PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())));
}
