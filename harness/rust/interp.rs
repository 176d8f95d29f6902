//! Executes the calls on standard input through the Rust interface; one answer per line on standard output.
use coco_rs::{observer, suite, LogLevel, Observer, Problem, RandomState, Suite};
use std::collections::HashMap;
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bits(v: &[f64]) -> String {
    format!("[{}]", v.iter().map(|d| format!("{:016x}", d.to_bits())).collect::<Vec<_>>().join(","))
}
fn vec(f: &[&str]) -> Vec<f64> {
    f.iter().map(|s| f64::from_bits(u64::from_str_radix(s, 16).unwrap())).collect()
}
fn sname(s: &str) -> suite::Name {
    match s {
        "bbob" => suite::Name::Bbob,
        "bbob-biobj" => suite::Name::BbobBiobj,
        "bbob-biobj-ext" => suite::Name::BbobBiobjExt,
        "bbob-largescale" => suite::Name::BbobLargescale,
        "bbob-constrained" => suite::Name::BbobConstrained,
        "bbob-mixint" => suite::Name::BbobMixint,
        "bbob-biobj-mixint" => suite::Name::BbobBiobjMixint,
        "bbob-boxed" => suite::Name::SboxCost,
        _ => suite::Name::Toy,
    }
}
fn oname(s: &str) -> observer::Name {
    match s {
        "bbob" => observer::Name::Bbob,
        "bbob-biobj" => observer::Name::BbobBiobj,
        "toy" => observer::Name::Toy,
        _ => observer::Name::None,
    }
}
/* The problems of a suite live in an array beside it: the lifetime the interface demands is kept by the scripts. */
fn keep<'a>(p: Problem<'a>) -> Problem<'static> {
    unsafe { std::mem::transmute::<Problem<'a>, Problem<'static>>(p) }
}

#[derive(Default)]
struct All {
    p: HashMap<String, Problem<'static>>,
    o: HashMap<String, Observer>,
    s: HashMap<String, Suite>,
    r: HashMap<String, RandomState>,
}

fn exec(a: &mut All, f: &[&str]) -> String {
    let made = |a: &mut All, h: &str, p: Option<Problem<'static>>| match p {
        Some(p) => {
            a.p.insert(h.to_string(), p);
            "ok".to_string()
        }
        None => "null".to_string(),
    };
    match f[0] {
        "level" => {
            match f[1] {
                "error" => LogLevel::Error,
                "warning" => LogLevel::Warning,
                "debug" => LogLevel::Debug,
                _ => LogLevel::default(),
            }
            .set();
            "ok".into()
        }
        "suite" => match Suite::new(sname(f[2]), f[3], f[4]) {
            Some(s) => {
                let n = s.number_of_problems();
                a.s.insert(f[1].into(), s);
                format!("{} {}", f[2], n)
            }
            None => "null".into(),
        },
        "clone" => {
            let s = a.s[f[1]].clone();
            let n = s.number_of_problems();
            a.s.insert(f[2].into(), s);
            format!("{}", n)
        }
        "obs" => match Observer::new(oname(f[2]), f[3]) {
            Some(o) => {
                a.o.insert(f[1].into(), o);
                f[2].into()
            }
            None => "null".into(),
        },
        "folder" => a.o[f[1]].result_folder().to_string(),
        "count" => format!("{}", a.s[f[1]].number_of_problems()),
        "next" => {
            let s = a.s.get_mut(f[1]).unwrap();
            let p = s.next_problem(if f[2] == "-" { None } else { Some(a.o.get_mut(f[2]).unwrap()) }).map(keep);
            made(a, f[3], p)
        }
        "get" => {
            let p = a.s.get_mut(f[1]).unwrap().problem(suite::ProblemIdx(f[2].parse().unwrap())).map(keep);
            made(a, f[3], p)
        }
        "fdi" => {
            let p = a.s.get_mut(f[1]).unwrap().problem_by_function_dimension_instance(f[2].parse().unwrap(), f[3].parse().unwrap(), f[4].parse().unwrap()).map(keep);
            made(a, f[5], p)
        }
        "fof" => format!("{}", a.s[f[1]].function_from_function_index(suite::FunctionIdx(f[2].parse().unwrap()))),
        "dof" => format!("{}", a.s[f[1]].dimension_from_dimension_index(suite::DimensionIdx(f[2].parse().unwrap()))),
        "iof" => format!("{}", a.s[f[1]].instance_from_instance_index(suite::InstanceIdx(f[2].parse().unwrap()))),
        "meta" => {
            let p = &a.p[f[1]];
            let r = p.ranges_of_interest();
            let lo: Vec<f64> = r.iter().map(|v| *v.start()).collect();
            let hi: Vec<f64> = r.iter().map(|v| *v.end()).collect();
            let mut x = vec![0.0; p.dimension()];
            p.initial_solution(&mut x);
            let one = p.number_of_objectives() == 1;
            format!("{}|{}|{}|{}|{}|{}|{}|{}|{}|{}|{}|{}", p.id(), p.name(), if p.id().contains("_i") { p.typ() } else { "-" }, p.suite_index().0, p.dimension(), p.number_of_objectives(), p.number_of_constraints(), p.number_of_integer_variables(),
                bits(&lo), bits(&hi), bits(&x), if one { bits(&[p.best_value(), p.final_target_value()]) } else { "-".into() })
        }
        "eval" => {
            let p = a.p.get_mut(f[1]).unwrap();
            let mut y = vec![0.0; p.number_of_objectives()];
            p.evaluate_function(&vec(&f[2..]), &mut y);
            bits(&y)
        }
        "evaly" | "consy" => {
            /* a result vector of the wrong length */
            let p = a.p.get_mut(f[1]).unwrap();
            let n = if f[0] == "evaly" { p.number_of_objectives() } else { p.number_of_constraints() } as i64 + f[2].parse::<i64>().unwrap();
            let mut y = vec![7.5; n as usize + 8];
            let r = catch_unwind(AssertUnwindSafe(|| if f[0] == "evaly" { p.evaluate_function(&vec(&f[3..]), &mut y[..n as usize]) } else { p.evaluate_constraint(&vec(&f[3..]), &mut y[..n as usize]) }));
            if r.is_ok() { "accepted".into() } else if y.iter().any(|v| *v != 7.5) { "written".into() } else { "exception".into() }
        }
        "cons" => {
            let p = a.p.get_mut(f[1]).unwrap();
            let mut y = vec![0.0; p.number_of_constraints()];
            p.evaluate_constraint(&vec(&f[2..]), &mut y);
            bits(&y)
        }
        "state" => {
            let p = &a.p[f[1]];
            let one = p.number_of_objectives() == 1;
            format!("{} {} {} {}", p.evaluations(), p.evaluations_constraints(), if one { p.final_target_hit() as u8 } else { 0 }, if one { bits(&[p.best_observed_value()]) } else { "-".into() })
        }
        "add" => {
            a.p.get_mut(f[1]).unwrap().add_observer(&a.o[f[2]]);
            "ok".into()
        }
        "rem" => {
            a.p.get_mut(f[1]).unwrap().remove_observer(&a.o[f[2]]);
            "ok".into()
        }
        "restart" => {
            a.o[f[1]].signal_restart(&a.p[f[2]]);
            "ok".into()
        }
        "pfree" => {
            a.p.remove(f[1]);
            "ok".into()
        }
        "ofree" => {
            a.o.remove(f[1]);
            "ok".into()
        }
        "sfree" => {
            a.s.remove(f[1]);
            "ok".into()
        }
        "rnew" => {
            a.r.insert(f[1].into(), RandomState::new(f[2].parse().unwrap()));
            "ok".into()
        }
        "runi" => bits(&[a.r.get_mut(f[1]).unwrap().uniform()]),
        "rnorm" => bits(&[a.r.get_mut(f[1]).unwrap().normal()]),
        "rfree" => {
            a.r.remove(f[1]);
            "ok".into()
        }
        "version" => coco_rs::version().into(),
        _ => "?".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut a = All::default();
    let mut out = std::fs::File::create("answers").unwrap();
    let stdin = io::stdin();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split('\t').collect();
        let r = catch_unwind(AssertUnwindSafe(|| exec(&mut a, &f))).unwrap_or_else(|_| "exception panic".into());
        writeln!(out, "=> {}", r).unwrap();
    }
}
