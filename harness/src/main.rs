#![allow(clippy::all)]
mod core;
mod props;
use crate::core::*;
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        eprintln!("usage: vh list | check ID | child ID | replay FILE");
        std::process::exit(2);
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    match a[1].as_str() {
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        "describe" => {
            let v: Vec<_> = props::all()
                .iter()
                .map(|p| {
                    let w: Vec<_> = p.workloads.iter().map(|w| {
                        let (q, t) = props::effort(p.id);
                        serde_json::json!([w.name, w.quick * q, w.thorough * t])
                    }).collect();
                    serde_json::json!({"id": p.id, "rule": p.rule, "assumptions": p.assumptions, "workloads": w})
                })
                .collect();
            println!("{}", serde_json::Value::Array(v));
        }
        "child" => {
            let p = find(&a[2]);
            let only = match (arg("--workload"), arg("--case")) {
                (Some(w), Some(c)) => Some((w, c.parse().unwrap())),
                _ => None,
            };
            let out = arg("--out").unwrap();
            std::env::set_var("VH_OUT", &out);
            let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let cfg = RunCfg {
                seed: arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(seed),
                thorough,
                only,
                scale,
            };
            let r = run_child(p, &cfg, &out, &format!("{}.status", out));
            std::process::exit(r);
        }
        "check" => std::process::exit(check(find(&a[2]), seed, thorough)),
        "replay" => std::process::exit(replay(&a[2])),
        _ => std::process::exit(2),
    }
}

fn find(id: &str) -> &'static Prop {
    for p in props::all() {
        if p.id == id {
            return p;
        }
    }
    eprintln!("unknown property {}", id);
    std::process::exit(2)
}

fn work_dir() -> String {
    let d = std::env::var("VH_WORK").unwrap_or_else(|_| "/verif/work".into());
    let _ = std::fs::create_dir_all(&d);
    d
}

enum ChildEnd {
    Json(serde_json::Value),
    Died(String, Vec<(String, u64)>),
    Hang(String, u64),
    Error(String),
}

fn spawn(exe: &str, id: &str, seed: u64, only: Option<(&str, u64)>, tag: &str) -> ChildEnd {
    let out = format!("{}/{}.{}.{}.json", work_dir(), id, tag, std::process::id());
    for e in ["", ".hang", ".status"] {
        let _ = std::fs::remove_file(format!("{}{}", out, e));
    }
    let mut c = Command::new(exe);
    c.arg("child").arg(id).arg("--out").arg(&out).arg("--seed").arg(seed.to_string());
    if let Some((w, i)) = only {
        c.arg("--workload").arg(w).arg("--case").arg(i.to_string());
    }
    c.stdout(std::process::Stdio::null());
    if std::env::var("VH_DEBUG").is_err() {
        c.stderr(std::process::Stdio::null());
    }
    let st = match c.status() {
        Ok(s) => s,
        Err(e) => return ChildEnd::Error(format!("cannot start child: {}", e)),
    };
    let read_status = || -> Vec<(String, u64)> {
        let mut v = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}.status", out)) {
            for l in s.replace('\0', "").lines() {
                let f: Vec<&str> = l.split_whitespace().collect();
                if f.len() == 2 {
                    if let Ok(i) = f[1].parse() {
                        v.push((f[0].to_string(), i));
                    }
                }
            }
        }
        v
    };
    let ret = if st.code() == Some(0) {
        match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()) {
            Some(v) => ChildEnd::Json(v),
            None => ChildEnd::Error("child wrote no result".into()),
        }
    } else if st.code() == Some(77) {
        let s = std::fs::read_to_string(format!("{}.hang", out)).unwrap_or_default();
        let f: Vec<&str> = s.split_whitespace().collect();
        if f.len() == 2 {
            ChildEnd::Hang(f[0].into(), f[1].parse().unwrap_or(0))
        } else {
            ChildEnd::Error("hang without case".into())
        }
    } else if let Some(sig) = st.signal() {
        if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
            ChildEnd::Died(format!("signal {}", sig), read_status())
        } else {
            ChildEnd::Error(format!("child ended by signal {}", sig))
        }
    } else {
        ChildEnd::Error(format!("child exit {:?}", st.code()))
    };
    for e in ["", ".hang", ".status"] {
        let _ = std::fs::remove_file(format!("{}{}", out, e));
    }
    let _ = std::fs::remove_dir_all(format!("{}.d", out));
    ret
}

struct V {
    variant: String,
    workload: String,
    idx: u64,
    msg: String,
    desc: String,
}

fn check(p: &'static Prop, seed: u64, thorough: bool) -> i32 {
    let t0 = std::time::Instant::now();
    let me = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let mut variants: Vec<(String, String)> = vec![("parallel".into(), me)];
    if let Ok(s) = std::env::var("VH_SERIAL_EXE") {
        if !s.is_empty() {
            variants.push(("serial".into(), s));
        }
    }
    let mut viol: Vec<V> = vec![];
    let mut evals = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut events: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut incon: Vec<String> = vec![];
    for (vname, exe) in &variants {
        match spawn(exe, p.id, seed, None, vname) {
            ChildEnd::Json(j) => {
                evals += j["evaluations"].as_u64().unwrap_or(0);
                distinct = distinct.max(j["distinct"].as_u64().unwrap_or(0));
                for s in j["samples"].as_array().unwrap_or(&vec![]) {
                    if samples.len() < 24 {
                        samples.push(s.clone());
                    }
                }
                if let Some(o) = j["events"].as_object() {
                    for (k, v) in o {
                        let k = if variants.len() > 1 { format!("{}:{}", vname, k) } else { k.clone() };
                        events.insert(k, v.clone());
                    }
                }
                if let Some(o) = j["known"].as_object() {
                    for (k, v) in o {
                        known.insert(k.clone(), v.as_str().unwrap_or("").into());
                    }
                }
                for v in j["violations"].as_array().unwrap_or(&vec![]) {
                    viol.push(V {
                        variant: vname.clone(),
                        workload: v["workload"].as_str().unwrap_or("").into(),
                        idx: v["idx"].as_u64().unwrap_or(0),
                        msg: v["msg"].as_str().unwrap_or("").into(),
                        desc: v["desc"].as_str().unwrap_or("").into(),
                    });
                }
                for s in j["inconclusive"].as_array().unwrap_or(&vec![]) {
                    incon.push(s.as_str().unwrap_or("").into());
                }
            }
            ChildEnd::Hang(w, i) => viol.push(V {
                variant: vname.clone(),
                workload: w,
                idx: i,
                msg: format!("the code under test consumed more than {} s of CPU time on one case (does not terminate)", CASE_CPU_LIMIT_S),
                desc: String::new(),
            }),
            ChildEnd::Died(sig, inflight) => {
                let mut found = false;
                for (w, i) in inflight {
                    match spawn(exe, p.id, seed, Some((&w, i)), "rerun") {
                        ChildEnd::Died(s2, _) => {
                            viol.push(V {
                                variant: vname.clone(),
                                workload: w,
                                idx: i,
                                msg: format!("the code under test crashed the process ({})", s2),
                                desc: String::new(),
                            });
                            found = true;
                            break;
                        }
                        _ => {}
                    }
                }
                if !found {
                    incon.push(format!("child died with {} and the crash was not reproduced", sig));
                }
            }
            ChildEnd::Error(e) => incon.push(e),
        }
    }
    // a violation must reproduce from its replay record, otherwise it is inconclusive
    let mut confirmed: Vec<V> = vec![];
    for v in viol {
        if confirmed.len() >= 3 {
            break;
        }
        if v.msg.contains("does not terminate") || v.msg.contains("crashed the process") {
            confirmed.push(v);
            continue;
        }
        let exe = &variants.iter().find(|x| x.0 == v.variant).unwrap().1;
        match spawn(exe, p.id, seed, Some((&v.workload, v.idx)), "confirm") {
            ChildEnd::Json(j) if j["n_violations"].as_u64().unwrap_or(0) > 0 => confirmed.push(v),
            ChildEnd::Hang(..) | ChildEnd::Died(..) => confirmed.push(v),
            _ => incon.push(format!("{}[{}] did not reproduce: {}", v.workload, v.idx, v.msg)),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut coverage = serde_json::json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": p.rule,
        "samples": samples,
        "observed_events": events,
        "variants": variants.iter().map(|v| v.0.clone()).collect::<Vec<_>>(),
        "inconclusive_cases": incon.len(),
    });
    if !known.is_empty() {
        coverage["known_findings_observed"] = serde_json::json!(known);
    }
    let ev = serde_json::json!({
        "property": p.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": confirmed.len(),
    });
    let evdir = std::env::var("VH_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&evdir);
    let _ = std::fs::write(format!("{}/{}.json", evdir, p.id), serde_json::to_string_pretty(&ev).unwrap());
    for (k, _) in &known {
        let ks = known_signatures(p.id);
        println!("KNOWN-FINDING: property={} {} ({})", p.id, ks.get(k).cloned().unwrap_or_default(), k);
    }
    if !confirmed.is_empty() {
        for (n, v) in confirmed.iter().enumerate() {
            let path = format!("{}/{}.replay{}.json", evdir, p.id, n);
            let r = serde_json::json!({"property": p.id, "variant": v.variant, "workload": v.workload, "case": v.idx,
                "seed": seed, "tier": if thorough {"thorough"} else {"quick"}, "message": v.msg, "input": v.desc});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap());
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {}[{}] ({}): {}", v.workload, v.idx, v.variant, v.msg);
            if !v.desc.is_empty() {
                println!("  input: {}", v.desc.chars().take(600).collect::<String>());
            }
        }
        return 1;
    }
    println!(
        "property={} evaluations={} distinct_nontrivial={} events={} wall={:.1}s",
        p.id,
        evals,
        distinct,
        serde_json::to_string(&events).unwrap(),
        wall
    );
    if !incon.is_empty() {
        for s in incon.iter().take(8) {
            println!("INCONCLUSIVE property={} {}", p.id, s);
        }
        return 2;
    }
    if evals == 0 || distinct < 2 {
        println!("INCONCLUSIVE property={} nothing was observed", p.id);
        return 2;
    }
    0
}

fn replay(file: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let id = v["property"].as_str().unwrap();
    let exe = if v["variant"] == "serial" {
        std::env::var("VH_SERIAL_EXE").unwrap_or_default()
    } else {
        std::env::current_exe().unwrap().to_string_lossy().to_string()
    };
    std::env::set_var("VERIF_TIER", v["tier"].as_str().unwrap());
    match spawn(&exe, id, v["seed"].as_u64().unwrap(), Some((v["workload"].as_str().unwrap(), v["case"].as_u64().unwrap())), "replay") {
        ChildEnd::Json(j) => {
            println!("{}", serde_json::to_string_pretty(&j).unwrap());
            if j["n_violations"].as_u64().unwrap_or(0) > 0 {
                println!("VIOLATION property={} replay={}", id, file);
                1
            } else {
                0
            }
        }
        ChildEnd::Hang(..) => {
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        ChildEnd::Died(s, _) => {
            println!("{}", s);
            println!("VIOLATION property={} replay={}", id, file);
            1
        }
        ChildEnd::Error(e) => {
            println!("error {}", e);
            2
        }
    }
}
