//! Drives the public API of the crate under test from JSON commands.
//!
//! `rtdrv serve`           : one JSON command per stdin line, one JSON reply per stdout line
//! `rtdrv native|parallel|exec FILE` : run one operation that prints to stdout; the returned status is written to the
//!                           file named by "code_file" (so a crash of the driver is not taken for a status)

use clap::Parser;
use rtest::cli::Args;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
        .unwrap_or_default()
}

fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}

fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array()
        .map(|a| a.iter().map(|p| (s(&p[0]), s(&p[1]))).collect())
        .unwrap_or_default()
}

fn path_json(p: &Path) -> Value {
    Value::String(p.to_string_lossy().into_owned())
}

fn op(c: &Value) -> Value {
    match c["op"].as_str().unwrap_or("") {
        "distribute" => match s(&c["mode"]).parse::<rtest::DistributionMode>() {
            Ok(mode) => {
                let n = c["n"].as_u64().unwrap_or(0) as usize;
                let sched = rtest::create_scheduler(mode);
                let batches: Vec<Vec<String>> = sched
                    .distribute_tests(strs(&c["tests"]), n)
                    .into_iter()
                    .map(|b| b.into_iter().collect())
                    .collect();
                json!({ "batches": batches })
            }
            Err(e) => json!({ "error": e.to_string() }),
        },
        "collect_files" => {
            let files = rtest::collect_test_files(
                Path::new(&s(&c["root"])),
                &strs(&c["paths"]),
                &strs(&c["patterns"]),
            );
            json!({ "files": files.iter().map(|p| path_json(p)).collect::<Vec<_>>() })
        }
        "read_config" => {
            let k = rtest::config::read_pytest_config(Path::new(&s(&c["root"])));
            json!({
                "testpaths": k.testpaths.iter().map(|p| path_json(p)).collect::<Vec<_>>(),
                "python_files": k.python_files,
                "python_classes": k.python_classes,
                "python_functions": k.python_functions,
            })
        }
        "defaults" => json!({
            "python_files": rtest::default_python_files(),
            "python_classes": rtest::default_python_classes(),
            "python_functions": rtest::default_python_functions(),
        }),
        "group" => {
            let root = PathBuf::from(s(&c["root"]));
            let nodes = strs(&c["nodes"]);
            let groups = rtest::subproject::group_tests_by_subproject(&root, &nodes);
            let mut out = Vec::new();
            for (k, v) in groups.into_iter() {
                let tests: Vec<String> = v.into_iter().collect();
                let rel = rtest::subproject::make_test_paths_relative(&tests, &root, &k);
                out.push(json!({ "root": path_json(&k), "tests": tests, "relative": rel }));
            }
            json!({ "groups": out })
        }
        "args" => {
            let mut argv = vec!["rtest".to_string()];
            argv.extend(strs(&c["argv"]));
            match Args::try_parse_from(argv) {
                Err(e) => json!({ "usage": e.to_string() }),
                Ok(a) => {
                    let dist = a.validate_dist();
                    match a.get_num_processes() {
                        Err(e) => json!({ "nproc_error": e, "dist_ok": dist.is_ok() }),
                        Ok(n) => {
                            let count = rtest::determine_worker_count(n, a.maxprocesses);
                            json!({
                                "count": count, "dist_ok": dist.is_ok(), "dist": a.dist,
                                "collect_only": a.collect_only, "files": a.files, "env": a.env,
                                "runner": format!("{:?}", a.runner),
                            })
                        }
                    }
                }
            }
        }
        "cpus" => json!({ "logical": num_cpus::get(), "physical": num_cpus::get_physical() }),
        "env_pairs" => {
            let r = rtest::PytestRunner::new(strs(&c["env"]));
            json!({ "program": r.program, "initial_args": r.initial_args, "env": r.env_vars })
        }
        "glob" => {
            json!({ "m": rtest::collection::glob_match(&s(&c["pattern"]), &s(&c["text"])) })
        }
        "pool" => {
            let mut pool = rtest::WorkerPool::new();
            for t in c["tasks"].as_array().unwrap() {
                pool.spawn_worker(rtest::WorkerTask {
                    worker_id: t["id"].as_u64().unwrap() as usize,
                    program: s(&t["program"]),
                    initial_args: strs(&t["initial_args"]),
                    tests: strs(&t["tests"]),
                    pytest_args: strs(&t["pytest_args"]),
                    working_dir: t["dir"].as_str().map(PathBuf::from),
                    env_vars: pairs(&t["env"]),
                });
            }
            let results: Vec<Value> = pool
                .wait_for_all()
                .into_iter()
                .map(|r| {
                    json!({ "id": r.worker_id, "code": r.exit_code, "stdout": r.stdout, "stderr": r.stderr })
                })
                .collect();
            json!({ "results": results })
        }
        other => json!({ "unknown_op": other }),
    }
}

fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.expect("read command");
        if line.trim().is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).expect("parse command");
        let reply = match catch_unwind(AssertUnwindSafe(|| op(&c))) {
            Ok(v) => v,
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                    .unwrap_or_else(|| "?".into());
                json!({ "panic": msg })
            }
        };
        let mut out = std::io::stdout().lock();
        writeln!(out, "{reply}").expect("write reply");
        out.flush().expect("flush");
    }
}

fn one_shot(kind: &str, file: &str) {
    let c: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
    let code = match kind {
        "native" => {
            let config = rtest::NativeRunnerConfig {
                python_executable: s(&c["python"]),
                root_path: PathBuf::from(s(&c["root"])),
                num_workers: c["n"].as_u64().unwrap() as usize,
                python_files: strs(&c["python_files"]),
                python_classes: strs(&c["python_classes"]),
                python_functions: strs(&c["python_functions"]),
            };
            let files = strs(&c["files"]).into_iter().map(PathBuf::from).collect();
            rtest::execute_native(&config, files)
        }
        "parallel" => {
            let root = PathBuf::from(s(&c["root"]));
            let initial = strs(&c["initial_args"]);
            let env = pairs(&c["env"]);
            let program = s(&c["program"]);
            let dist = s(&c["dist"]);
            let config = rtest::ParallelExecutionConfig {
                program: &program,
                initial_args: &initial,
                worker_count: c["n"].as_u64().unwrap() as usize,
                dist_mode: &dist,
                rootpath: &root,
                use_subprojects: c["subprojects"].as_bool().unwrap(),
                env_vars: &env,
            };
            rtest::execute_tests_parallel(&config, strs(&c["tests"]))
        }
        "exec" => {
            let dir = c["dir"].as_str().map(PathBuf::from);
            rtest::execute_tests(
                &s(&c["program"]),
                &strs(&c["initial_args"]),
                strs(&c["tests"]),
                strs(&c["pytest_args"]),
                dir.as_deref(),
                &pairs(&c["env"]),
            )
        }
        _ => panic!("unknown kind"),
    };
    std::io::stdout().flush().ok();
    std::fs::write(s(&c["code_file"]), code.to_string()).expect("write code");
    std::process::exit(if code == 0 { 0 } else { 1 });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|x| x.as_str()) {
        Some("serve") => serve(),
        Some(kind) => one_shot(kind, &a[2]),
        None => std::process::exit(64),
    }
}
