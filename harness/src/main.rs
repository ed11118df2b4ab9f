// Conformance driver: carries out cases on the real luafmt and reports what it did.
//
// stdin: one JSON case per line; stdout: one JSON line per case, in input order.  A case is either
//   {"kind": .., "runs": [{"src": text, "of": 0, "opts": [[name, value], ..]}, ..]}
//       formatter runs through the library; of = k formats what run k printed.  Each run comes back
//       with its actual src, st ("ok", "parsing", ..., "panic", "timeout", "skip") and out; or
//   {"kind": "cli", "runs": .., "tree": [{"p": path, "t": "dir"|"file"|"link"|"bytes"|"noread"|"nowrite", "c": content}], "cwd": path,
//    "argv": [..], "in": text, "inbad": bool}
//       the formatter runs `runs`, and one run of the program (argv[1] of the driver) in a scratch directory that holds `tree`; it comes
//       back with "stdout", "stderr", "code" and the tree afterwards ("after").  `@ROOT@` in arguments
//       stands for the scratch directory and comes back as `@ROOT@`.
// A case that takes more than LIMIT seconds ends the driver with code 3; cases that were not finished
// come back as {"undone": true}.
use luafmt::config::Config;
use luafmt::formatter;
use serde_json::{json, Value};
use std::fs;
use std::io::{self, BufRead, Read, Write};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const LIMIT: u64 = 20;
const MEMORY: usize = 10 << 30;
const WORKERS: usize = 8;
const NOBODY: u32 = 65534;

fn build_config(opts: &Value) -> Config {
    let mut cfg = Config::default();
    if let Some(list) = opts.as_array() {
        for o in list {
            cfg.set(o[0].as_str().unwrap(), o[1].as_str().unwrap());
        }
    }
    cfg
}

fn format_once(src: &str, opts: &Value) -> (String, String, String) {
    let s = src.to_string();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        formatter::process_buffer_with_config(&s, &build_config(opts), false)
    }));
    match r {
        Ok(Ok(o)) => ("ok".into(), o, String::new()),
        Ok(Err(e)) => {
            let kind = match &e {
                formatter::FormatterError::ReadingError => "reading",
                formatter::FormatterError::NoConfigureFile => "noconfig",
                formatter::FormatterError::InvalidConfigFile(_) => "badconfig",
                formatter::FormatterError::ParsingError(_) => "parsing",
                formatter::FormatterError::FormattingError(_) => "formatting",
            };
            (kind.into(), String::new(), format!("{}", e).chars().take(200).collect())
        }
        Err(_) => ("panic".into(), String::new(), String::new()),
    }
}

fn run_formatter(case: &Value) -> Value {
    let mut res = case.clone();
    let n = case["runs"].as_array().map_or(0, |v| v.len());
    for k in 0..n {
        let of = case["runs"][k]["of"].as_u64().unwrap_or(0) as usize;
        let src = match of {
            0 => case["runs"][k]["src"].as_str().unwrap_or("").to_string(),
            _ if res["runs"][of - 1]["st"] == json!("ok") => res["runs"][of - 1]["out"].as_str().unwrap().to_string(),
            _ => {
                res["runs"][k]["st"] = json!("skip");
                res["runs"][k]["src"] = json!("");
                res["runs"][k]["out"] = json!("");
                continue;
            }
        };
        let (st, out, msg) = format_once(&src, &case["runs"][k]["opts"]);
        res["runs"][k]["src"] = json!(src);
        res["runs"][k]["st"] = json!(st);
        res["runs"][k]["out"] = json!(out);
        if !msg.is_empty() {
            res["runs"][k]["msg"] = json!(msg);
        }
    }
    res
}

fn list_tree(root: &Path, dir: &Path, out: &mut Vec<Value>) {
    let mut entries: Vec<PathBuf> = fs::read_dir(dir).map(|d| d.map(|e| e.unwrap().path()).collect()).unwrap_or_default();
    entries.sort();
    for p in entries {
        let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
        let meta = match fs::symlink_metadata(&p) {
            Ok(m) => m,
            Err(_) => continue,
        };
        if meta.file_type().is_symlink() {
            out.push(json!({"p": rel, "t": "link", "c": fs::read_link(&p).unwrap().to_string_lossy()}));
        } else if meta.is_dir() {
            out.push(json!({"p": rel, "t": "dir", "c": ""}));
            list_tree(root, &p, out);
        } else {
            let bytes = fs::read(&p).unwrap_or_default();
            match String::from_utf8(bytes) {
                Ok(s) => out.push(json!({"p": rel, "t": "file", "c": s})),
                Err(_) => out.push(json!({"p": rel, "t": "bytes", "c": ""})),
            }
        }
    }
}

// U+FFFD in a name or an argument of a case stands for a byte that is no UTF-8
fn raw(s: &str) -> OsString {
    let mut bytes = Vec::new();
    for ch in s.chars() {
        match ch {
            '\u{FFFD}' => bytes.push(0xff),
            _ => bytes.extend(ch.to_string().as_bytes()),
        }
    }
    OsString::from_vec(bytes)
}

fn own(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        libc::lchown(c.as_ptr(), NOBODY, NOBODY);
    }
}

fn run_cli(case: &Value, program: &Path, scratch: &Path, k: usize) -> Value {
    let mut res = run_formatter(case);
    let top = scratch.join(format!("c{}", k));
    let root = top.join("root");
    let _ = fs::remove_dir_all(&top);
    fs::create_dir_all(&root).unwrap();
    let mut dirs = vec![top.clone(), root.clone()];
    let mut perms: Vec<(PathBuf, u32)> = Vec::new();
    for e in case["tree"].as_array().unwrap() {
        let p = root.join(raw(e["p"].as_str().unwrap()));
        let c = e["c"].as_str().unwrap_or("");
        let mut d = p.parent().unwrap().to_path_buf();
        while !d.exists() {
            dirs.push(d.clone());
            d = d.parent().unwrap().to_path_buf();
        }
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        match e["t"].as_str().unwrap() {
            t @ ("dir" | "enter" | "closed") => {
                fs::create_dir_all(&p).unwrap();
                match t {
                    "enter" => perms.push((p.clone(), 0o311)),
                    "closed" => perms.push((p.clone(), 0o000)),
                    _ => {}
                }
                dirs.push(p);
            }
            "link" => {
                symlink(raw(&c.replace("@ROOT@", root.to_str().unwrap())), &p).unwrap();
                dirs.push(p);
            }
            t => {
                if t == "bytes" {
                    fs::write(&p, b"x = 1 \xff\xfe\n").unwrap();
                } else {
                    fs::write(&p, c).unwrap();
                }
                if t == "noread" {
                    perms.push((p.clone(), 0o000));
                } else if t == "nowrite" {
                    perms.push((p.clone(), 0o444));
                }
                dirs.push(p);
            }
        }
    }
    for d in &dirs {
        own(d);
    }
    for (p, m) in &perms {
        fs::set_permissions(p, fs::Permissions::from_mode(*m)).unwrap();
    }
    let rootname = root.to_str().unwrap().to_string();
    let argv: Vec<OsString> =
        case["argv"].as_array().unwrap().iter().map(|a| raw(&a.as_str().unwrap().replace("@ROOT@", &rootname))).collect();
    let cwd = root.join(case["cwd"].as_str().unwrap_or(""));
    let mut cmd = Command::new(program);
    cmd.args(&argv).current_dir(&cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    cmd.env_clear();
    // contained: an unprivileged user that owns nothing but the scratch directory
    unsafe {
        cmd.pre_exec(|| {
            if libc::geteuid() == 0 {
                libc::setgroups(0, std::ptr::null());
                if libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0 {
                    return Err(io::Error::last_os_error());
                }
            }
            let lim = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let fsz = libc::rlimit { rlim_cur: 1 << 20, rlim_max: 1 << 20 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &fsz);
            Ok(())
        });
    }
    let mut child = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run the program: {}", e);
            std::process::exit(4);
        }
    };
    let mut stdin = child.stdin.take().unwrap();
    let input: Vec<u8> = if case["inbad"] == json!(true) {
        b"x = 1 \xff\xfe\n".to_vec()
    } else {
        case["in"].as_str().unwrap_or("").as_bytes().to_vec()
    };
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(&input);
    });
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        b
    });
    let t2 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = se.read_to_end(&mut b);
        b
    });
    let start = Instant::now();
    let code = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s.code().map_or("signal".to_string(), |c| c.to_string()),
            None if start.elapsed() > Duration::from_secs(LIMIT - 5) => {
                let _ = child.kill();
                let _ = child.wait();
                break "timeout".to_string();
            }
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let _ = writer.join();
    let clean = |b: Vec<u8>| String::from_utf8_lossy(&b).replace(&rootname, "@ROOT@");
    res["stdout"] = json!(clean(t1.join().unwrap()));
    res["stderr"] = json!(clean(t2.join().unwrap()));
    res["code"] = json!(code);
    let mut after = Vec::new();
    list_tree(&root, &root, &mut after);
    for a in after.iter_mut() {
        let c = a["c"].as_str().unwrap().replace(&rootname, "@ROOT@");
        a["c"] = json!(c);
    }
    let mut stray = Vec::new();
    list_tree(&top, &top, &mut stray);
    res["after"] = json!(after);
    res["stray"] = json!(stray.iter().filter(|e| !e["p"].as_str().unwrap().starts_with("root")).count());
    let _ = fs::remove_dir_all(&top);
    res
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let program = args.get(1).map(PathBuf::from);
    let scratch = args.get(2).map(PathBuf::from).unwrap_or_default();
    let cases: Vec<Value> = io::stdin()
        .lock()
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap())
        .collect();
    let n = cases.len();
    let cases = Arc::new(cases);
    let next = Arc::new(Mutex::new(0usize));
    let results: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; n]));
    let busy: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![None; WORKERS]));
    let mut hs = Vec::new();
    for w in 0..WORKERS {
        let (cases, next, results, busy) = (cases.clone(), next.clone(), results.clone(), busy.clone());
        let (program, scratch) = (program.clone(), scratch.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || loop {
                    let i = {
                        let mut g = next.lock().unwrap();
                        let i = *g;
                        *g += 1;
                        i
                    };
                    if i >= cases.len() {
                        break;
                    }
                    busy.lock().unwrap()[w] = Some((i, Instant::now()));
                    let r = if cases[i]["kind"] == json!("cli") {
                        run_cli(&cases[i], program.as_ref().expect("program"), &scratch, i)
                    } else {
                        run_formatter(&cases[i])
                    };
                    results.lock().unwrap()[i] = Some(r);
                    busy.lock().unwrap()[w] = None;
                })
                .unwrap(),
        );
    }
    let mut code = 0;
    loop {
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let late: Vec<usize> = busy
            .lock()
            .unwrap()
            .iter()
            .filter_map(|b| b.as_ref().filter(|b| b.1.elapsed() > Duration::from_secs(LIMIT)).map(|b| b.0))
            .collect();
        // a case that eats all memory counts as one that does not end
        let huge = fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<usize>().ok()))
            .map_or(false, |pages| pages * 4096 > MEMORY);
        let late: Vec<usize> = match huge {
            true => busy.lock().unwrap().iter().flatten().min_by_key(|b| b.1).map(|b| b.0).into_iter().collect(),
            false => late,
        };
        if !late.is_empty() {
            let mut g = results.lock().unwrap();
            for i in late {
                if g[i].is_none() {
                    let mut r = cases[i].clone();
                    let m = r["runs"].as_array().map_or(0, |v| v.len());
                    for k in 0..m {
                        r["runs"][k]["st"] = json!("timeout");
                        r["runs"][k]["out"] = json!("");
                        if r["runs"][k]["src"].is_null() {
                            r["runs"][k]["src"] = json!("");
                        }
                    }
                    r["code"] = json!("timeout");
                    g[i] = Some(r);
                }
            }
            code = 3;
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let out = io::stdout();
    let mut out = io::BufWriter::new(out.lock());
    for r in results.lock().unwrap().iter() {
        match r {
            Some(r) => writeln!(out, "{}", r).unwrap(),
            None => writeln!(out, "{}", json!({"undone": true})).unwrap(),
        }
    }
    out.flush().unwrap();
    std::process::exit(code);
}
