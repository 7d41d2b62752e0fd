mod alloc;
mod visit;
mod args;
mod core;
mod corpus;
mod dial;
mod explore;
mod fid;
mod grammar;
mod invar;
mod lexref;
mod lists;
mod ops;
mod pure;
mod robust;
mod spans;
mod stress;
mod strs;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

use crate::core::*;

fn dispatch(ctx: &Ctx, prop: &str) {
    match prop {
        "C01" => robust::c01(ctx),
        "C02" => robust::c02(ctx),
        "C03" => robust::c03(ctx),
        "C04" => robust::c04(ctx),
        "C05" => spans::c05(ctx),
        "C06" => robust::c06(ctx),
        "C07" => ops::c07(ctx),
        "C08" => strs::c08(ctx),
        "C09" => lexref::c09(ctx),
        "C10" => args::c10(ctx),
        "C11" => lists::c11(ctx),
        "C12" => lists::c12(ctx),
        "C13" => lists::c13(ctx),
        "C14" => lists::c14(ctx),
        "C15" => invar::c15(ctx),
        "C16" => invar::c16(ctx),
        "C17" => invar::c17(ctx),
        "C18" => dial::c18(ctx),
        "C26" => dial::c26(ctx),
        "C27" => dial::c27(ctx),
        "C28" => pure::c28(ctx),
        "C29" => pure::c29(ctx),
        "C19" | "C20" | "C21" | "C22" | "C23" | "C24" => fid::run(ctx, prop),
        "C25" => {
            fid::run(ctx, prop);
            dial::functions(ctx);
        }
        "N" => {
            let g = explore::load();
            if let Ok(q) = std::env::var("MC_COUNT") {
                let (root, frozen) = q.split_once(':').unwrap();
                let frozen: Vec<&str> = frozen.split(',').filter(|x| !x.is_empty()).collect();
                let gen = grammar::Gen::new(&g).freeze(&frozen);
                for b in 2..10 {
                    let n = explore::explore(ctx, &gen, g.rule(root), b, |_, _| ());
                    println!("{} {} {}", q, b, n);
                    if n > 1_000_000 {
                        break;
                    }
                }
                return;
            }
            let gen = grammar::Gen::new(&g);
            for (root, b) in (0..8).map(|k| (["stmt", "xstmt"][k % 2], k as u32 / 2)) {
                let v = corpus::collect(ctx, &gen, root, b, |d| d.restr.is_empty());
                let tot: usize = v.iter().map(|d| d.toks.len()).sum();
                println!(
                    "{} {} {} avg toks {} {:.1}s",
                    root,
                    b,
                    v.len(),
                    tot / v.len().max(1),
                    ctx.elapsed()
                );
            }
        }
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    }
}

fn parse_replay(path: &str) -> (String, Opts, Mode) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let mut opts = BASE;
    let mut mode = Mode::One;
    let mut sql = String::new();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("opts: ") {
            opts = Opts::read(r);
        } else if let Some(r) = l.strip_prefix("mode: ") {
            mode = if r.trim() == "Many" {
                Mode::Many
            } else {
                Mode::One
            };
        } else if let Some(r) = l.strip_prefix("sql: ") {
            sql = undebug(r);
            break;
        }
    }
    (sql, opts, mode)
}

/// Inverse of the Debug form of a string.
pub fn undebug(s: &str) -> String {
    let s = s.trim();
    let s = s
        .strip_prefix('"')
        .and_then(|s| s.strip_suffix('"'))
        .unwrap_or(s);
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some('0') => o.push('\0'),
            Some('u') => {
                it.next();
                let mut v = 0;
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    v = v * 16 + c.to_digit(16).unwrap_or(0);
                }
                o.push(char::from_u32(v).unwrap_or('?'));
            }
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = std::env::var("VERIF_TIER")
        .map(|v| v == "thorough")
        .unwrap_or(false);
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(&a[2], thorough, seed),
        Some("child") => {
            install_panic_hook();
            let ctx = Ctx::new(&a[2], thorough, seed);
            dispatch(&ctx, &a[2]);
            std::process::exit(ctx.finish());
        }
        // exit 0 when the input of a replay file can be parsed at all
        Some("replay") => {
            install_panic_hook();
            let (sql, opts, mode) = parse_replay(&a[2]);
            println!("input: {:?} ({}, {:?})", sql, opts.show(), mode);
            let o = run(
                &sql,
                opts,
                mode,
                Want {
                    dbg: true,
                    span: true,
                    display: true, ..NOTHING
                },
            );
            print!("{}{}", o.show(), o.display);
            if o.panic.is_some() {
                std::process::exit(1);
            }
        }
        Some("single") => {
            install_panic_hook();
            let (sql, opts, mode) = parse_replay(&a[2]);
            let _ = run(
                &sql,
                opts,
                mode,
                Want {
                    dbg: true,
                    span: true,
                    display: true, ..NOTHING
                },
            );
        }
        Some("parse") => {
            // as a user would: parse and drop, on a thread with the default stack of a main thread
            let (sql, opts, mode) = parse_replay(&a[2]);
            let po = opts.to_parse();
            let mut issues = sql_parse::Issues::new(&sql);
            match mode {
                Mode::One => drop(sql_parse::parse_statement(&sql, &mut issues, &po)),
                Mode::Many => drop(sql_parse::parse_statements(&sql, &mut issues, &po)),
            }
        }
        Some("dump") => {
            install_panic_hook();
            let mut opts = BASE;
            let mut mode = Mode::One;
            if let Some(o) = a.get(3) {
                opts = Opts::read(o);
                if o.contains("many") {
                    mode = Mode::Many
                }
            }
            let o = run(
                &a[2],
                opts,
                mode,
                Want {
                    dbg: true,
                    span: true,
                    display: true, ..NOTHING
                },
            );
            print!("{}{}", o.show(), o.display);
        }
        _ => {
            eprintln!("usage: mc check <property> | replay <file> | dump <sql> [options]");
            std::process::exit(2);
        }
    }
}

/// Run the check in a child process, so that an abort (stack overflow, out of memory) of the code
/// under test is reported as a violation with its input.
fn supervise(prop: &str, thorough: bool, seed: u64) -> ! {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Command;
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(&exe)
        .args(["child", prop])
        .status()
        .expect("run child");
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    eprintln!(
        "the check was ended by signal {:?}; looking for the input",
        st.signal()
    );
    let dir = std::env::temp_dir().join(format!("mc-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let st = Command::new(&exe)
        .args(["child", prop])
        .env("MC_TRACE", &dir)
        .stdout(std::process::Stdio::null())
        .status()
        .expect("run child");
    let mut code = 3;
    if st.code().is_none() {
        let ctx = Ctx::new(prop, thorough, seed);
        for i in 0..64 {
            let Ok(b) = std::fs::read(dir.join(format!("w{}", i))) else {
                continue;
            };
            let b = &b[..b.iter().position(|c| *c == 0xff).unwrap_or(b.len())];
            let Some((h, sql)) = std::str::from_utf8(b).ok().and_then(|s| s.split_once('\n'))
            else {
                continue;
            };
            let opts = Opts::read(h);
            let mode = if h.contains("mode=Many") {
                Mode::Many
            } else {
                Mode::One
            };
            let f = dir.join("one.txt");
            std::fs::write(
                &f,
                format!("opts: {}\nmode: {:?}\nsql: {:?}\n", opts.show(), mode, sql),
            )
            .unwrap();
            let s = Command::new(&exe)
                .args(["single", f.to_str().unwrap()])
                .status()
                .expect("run single");
            if s.code().is_none() {
                ctx.violation(Violation {
                    key: "abort".into(),
                    what: format!("parsing ends the process with signal {:?}", s.signal()),
                    sql: sql.into(),
                    opts,
                    mode,
                    detail: String::new(),
                });
                break;
            }
        }
        code = ctx.finish();
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}
