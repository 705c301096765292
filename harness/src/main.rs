//! kexec: executes command scripts against kryoptic's PKCS#11 function table and
//! records what the code answered.  One JSON object per line in, the same object
//! plus results per line out.  It contains no judgement: deciding whether what was
//! recorded is right is the TLA+ specification's job (../spec).
mod consts;
mod exec;
mod probe;
mod sched;

use std::io::{BufRead, BufReader, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let ctx: &'static exec::Ctx = Box::leak(Box::new(exec::Ctx::new()));
    // "-": commands on stdin, answers on stdout, one at a time (for adaptive drivers)
    let interactive = args[1] == "-";
    let inp: Box<dyn BufRead> = if interactive {
        Box::new(BufReader::new(std::io::stdin()))
    } else {
        Box::new(BufReader::new(std::fs::File::open(&args[1]).expect("input")))
    };
    let mut out: Box<dyn Write> = if interactive {
        Box::new(std::io::stdout())
    } else {
        Box::new(std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).expect("output"))
    };
    for line in inp.lines() {
        let line = line.expect("read");
        if line.trim().is_empty() {
            continue;
        }
        let cmd: serde_json::Value = serde_json::from_str(&line).expect("json");
        let res = exec::run(ctx, cmd);
        let mut s = serde_json::to_string(&res).unwrap();
        s.push('\n');
        out.write_all(s.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
