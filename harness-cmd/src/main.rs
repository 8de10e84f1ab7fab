//! The command's own source of its options, run on this process's command line: prints what it makes of it.
#![allow(dead_code)]

#[path = "/repo/src/argv.rs"]
mod argv;

fn main() {
    let a = argv::parse();
    let c = argv::get_connect_config(&a);
    println!(
        "{}",
        serde_json::json!({
            "exit": a.exit, "wait": a.wait, "serve": a.serve, "agent": a.agent, "print": a.print, "output": a.output, "input": a.input,
            "serve_port": a.serve_port, "group_id": a.group_id, "conn_id": a.conn_id, "restrict_exe": a.restrict_exe, "log_level": a.log_level,
            "host": procstar::proto::expand_hostname(&a.agent_host),
            "start": c.interval_start.as_secs_f64(), "mult": c.interval_mult, "max": c.interval_max.as_secs_f64(), "count": c.count_max.to_string(),
        })
    );
}
