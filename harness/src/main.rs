mod agent;
mod capture;
mod encode;
mod env;
mod errors;
mod identity;
mod lifecycle;
mod fds;
mod http;
mod procinfo;
mod procs;
mod requests;
mod start;
mod syscalls;
mod util;
mod validate;

fn main() {
    if start::child() {
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap();
    let mut c = util::Ctx::read();
    match cmd.as_str() {
        "fds" => fds::fds(&mut c),
        "capture" => capture::capture(&mut c),
        "results" => procs::results(&mut c),
        "signals" => procs::signals(&mut c),
        "handler" => procs::handler(&mut c),
        "registry" => procs::registry(&mut c),
        "errors" => errors::errors(&mut c),
        "validate" => validate::validate(&mut c),
        "agent" => agent::agent(&mut c),
        "requests" => requests::requests(&mut c),
        "start" => start::start(&mut c),
        "lifecycle" => lifecycle::lifecycle(&mut c),
        "http" => http::http(&mut c),
        "procinfo" => procinfo::procinfo(&mut c),
        "encode" => encode::encode(&mut c),
        "env" => env::env(&mut c),
        "identity" => identity::identity(&mut c),
        "syscalls" => syscalls::syscalls(&mut c),
        _ => panic!("unknown command"),
    }
    c.finish();
}
