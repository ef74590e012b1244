//! Answers rendering requests, one per line, with termimad compiled without
//! its optional feature

#[path = "../../harness/src/plain.rs"]
mod plain;

use std::io::{
    BufRead,
    Write,
};

fn main() {
    std::env::remove_var("NO_COLOR");
    termimad::crossterm::style::force_color_output(true);
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = std::io::stdout().lock();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let answer = match serde_json::from_str::<plain::Req>(&line) {
            Ok(req) => plain::guarded_answer(&req),
            Err(e) => Err(e.to_string()),
        };
        let answer = serde_json::to_string(&answer).unwrap_or_default();
        if writeln!(out, "{answer}").and_then(|()| out.flush()).is_err() {
            break;
        }
    }
}
