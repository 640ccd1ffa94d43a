//! A peer is another build of this harness that answers requests line by line.
use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Peer {
    bin: String,
    proc_: Option<(Child, ChildStdin, BufReader<ChildStdout>)>,
}

impl Peer {
    pub fn new(bin: &str) -> Peer {
        Peer { bin: bin.to_string(), proc_: None }
    }
    /// None: the peer died on this request
    pub fn ask(&mut self, req: &Value) -> Option<Value> {
        if self.proc_.is_none() {
            let mut c = Command::new(&self.bin)
                .arg("serve")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("peer");
            let i = c.stdin.take().unwrap();
            let o = BufReader::new(c.stdout.take().unwrap());
            self.proc_ = Some((c, i, o));
        }
        let (_, i, o) = self.proc_.as_mut().unwrap();
        // in one piece: the pipe is not buffered
        let ok = i.write_all(format!("{req}\n").as_bytes()).is_ok() && i.flush().is_ok();
        let mut line = String::new();
        if !ok || o.read_line(&mut line).unwrap_or(0) == 0 {
            self.kill();
            return None;
        }
        serde_json::from_str(&line).ok()
    }
    /// start with a fresh process next time
    pub fn kill(&mut self) {
        if let Some((mut c, _, _)) = self.proc_.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.kill();
    }
}
