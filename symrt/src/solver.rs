//! A live SMT solver process driven over a pipe.
use crate::big::{parse, Big};
use std::io::{BufRead, BufReader, Write};
use std::sync::{mpsc, Arc, Mutex};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

#[derive(Debug, Clone, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Arc<Mutex<Child>>,
    pub inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub log: Option<std::fs::File>,
}

impl Proc {
    pub fn start(cmd: &[String]) -> Proc {
        let mut child = Command::new(&cmd[0])
            .args(&cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("SYMRT cannot start solver {:?}: {e}", cmd));
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Proc {
            child: Arc::new(Mutex::new(child)),
            inp,
            out,
            log: None,
        }
    }
    pub fn send(&mut self, s: &str) -> bool {
        if let Some(l) = &mut self.log {
            let _ = l.write_all(s.as_bytes());
        }
        self.inp.write_all(s.as_bytes()).is_ok()
    }
    fn check_script(&mut self, script: &str) -> Res {
        self.send(script);
        self.check()
    }
    pub fn check(&mut self) -> Res {
        if !self.send("(check-sat)\n") || self.inp.flush().is_err() {
            return Res::Unknown("solver pipe closed".into());
        }
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) {
                Ok(0) | Err(_) => return Res::Unknown("solver ended".into()),
                _ => {}
            }
            let l = l.trim();
            match l {
                "sat" => return Res::Sat,
                "unsat" => return Res::Unsat,
                "unknown" | "timeout" => return Res::Unknown(l.into()),
                "" | "success" => continue,
                _ => return Res::Unknown(format!("solver said: {l}")),
            }
        }
    }
    /// Reads one balanced s-expression.
    fn read_sexp(&mut self) -> Option<String> {
        let mut s = String::new();
        let mut depth = 0i64;
        loop {
            let mut l = String::new();
            match self.out.read_line(&mut l) {
                Ok(0) | Err(_) => return None,
                _ => {}
            }
            for ch in l.chars() {
                match ch {
                    '(' => depth += 1,
                    ')' => depth -= 1,
                    _ => {}
                }
            }
            s.push_str(&l);
            if depth <= 0 && !s.trim().is_empty() {
                return Some(s);
            }
        }
    }
    /// `(get-value (a b c))` for integer constants.
    pub fn values(&mut self, names: &[String]) -> Option<Vec<(String, Big)>> {
        if names.is_empty() {
            return Some(vec![]);
        }
        self.send(&format!("(get-value ({}))\n", names.join(" ")));
        self.inp.flush().ok()?;
        let s = self.read_sexp()?;
        if s.contains("error") {
            return None;
        }
        let mut toks: Vec<String> = vec![];
        let mut cur = String::new();
        for ch in s.chars() {
            if ch == '(' || ch == ')' || ch.is_whitespace() {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            } else {
                cur.push(ch);
            }
        }
        // tokens: name value | name - value
        let mut out = vec![];
        let mut i = 0;
        while i < toks.len() {
            let name = toks[i].clone();
            i += 1;
            let neg = toks.get(i).map(|t| t == "-").unwrap_or(false);
            if neg {
                i += 1;
            }
            let v = parse(toks.get(i)?)?;
            i += 1;
            out.push((name, if neg { -v } else { v }));
        }
        Some(out)
    }
}

impl Drop for Proc {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

/// The first answer of several solvers to one script, and values for `names` if it is `sat`.
pub fn race(cmds: &[Vec<String>], script: &str, names: &[String]) -> (Res, Option<Vec<(String, Big)>>) {
    let (tx, rx) = mpsc::channel();
    std::thread::scope(|s| {
        let mut children = vec![];
        for cmd in cmds {
            let mut p = Proc::start(cmd);
            children.push(p.child.clone());
            let tx = tx.clone();
            s.spawn(move || {
                let mut r = p.check_script(script);
                let mut v = None;
                if r == Res::Sat {
                    v = p.values(names);
                    if v.is_none() {
                        r = Res::Unknown("no model".into());
                    }
                }
                let _ = tx.send((r, v));
            });
        }
        let mut last = (Res::Unknown("no solver".into()), None);
        for _ in cmds {
            last = rx.recv().unwrap();
            if !matches!(last.0, Res::Unknown(_)) {
                break;
            }
        }
        for c in children {
            let _ = c.lock().unwrap().kill();
        }
        last
    })
}
