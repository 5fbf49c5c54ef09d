//! A miniature ClickHouse server for demonstrations: uncompressed, revision 54213.
#![allow(dead_code)]
use std::{
    io::{Read, Write},
    net::{TcpListener, TcpStream},
    thread,
    time::Duration,
};

pub struct C(pub TcpStream);

impl C {
    pub fn byte(&mut self) -> Option<u8> {
        let mut b = [0];
        match self.0.read(&mut b) {
            Ok(1) => Some(b[0]),
            _ => None,
        }
    }
    pub fn num(&mut self) -> Option<u64> {
        let (mut n, mut s) = (0u64, 0);
        loop {
            let b = self.byte()?;
            n |= u64::from(b & 127) << s;
            if b < 128 {
                return Some(n);
            }
            s += 7;
        }
    }
    pub fn bytes(&mut self, n: usize) -> Option<Vec<u8>> {
        let mut v = vec![0; n];
        self.0.read_exact(&mut v).ok()?;
        Some(v)
    }
    pub fn text(&mut self) -> Option<String> {
        let n = self.num()? as usize;
        Some(String::from_utf8_lossy(&self.bytes(n)?).into_owned())
    }
    pub fn send(&mut self, b: &[u8]) {
        let _ = self.0.write_all(b);
        let _ = self.0.flush();
    }
    /// Reads the next packet of the client.
    pub fn packet(&mut self) -> Option<P> {
        Some(match self.num()? {
            0 => {
                self.text()?;
                for _ in 0..3 {
                    self.num()?;
                }
                P::Hello([self.text()?, self.text()?, self.text()?])
            }
            1 => {
                let id = self.text()?;
                self.byte()?;
                for _ in 0..3 {
                    self.text()?;
                }
                self.byte()?;
                for _ in 0..3 {
                    self.text()?;
                }
                for _ in 0..3 {
                    self.num()?;
                }
                self.text()?; // quota key
                let mut settings = vec![];
                loop {
                    let k = self.text()?;
                    if k.is_empty() {
                        break;
                    }
                    settings.push((k, self.num()?));
                }
                self.num()?;
                self.num()?;
                let sql = self.text()?;
                P::Query { id, sql, settings }
            }
            2 => {
                self.text()?;
                self.num()?;
                self.byte()?;
                self.num()?;
                self.bytes(4)?;
                self.num()?;
                let (c, r) = (self.num()?, self.num()?);
                P::Data { cols: c as usize, rows: r as usize }
            }
            3 => P::Cancel,
            4 => P::Ping,
            n => panic!("client packet {n}"),
        })
    }
    /// Answers the handshake and pings until the next query (with its empty block of external tables).
    pub fn query(&mut self) -> Option<(String, String)> {
        loop {
            match self.packet()? {
                P::Hello(_) => self.send(&hello()),
                P::Ping => self.send(&pong()),
                P::Query { id, sql, .. } => {
                    self.packet()?;
                    return Some((id, sql));
                }
                P::Cancel => {}
                p => panic!("unexpected {p:?}"),
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum P {
    Hello([String; 3]),
    Query { id: String, sql: String, settings: Vec<(String, u64)> },
    Data { cols: usize, rows: usize },
    Cancel,
    Ping,
}

pub fn n(mut x: u64) -> Vec<u8> {
    let mut v = vec![];
    while x >= 128 {
        v.push(x as u8 | 128);
        x >>= 7;
    }
    v.push(x as u8);
    v
}
pub fn t(s: &str) -> Vec<u8> {
    [n(s.len() as u64), s.as_bytes().to_vec()].concat()
}
pub fn hello() -> Vec<u8> {
    [vec![0], t("fake"), n(1), n(1), n(54213), t("UTC")].concat()
}
pub fn pong() -> Vec<u8> {
    vec![4]
}
pub fn eos() -> Vec<u8> {
    vec![5]
}
pub fn progress() -> Vec<u8> {
    [vec![3], n(1), n(10), n(100)].concat()
}
pub fn exception(code: u32, name: &str, msg: &str) -> Vec<u8> {
    [vec![2], code.to_le_bytes().to_vec(), t(name), t(msg), t("trace"), vec![0]].concat()
}
/// A block of encoded columns.
pub fn block(rows: usize, cols: &[(&str, &str, Vec<u8>)]) -> Vec<u8> {
    let mut v = [vec![1], t(""), vec![1, 0, 2, 255, 255, 255, 255, 0], n(cols.len() as u64), n(rows as u64)].concat();
    for (name, ty, data) in cols {
        v.extend([t(name), t(ty), data.clone()].concat());
    }
    v
}
pub fn u8s(name: &str, x: &[u8]) -> Vec<u8> {
    block(x.len(), &[(name, "UInt8", x.to_vec())])
}

/// Serves every connection with `f(connection number, connection)` on a thread of its own; returns the address.
pub fn serve(f: impl Fn(usize, C) + Send + Sync + 'static) -> String {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = format!("127.0.0.1:{}", l.local_addr().unwrap().port());
    let f = std::sync::Arc::new(f);
    thread::spawn(move || {
        for (i, s) in l.incoming().enumerate() {
            let s = s.unwrap();
            s.set_nodelay(true).unwrap();
            let f = f.clone();
            thread::spawn(move || f(i, C(s)));
        }
    });
    a
}
pub fn pause(ms: u64) {
    thread::sleep(Duration::from_millis(ms));
}
/// Runs the demonstration: exits with 1 if it fails, panics or takes too long.
pub fn run<F: std::future::Future<Output = Result<(), String>> + Send + 'static>(f: F) -> ! {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), tokio::spawn(f)).await });
    match r {
        Ok(Ok(Ok(()))) => {
            println!("ok");
            std::process::exit(0)
        }
        r => {
            println!("FAILED: {r:?}");
            std::process::exit(1)
        }
    }
}
