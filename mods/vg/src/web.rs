//! A loopback server whose answers each case chooses.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone)]
pub struct Resp {
    pub status: u16,
    pub body: Arc<Vec<u8>>,
    /// hang up after so many bytes of the body
    pub cut: Option<usize>,
}
type Routes = Mutex<HashMap<String, (Resp, u64)>>;
struct Server {
    port: u16,
    routes: Routes,
}
fn server() -> &'static Server {
    static S: OnceLock<&'static Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let s: &'static Server = Box::leak(Box::new(Server { port: l.local_addr().unwrap().port(), routes: Default::default() }));
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = serve(s, c);
                });
            }
        });
        s
    })
}
fn serve(s: &Server, mut c: TcpStream) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    let mut b = vec![];
    while !b.ends_with(b"\r\n\r\n") {
        let mut x = [0; 1024];
        let n = c.read(&mut x)?;
        if n == 0 {
            return Ok(());
        }
        b.extend(&x[..n]);
    }
    let t = String::from_utf8_lossy(&b);
    let path = t.split(' ').nth(1).unwrap_or("").to_string();
    let r = {
        let mut m = s.routes.lock().unwrap();
        match m.get_mut(&path) {
            Some(r) => {
                r.1 += 1;
                r.0.clone()
            }
            None => Resp { status: 404, body: Arc::new(b"<html>not here</html>".to_vec()), cut: None },
        }
    };
    let n = r.cut.unwrap_or(r.body.len()).min(r.body.len());
    let mut out = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", r.status, r.body.len()).into_bytes();
    out.extend(&r.body[..n]);
    c.write_all(&out)
}
/// the part of the server that belongs to one case
pub struct Site(u64);
static NEXT: AtomicU64 = AtomicU64::new(0);
impl Site {
    pub fn new() -> Site {
        Site(NEXT.fetch_add(1, Ordering::SeqCst))
    }
    pub fn url(&self, p: &str) -> String {
        format!("http://127.0.0.1:{}/{}/{p}", server().port, self.0)
    }
    pub fn put(&self, p: &str, r: Resp) {
        server().routes.lock().unwrap().insert(format!("/{}/{p}", self.0), (r, 0));
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        let p = format!("/{}/", self.0);
        server().routes.lock().unwrap().retain(|k, _| !k.starts_with(&p));
    }
}
