use crate::cx::*;
use tmf::*;
mod bits;
mod files;
mod mesh;
mod objs;
mod quant;
pub fn kinds(prop: &str) -> Vec<Kind> {
    match prop {
        "C01" => bits::kinds(),
        "C02" => files::c02(),
        "C03" => files::c03(),
        "C04" => quant::c04(),
        "C05" => quant::c05(),
        "C06" => quant::c06(),
        "C07" => files::c07(),
        "C08" => mesh::c08(),
        "C09" => mesh::c09(),
        "C10" => mesh::c10(),
        "C11" => objs::c11(),
        "C12" => objs::c12(),
        "C13" => mesh::c13(),
        "C14" => files::c14(),
        "C15" => files::c15(),
        "C16" => mesh::c16(),
        "C17" => files::c17(),
        "C18" => files::c18(),
        _ => panic!("unknown property {prop}"),
    }
}
/// Reader handing out its bytes in chunks of varying size.
pub struct Chunky<'a> {
    pub data: &'a [u8],
    pub sizes: Vec<usize>,
    pub i: usize,
    /// fail once this many bytes were delivered
    pub fail_at: Option<usize>,
    pub delivered: usize,
    pub interrupts: bool,
}
impl<'a> Chunky<'a> {
    pub fn new(data: &'a [u8], sizes: Vec<usize>) -> Self {
        Chunky { data, sizes, i: 0, fail_at: None, delivered: 0, interrupts: false }
    }
}
impl std::io::Read for Chunky<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let mut n = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        if self.interrupts && self.i % 3 == 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
        }
        if let Some(f) = self.fail_at {
            if self.delivered >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
            }
            n = n.min(f - self.delivered);
        }
        let n = n.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.delivered += n;
        Ok(n)
    }
}
pub fn chunks(r: &mut Rng) -> Vec<usize> {
    match r.below(4) {
        0 => vec![1],
        1 => vec![usize::MAX],
        _ => (0..r.range(1, 7)).map(|_| r.range(1, 11)).collect(),
    }
}
pub fn save(meshes: &[(TMFMesh, String)], p: &TMFPrecisionInfo) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    TMFMesh::write_tmf(meshes, &mut out, p).map_err(|e| format!("saving failed: {e}"))?;
    Ok(out)
}
pub fn load(b: &[u8]) -> Result<Vec<(TMFMesh, String)>, String> {
    TMFMesh::read_tmf(&mut &b[..]).map_err(|e| format!("loading a saved file failed: {e}"))
}
pub fn save1(m: &TMFMesh, p: &TMFPrecisionInfo) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    m.write_tmf_one(&mut out, p, "mesh").map_err(|e| format!("saving failed: {e}"))?;
    Ok(out)
}
pub fn load1(b: &[u8]) -> Result<TMFMesh, String> {
    let mut v = load(b)?;
    if v.len() != 1 {
        return Err(format!("saved one mesh, loaded {}", v.len()));
    }
    Ok(v.remove(0).0)
}
/// Runs an asynchronous function of the library to its end.
#[cfg(not(feature = "alt"))]
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};
    struct W(std::thread::Thread);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.unpark();
        }
    }
    let waker = Waker::from(Arc::new(W(std::thread::current())));
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park(),
        }
    }
}
#[cfg(feature = "alt")]
pub fn block<T>(f: impl std::future::Future<Output = T>) -> T {
    static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(4).build().unwrap()).block_on(f)
}
