//! The simulated I/O: readers and writers handed to library calls, and the process's standard
//! input and output while a whole command runs. `read` and `write` of file descriptors 0 and 1 go
//! to the simulation on the thread that runs it, and to the kernel everywhere else.
use simkit::{Rng, Sim};
use std::{
    cell::RefCell,
    io::{self, Read, Write},
    sync::Mutex,
};

#[derive(Clone, Debug, Default)]
pub struct Weather {
    pub seed: u64,
    /// largest fragment a read or write moves
    pub max: usize,
    pub interrupts: bool,
    /// fail with this error number after so many bytes
    pub fail_at: Option<(usize, i32)>,
    /// flushing fails even when writing did not
    pub flush_fails: bool,
}
impl Weather {
    pub fn draw(sim: &mut Sim) -> Self {
        let max = *sim.pick(&[1 << 20, 4096, 333, 31, 8192, 100_000]);
        let w = Weather { seed: sim.choose(1 << 32), max, interrupts: sim.chance(1, 3), ..Default::default() };
        if max < 1 << 20 {
            sim.count_fault("short reads or writes");
        }
        if w.interrupts {
            sim.count_fault("interrupted reads or writes");
        }
        w
    }
    pub fn read_error(&mut self, sim: &mut Sim, len: usize) {
        let at = match sim.choose(4) {
            0 => len,
            1 => 0,
            _ => sim.choose(len as u64 + 1) as usize,
        };
        self.fail_at = Some((at, *sim.pick(&[libc::EIO, libc::ECONNRESET, libc::ETIMEDOUT, libc::EISDIR])));
        sim.count_fault("read error");
    }
    pub fn write_error(&mut self, sim: &mut Sim, len: usize) {
        let at = match sim.choose(4) {
            0 => len.saturating_sub(1),
            1 => 0,
            _ => sim.choose(len as u64) as usize,
        };
        let (e, name) = *sim.pick(&[(libc::ENOSPC, "disk full"), (libc::EIO, "write error"), (libc::EPIPE, "reader went away"), (0, "writer takes no more")]);
        self.fail_at = Some((at, e));
        sim.count_fault(name);
    }
}
pub struct SimReader {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    w: Weather,
    interrupted: bool,
}
impl SimReader {
    pub fn new(data: &[u8], w: &Weather) -> Self {
        Self { data: data.to_vec(), pos: 0, rng: Rng::new(w.seed), w: w.clone(), interrupted: false }
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.w.interrupts && !self.interrupted && self.rng.below(8) == 0 {
            self.interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let mut end = self.data.len();
        if let Some((at, e)) = self.w.fail_at {
            if self.pos >= at && !buf.is_empty() {
                return Err(io::Error::from_raw_os_error(e));
            }
            end = end.min(at);
        }
        let n = buf.len().min(end - self.pos).min(1 + self.rng.below(self.w.max as u64) as usize);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
pub struct SimWriter {
    pub out: Vec<u8>,
    rng: Rng,
    w: Weather,
    interrupted: bool,
    pub failed: bool,
}
impl SimWriter {
    pub fn new(w: &Weather) -> Self {
        Self { out: vec![], rng: Rng::new(w.seed ^ 7), w: w.clone(), interrupted: false, failed: false }
    }
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.w.interrupts && !self.interrupted && self.rng.below(8) == 0 {
            self.interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.interrupted = false;
        let mut n = buf.len().min(1 + self.rng.below(self.w.max as u64) as usize);
        if let Some((at, e)) = self.w.fail_at {
            if self.out.len() >= at && !buf.is_empty() {
                self.failed = true;
                return if e == 0 { Ok(0) } else { Err(io::Error::from_raw_os_error(e)) };
            }
            n = n.min(at - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.w.flush_fails {
            self.failed = true;
            return Err(io::Error::from_raw_os_error(libc::EIO));
        }
        Ok(())
    }
}

struct Console {
    input: SimReader,
    output: SimWriter,
    args: Vec<String>,
}
thread_local! {
    static CONSOLE: RefCell<Option<Console>> = const { RefCell::new(None) };
}
pub fn argv() -> Vec<String> {
    CONSOLE.with(|c| c.borrow().as_ref().expect("a console").args.clone())
}
fn code(e: io::Error) -> isize {
    let n = match e.kind() {
        io::ErrorKind::Interrupted => libc::EINTR,
        _ => e.raw_os_error().unwrap_or(libc::EIO),
    };
    unsafe { *libc::__errno_location() = n };
    -1
}
/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut u8, len: usize) -> isize {
    if fd == 0 {
        let r = CONSOLE.with(|c| c.borrow_mut().as_mut().map(|c| c.input.read(std::slice::from_raw_parts_mut(buf, len))));
        if let Some(r) = r {
            return r.map(|n| n as isize).unwrap_or_else(code);
        }
    }
    simkit::os::raw(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0) as isize
}
/// # Safety
/// called by libc users with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const u8, len: usize) -> isize {
    if fd == 1 {
        let r = CONSOLE.with(|c| c.borrow_mut().as_mut().map(|c| c.output.write(std::slice::from_raw_parts(buf, len))));
        if let Some(r) = r {
            return r.map(|n| n as isize).unwrap_or_else(code);
        }
    }
    simkit::os::raw(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0) as isize
}

pub struct Ran {
    /// what `main` returned, or the panic
    pub result: Result<Result<(), String>, String>,
    pub output: Vec<u8>,
    /// an error was handed out while writing
    pub write_failed: bool,
}
/// Run the whole tool with these arguments, standard input and output, as the process would: what is
/// still buffered when `main` returns is flushed once and errors of that are lost, as at exit.
pub fn run(args: &[&str], input: &[u8], wi: &Weather, wo: &Weather) -> Ran {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let _out = io::stdout().lock();
    let mut a = vec!["ec".to_string()];
    a.extend(args.iter().map(|x| x.to_string()));
    CONSOLE.with(|c| *c.borrow_mut() = Some(Console { input: SimReader::new(input, wi), output: SimWriter::new(wo), args: a }));
    let result = simkit::guard(|| crate::ec_main().map_err(|e| format!("{e:#}"))).map_err(|p| p.message);
    let _ = io::stdout().flush();
    let done = CONSOLE.with(|c| {
        // leave nothing behind in the process-wide buffers
        let calm = Console { input: SimReader::new(&[], &Weather { max: 1, ..Default::default() }), output: SimWriter::new(&Weather { max: 1 << 30, ..Default::default() }), args: vec![] };
        c.borrow_mut().replace(calm).unwrap()
    });
    let _ = io::stdout().flush();
    let _ = io::stdin().lock().read_to_end(&mut vec![]);
    CONSOLE.with(|c| *c.borrow_mut() = None);
    Ran { result, output: done.output.out, write_failed: done.output.failed }
}
/// the seams are linked in, or nothing above means anything
pub fn assert_seams() {
    std::thread::spawn(|| {
        CONSOLE.with(|c| {
            *c.borrow_mut() = Some(Console {
                input: SimReader::new(b"in", &Weather { max: 9, ..Default::default() }),
                output: SimWriter::new(&Weather { max: 9, ..Default::default() }),
                args: vec![],
            })
        });
        let mut s = String::new();
        io::stdin().read_line(&mut s).unwrap();
        print!("out");
        io::stdout().flush().unwrap();
        let c = CONSOLE.with(|c| c.borrow_mut().take().unwrap());
        assert!(s.starts_with("in") && c.output.out == b"out", "standard input and output are not linked to the simulation");
    })
    .join()
    .unwrap();
}
