//! Running code under test: panics are results, and so are hangs.
use crate::json::J;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc;
use std::time::Duration;

/// Runs `f`; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if m.starts_with("harness:") {
            eprintln!("HARNESS-ERROR {}", m);
            std::process::exit(97);
        }
        m
    })
}

/// Runs `f` on its own thread and gives up on it after `secs`.
pub fn timed<R: Send + 'static>(
    secs: u64,
    f: impl FnOnce() -> R + Send + 'static,
) -> Result<Result<R, String>, &'static str> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let r = guard(f);
            let _ = tx.send(r);
        })
        .unwrap();
    rx.recv_timeout(Duration::from_secs(secs))
        .map_err(|_| "hang")
}

pub fn quiet_panics() {
    let loud = std::env::var("VT_LOUD").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if m.starts_with("harness:") {
            eprintln!("HARNESS-ERROR {}", m);
            std::process::exit(97);
        }
        if loud {
            eprintln!("{}", i);
        }
    }));
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER")
        .map(|s| s == "thorough")
        .unwrap_or(false)
}
/// Picks by tier.
pub fn tier<T>(quick: T, deep: T) -> T {
    if thorough() {
        deep
    } else {
        quick
    }
}

pub struct Out(std::io::BufWriter<std::fs::File>, pub usize);
impl Out {
    pub fn new(path: &str) -> Out {
        Out(
            std::io::BufWriter::new(
                std::fs::File::create(path).unwrap_or_else(|e| panic!("harness: {}: {}", path, e)),
            ),
            0,
        )
    }
    /// One line per case, flushed at once so that an abort loses nothing.
    pub fn put(&mut self, j: &J) {
        writeln!(self.0, "{}", j).unwrap();
        self.0.flush().unwrap();
        self.1 += 1;
    }
}

pub fn arg(i: usize) -> String {
    std::env::args()
        .nth(i)
        .unwrap_or_else(|| panic!("harness: missing argument {}", i))
}

pub fn err_name(e: &bellman::SynthesisError) -> &'static str {
    use bellman::SynthesisError::*;
    match e {
        AssignmentMissing => "AssignmentMissing",
        DivisionByZero => "DivisionByZero",
        Unsatisfiable => "Unsatisfiable",
        PolynomialDegreeTooLarge => "PolynomialDegreeTooLarge",
        UnexpectedIdentity => "UnexpectedIdentity",
        IoError(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => "IoEof",
        IoError(_) => "IoOther",
        UnconstrainedVariable => "UnconstrainedVariable",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}
pub fn verr_name(e: &bellman::VerificationError) -> &'static str {
    match e {
        bellman::VerificationError::InvalidVerifyingKey => "InvalidVerifyingKey",
        bellman::VerificationError::InvalidProof => "InvalidProof",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}
