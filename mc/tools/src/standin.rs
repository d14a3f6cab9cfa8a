//! Stands in for cargo, uname, lscpu, sysctl and sh: appends one line per call to
//! $KMC_STANDIN/log (name, RUSTFLAGS, arguments; separated by unit separators), prints
//! $KMC_STANDIN/<name>.out and exits with the status in $KMC_STANDIN/<name>.code, or dies of a
//! signal if that is "signal".
use std::io::Write;
fn main() {
    let dir = std::path::PathBuf::from(std::env::var_os("KMC_STANDIN").expect("KMC_STANDIN"));
    let mut args = std::env::args();
    let zero = args.next().unwrap();
    let name = zero.rsplit('/').next().unwrap().to_string();
    let mut line = vec![name.clone(), std::env::var("RUSTFLAGS").unwrap_or_else(|_| "-unset-".into())];
    line.extend(args.map(|a| a.replace('\n', "\u{1e}")));
    let mut log = std::fs::OpenOptions::new().append(true).create(true).open(dir.join("log")).unwrap();
    // The n-th call of a program may have a status of its own: <name>.<n>.code
    let n = std::fs::read_to_string(dir.join("log")).unwrap().lines().filter(|l| l.starts_with(&format!("{name}\u{1f}"))).count();
    writeln!(log, "{}", line.join("\u{1f}")).unwrap();
    if let Ok(out) = std::fs::read(dir.join(format!("{name}.out"))) {
        let _ = std::io::stdout().write_all(&out);
    }
    let code = std::fs::read_to_string(dir.join(format!("{name}.{n}.code")))
        .or_else(|_| std::fs::read_to_string(dir.join(format!("{name}.code"))))
        .unwrap_or_else(|_| "0".into());
    if code == "signal" {
        unsafe { libc::raise(libc::SIGKILL) };
    }
    std::process::exit(code.parse().unwrap());
}
