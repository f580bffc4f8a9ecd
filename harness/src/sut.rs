//! Calls into the code under test.
use crate::case::Case;
use json_typegen_shared::{codegen, internal_util::display_error_with_causes};
use std::cell::RefCell;
use std::path::PathBuf;

pub const MODES: &[&str] = &[
    "rust", "typescript", "typescript/typealias", "kotlin/jackson", "kotlin/kotlinx", "python", "json_schema", "zod", "shape",
];
pub const STYLES: &[&str] = &["add_imports", "assume_existing", "qualified_paths"];
pub const FORMATS: &[&str] =
    &["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"];
/// the spellings the web interface sends
pub const FORMAT_SPELLINGS: &[&str] = &[
    "lowercase", "uppercase", "UPPERCASE", "pascalcase", "uppercamelcase", "PascalCase", "camelcase", "camelCase",
    "snakecase", "snake_case", "screamingsnakecase", "SCREAMING_SNAKE_CASE", "kebabcase", "kebab-case",
    "screamingkebabcase", "SCREAMING-KEBAB-CASE",
];

/// Scratch directory of this process, removed at exit.
pub fn scratch() -> PathBuf {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let d = PathBuf::from(base).join(format!("vharness-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}
pub fn cleanup() {
    if std::env::var("VERIF_KEEP").is_ok() { return; }
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let _ = std::fs::remove_dir_all(PathBuf::from(base).join(format!("vharness-{}", std::process::id())));
}
/// The scratch directory of another process that is gone.
pub fn cleanup_of(pid: u32) {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    let _ = std::fs::remove_dir_all(PathBuf::from(base).join(format!("vharness-{pid}")));
}
thread_local! {
    static FILE: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}
/// A per-thread file holding `bytes`.
pub fn temp_file(bytes: &[u8]) -> PathBuf {
    let p = FILE.with(|f| {
        f.borrow_mut()
            .get_or_insert_with(|| {
                let t = format!("{:?}", std::thread::current().id());
                scratch().join(format!("s{}", t.chars().filter(|c| c.is_ascii_digit()).collect::<String>()))
            })
            .clone()
    });
    std::fs::write(&p, bytes).unwrap_or_else(|e| crate::run::harness_error(&format!("{}: {e}", p.display())));
    p
}

/// codegen for `text`, which is handed over inline where the library treats it as text, else as a file
pub fn generate_text(case: &Case, text: &str) -> Result<String, String> {
    let options = case.options().map_err(|e| format!("options: {e}"))?;
    let inline = text.trim_start().starts_with(['{', '[']);
    let r = crate::guard::watch(case, || if inline || case.get("input_mode") == "sql" {
        codegen(&case.name, text, options)
    } else {
        let f = temp_file(text.as_bytes());
        codegen(&case.name, f.to_str().unwrap(), options)
    });
    r.map_err(|e| display_error_with_causes(&e))
}
pub fn generate(case: &Case) -> Result<String, String> {
    generate_text(case, &case.sample.text())
}
pub fn generate_bytes(case: &Case, bytes: &[u8]) -> Result<String, String> {
    let options = case.options().map_err(|e| format!("options: {e}"))?;
    let f = temp_file(bytes);
    crate::guard::watch(case, || codegen(&case.name, f.to_str().unwrap(), options)).map_err(|e| display_error_with_causes(&e))
}
/// A panic is reported as an error.
pub fn caught(case: &Case) -> Result<String, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| generate(case)))
        .unwrap_or_else(|_| Err(format!("panic: {}", crate::run::last_panic())))
}
