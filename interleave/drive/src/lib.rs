//! What a user does with a reader.  Instantiated here so that the library's generic code is instrumented, too.

mod engine {
    use poreader::PoParser;
    pub fn parser() -> &'static PoParser {
        unreachable!()
    }
    pub fn in_impl<T>(_: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
        Ok(f())
    }
}
#[allow(dead_code)]
#[path = "../../../harness/src/obs.rs"]
mod obs;

use poreader::PoParser;
use std::io::Read;

pub type Parser = PoParser;

pub fn parser() -> PoParser {
    PoParser::new()
}

/// Read everything, once.
pub fn read(p: &PoParser, src: Box<dyn Read>) -> String {
    format!("{:?}", obs::run_with(p, src, 200))
}

