//! A stand-in for oxipng, which cannot be had offline: it does nothing useful to images, but what
//! it does is known to `harness/src/props/bundled.rs`.

#[derive(Clone, Debug, Default)]
pub struct Options {
    pub force: bool,
    pub fix_errors: bool,
    pub preset: u8,
}

impl Options {
    pub fn from_preset(level: u8) -> Options {
        Options { preset: level, ..Options::default() }
    }

    pub fn max_compression() -> Options {
        Options::from_preset(6)
    }
}

#[derive(Clone, Debug)]
pub enum PngError {
    NotPNG,
    Other(Box<str>),
}

impl std::error::Error for PngError {}

impl std::fmt::Display for PngError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            PngError::NotPNG => write!(f, "invalid header detected; not a PNG file"),
            PngError::Other(s) => write!(f, "{}", s),
        }
    }
}

pub type PngResult<T> = Result<T, PngError>;

const MAGIC: &[u8] = b"\x89PNG\r\n\x1a\n";

pub fn optimize_from_memory(data: &[u8], _: &Options) -> PngResult<Vec<u8>> {
    let rest = data.strip_prefix(MAGIC).ok_or(PngError::NotPNG)?;
    if rest.ends_with(b"broken") {
        return Err(PngError::Other("broken".into()));
    }
    let mut out = MAGIC.to_vec();
    out.extend_from_slice(b"optimised:");
    out.extend(rest.iter().rev());
    Ok(out)
}
