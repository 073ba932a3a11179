//! A plugin whose name and identity are what was appended to the file it is loaded from.

use std::ffi::{c_char, c_int, c_void, CStr};
use stuart_core::functions::{Function, FunctionParser};
use stuart_core::parse::{ParseError, RawFunction};
use stuart_core::plugins::Plugin;
use stuart_core::process::{ProcessError, Scope};
use stuart_core::TracebackError;

#[repr(C)]
struct DlInfo {
    fname: *const c_char,
    fbase: *mut c_void,
    sname: *const c_char,
    saddr: *mut c_void,
}

extern "C" {
    fn dladdr(addr: *const c_void, info: *mut DlInfo) -> c_int;
}

const MARK: &str = "\nVHPLUGIN:";

fn trailer() -> (String, String) {
    let file = unsafe {
        let mut i = DlInfo { fname: std::ptr::null(), fbase: std::ptr::null_mut(), sname: std::ptr::null(), saddr: std::ptr::null_mut() };
        dladdr(_stuart_plugin_init as *const c_void, &mut i);
        CStr::from_ptr(i.fname).to_str().unwrap().to_string()
    };
    let b = std::fs::read(file).unwrap();
    let tail = String::from_utf8_lossy(&b[b.len().saturating_sub(300)..]).into_owned();
    let t = tail.rsplit(MARK).next().unwrap_or("").trim().to_string();
    let (n, i) = t.split_once(':').unwrap_or(("vhplugin", "nobody"));
    (n.to_string(), i.to_string())
}

struct Which(&'static str);

#[derive(Debug, Clone)]
struct Say(&'static str);

impl FunctionParser for Which {
    fn name(&self) -> &'static str {
        "which"
    }

    fn parse(&self, _: RawFunction) -> Result<Box<dyn Function>, ParseError> {
        Ok(Box::new(Say(self.0)))
    }
}

impl Function for Say {
    fn name(&self) -> &'static str {
        "which"
    }

    fn execute(&self, scope: &mut Scope) -> Result<(), TracebackError<ProcessError>> {
        scope.output(self.0).unwrap();
        Ok(())
    }
}

#[no_mangle]
pub extern "C" fn _stuart_plugin_init() -> *mut Plugin {
    let (name, id) = trailer();
    Box::into_raw(Box::new(Plugin {
        name,
        version: "1.0.0".into(),
        functions: vec![Box::new(Which(Box::leak(id.into_boxed_str())))],
        parsers: vec![],
    }))
}
