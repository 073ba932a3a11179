use crate::engine::PropFn;

pub mod api;
pub mod bundled;
pub mod crash;
pub mod durable;
pub mod env;
pub mod faults;
pub mod history;
pub mod isolation;
pub mod js;
pub mod layout;
pub mod location;
pub mod md;
pub mod messages;
pub mod model;
pub mod nearest;
pub mod options;
pub mod plugins;
pub mod project;
pub mod repro;
pub mod scripts;
pub mod server;
pub mod sources;
pub mod text;
pub mod together;
pub mod verbosity;
pub mod vfs;
pub mod watch;

pub const ALL: &[(&str, PropFn)] = &[
    ("C01", model::c01),
    ("C02", model::c02),
    ("C03", nearest::c03),
    ("C04", model::c04),
    ("C05", model::c05),
    ("C06", model::c06),
    ("C07", faults::c07),
    ("C08", md::c08),
    ("C09", text::c09),
    ("C10", text::c10),
    ("C11", crash::c11),
    ("C12", location::c12),
    ("C13", layout::c13),
    ("C14", layout::c14),
    ("C15", history::c15),
    ("C16", isolation::c16),
    ("C17", layout::c17),
    ("C18", plugins::c18),
    ("C19", js::c19),
    ("C20", scripts::c20),
    ("C21", project::c21),
    ("C22", server::c22),
    ("C23", watch::c23),
    ("C24", sources::c24),
    ("C25", options::c25),
    ("C26", env::c26),
    ("C27", verbosity::c27),
    ("C28", repro::c28),
    ("C29", api::c29),
    ("C30", messages::c30),
    ("C31", together::c31),
    ("C32", vfs::c32),
    ("C33", durable::c33),
    ("C34", bundled::c34),
];
