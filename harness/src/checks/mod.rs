use crate::engine::Check;

mod accept;
mod cli;
mod common;
mod ctx;
mod diag;
mod ins;
mod ints;
mod io;
mod machine;
mod more;
mod names;
mod plain;
mod robust;
mod secs;
mod text;
mod types;

static ALL: &[&Check] = &[
    &robust::C01,
    &robust::C02,
    &accept::C03,
    &accept::C04,
    &ins::C05,
    &ins::C06,
    &ints::C07,
    &secs::C08,
    &secs::C09,
    &secs::C10,
    &secs::C11,
    &accept::C12,
    &io::C13,
    &io::C14,
    &diag::C15,
    &diag::C16,
    &names::C17,
    &types::C18,
    &types::C19,
    &types::C20,
    &types::C21,
    &cli::C22,
    &robust::C23,
    &ins::C24,
    &ints::C25,
    &accept::C26,
    &diag::C27,
    &more::C28,
    &more::C29,
    &more::C30,
    &ctx::C31,
    &text::C32,
    &text::C33,
    &plain::C34,
    &machine::C35,
];

pub fn all() -> &'static [&'static Check] {
    ALL
}

pub fn serve() -> i32 {
    plain::serve()
}

pub fn probe(what: &str, arg: &str) -> i32 {
    match what {
        "deep" => robust::probe_deep(arg),
        "seen" => robust::probe_seen(arg),
        "small" => robust::probe_small(arg),
        "left" => more::probe_left(),
        "locals" => types::probe_locals(arg),
        _ => 2,
    }
}
