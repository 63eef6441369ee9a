#![allow(dead_code)]
use crate::Prop;

mod adsr;
mod channel;
mod common;
mod files;
mod filters;
mod osc;
mod parts;
mod players;
mod session;
mod sounds;
mod system;
mod wav_io;

pub fn all() -> Vec<&'static Prop> {
    let v = vec![&wav_io::C01, &wav_io::C02, &wav_io::C03, &wav_io::C04, &wav_io::C05, &files::C06, &files::C07, &players::C08, &players::C09, &osc::C10, &osc::C11, &adsr::C12, &filters::C13, &filters::C14, &filters::C15, &sounds::C16, &sounds::C17, &sounds::C18, &sounds::C19, &sounds::C20, &channel::C21, &channel::C22, &system::C23, &system::C24, &system::C25, &session::C26, &session::C27];
    v
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}
