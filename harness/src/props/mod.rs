use crate::engine::Prop;

mod bin;
mod bits;
mod build;
mod emulate;
mod faults;
pub mod indep;

mod filters;
mod header;
mod mem;
mod predict;
mod streams;
mod time;
mod traces;
mod window;

pub fn by_id(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(streams::C01),
        "C02" => Box::new(streams::C02),
        "C03" => Box::new(streams::C03),
        "C04" => Box::new(traces::C04),
        "C05" => Box::new(traces::C05),
        "C06" => Box::new(traces::C06),
        "C07" => Box::new(predict::C07),
        "C08" => Box::new(predict::C08),
        "C09" => Box::new(header::C09),
        "C10" => Box::new(streams::C10),
        "C11" => Box::new(window::C11),
        "C12" => Box::new(bits::C12),
        "C13" => Box::new(faults::C13),
        "C14" => Box::new(bin::C14),
        "C15" => Box::new(bin::C15),
        "C16" => Box::new(bin::C16),
        "C17" => Box::new(filters::C17),
        "C18" => Box::new(traces::C18),
        "C19" => Box::new(emulate::C19),
        "C20" => Box::new(build::C20),
        "C21" => Box::new(bin::C21),
        "C22" => Box::new(indep::C22),
        "C23" => Box::new(indep::C23),
        "C25" => Box::new(time::C25),
        "C24" => Box::new(mem::C24),
        _ => return None,
    })
}
