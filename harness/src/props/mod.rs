pub mod answers;
pub mod checked;
pub mod commands;
pub mod containers;
pub mod internals;
pub mod loading;
pub mod options;
pub mod writing;
pub mod order;
pub mod processing;
pub mod settings;
pub mod stats;
pub mod variants;
use crate::engine::Prop;

pub fn all() -> Vec<Box<dyn Prop>> {
    let mut v: Vec<Box<dyn Prop>> = Vec::new();
    v.extend(answers::props());
    v.extend(loading::props());
    v.extend(settings::props());
    v.extend(containers::props());
    v.extend(internals::props());
    v.extend(order::props());
    v.extend(processing::props());
    v.extend(commands::props());
    v.extend(checked::props());
    v.extend(variants::props());
    v.extend(stats::props());
    v.extend(options::props());
    v.extend(writing::props());
    v
}
