pub mod cli;
pub mod content;
pub mod document;
pub mod memory;
pub mod misc;
pub mod parity_read;
pub mod reading;
pub mod stream;
pub mod writing;
use crate::runner::Check;

pub fn all() -> Vec<Box<dyn Check>> {
    vec![
        Box::new(reading::Totality),
        Box::new(parity_read::EventParity),
        Box::new(parity_read::TokenParity),
        Box::new(parity_read::ErrorParity),
        Box::new(parity_read::Marks),
        Box::new(reading::Chunking),
        Box::new(reading::Encodings),
        Box::new(reading::Malformed),
        Box::new(reading::Grammar),
        Box::new(reading::Load),
        Box::new(reading::ReadAhead),
        Box::new(writing::EmitParity),
        Box::new(writing::EmitErrors),
        Box::new(writing::RoundTrip),
        Box::new(writing::Settings),
        Box::new(writing::Sinks),
        Box::new(document::DumpLoad),
        Box::new(document::Builder),
        Box::new(writing::Rewrite),
        Box::new(misc::Reset),
        Box::new(misc::Errors),
        Box::new(misc::Concat),
        Box::new(misc::Isolation),
        Box::new(memory::Memory),
        Box::new(cli::Tools),
        Box::new(stream::Bounded),
        Box::new(stream::Linear),
        Box::new(content::Tags),
        Box::new(content::Scalars),
        Box::new(document::Mixed),
    ]
}
