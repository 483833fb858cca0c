pub mod api;
pub mod bitpack;
pub mod child;
pub mod cli;
pub mod common;
pub mod container;
pub mod deep;
pub mod robust;
pub mod stream;
pub mod validity;
pub mod variants;
pub mod wild;

use crate::engine::Prop;

pub fn all() -> Vec<Prop> {
	let mut v = vec![];
	v.extend(stream::props());
	v.extend(container::props());
	v.extend(validity::props());
	v.extend(robust::props());
	v.extend(bitpack::props());
	v.extend(api::props());
	v.extend(cli::props());
	v.extend(variants::props());
	v
}
