//! Known findings, listed in /verif/known-findings.

use std::sync::OnceLock;

fn lines() -> &'static Vec<String> {
	static L: OnceLock<Vec<String>> = OnceLock::new();
	L.get_or_init(|| {
		std::fs::read_to_string(format!("{}/known-findings", crate::verif_dir()))
			.unwrap_or_default()
			.lines()
			.map(|l| l.to_string())
			.collect()
	})
}

/// Whether the file lists this finding: a line `KNOWN-FINDING: property=<id> [<tag>] ...`.
pub fn listed(id: &str, tag: &str) -> bool {
	lines().iter().any(|l| l.starts_with(&format!("KNOWN-FINDING: property={id} [{tag}]")))
}

pub fn print(id: &str) {
	for l in lines() {
		if l.starts_with(&format!("KNOWN-FINDING: property={id} ")) {
			println!("{l}");
		}
	}
}
