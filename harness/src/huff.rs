//! Reference codeword assignment, decoding and optimal cost computation.

use std::collections::BinaryHeap;
use std::cmp::Reverse;

/// Assigns codewords to the lengths as the Vorbis I specification mandates (every entry gets, in
/// order, the lowest-valued unused codeword of its length). Codes are most significant bit first.
/// `None` if the lengths overspecify the tree.
pub fn assign(lens: &[u8]) -> Option<Vec<Option<u32>>> {
	// available[l]: the (at most one) free node at depth l, as a left-aligned 32-bit codeword
	let mut available: [Option<u32>; 33] = [None; 33];
	let mut out = vec![None; lens.len()];
	let mut first = true;
	for (i, &l) in lens.iter().enumerate() {
		if l == 0 {
			continue;
		}
		let l = l as usize;
		debug_assert!(l <= 32);
		let z;
		if first {
			first = false;
			z = 0;
			for d in 1..=l {
				available[d] = Some(1u32 << (32 - d));
			}
		} else {
			let mut d = l;
			while d > 0 && available[d].is_none() {
				d -= 1;
			}
			if d == 0 {
				return None;
			}
			z = available[d].take().unwrap();
			for k in (d + 1..=l).rev() {
				available[k] = Some(z + (1u32 << (32 - k)));
			}
		}
		out[i] = Some(z >> (32 - l));
	}
	Some(out)
}

#[derive(Clone)]
pub struct Tree {
	// children: [left, right]; 0 = none; > 0 node index; < 0 leaf for entry -(x + 1)
	nodes: Vec<[i64; 2]>
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Walk {
	Entry(u32),
	Eop,
	Unassigned
}

impl Tree {
	pub fn new(lens: &[u8], codes: &[Option<u32>]) -> Self {
		let mut nodes = vec![[0i64; 2]];
		if lens == [1] {
			// Degenerate single-entry codebook: any bit selects the entry
			nodes[0] = [-1, -1];
			return Tree { nodes };
		}
		for (e, c) in codes.iter().enumerate() {
			let Some(c) = c else { continue };
			let l = lens[e];
			let mut n = 0usize;
			for b in (0..l).rev() {
				let bit = ((c >> b) & 1) as usize;
				if b == 0 {
					assert_eq!(nodes[n][bit], 0, "reference codeword assignment is not prefix-free");
					nodes[n][bit] = -(e as i64) - 1;
				} else {
					if nodes[n][bit] == 0 {
						nodes.push([0, 0]);
						nodes[n][bit] = nodes.len() as i64 - 1;
					}
					n = nodes[n][bit] as usize;
				}
			}
		}
		Tree { nodes }
	}
	pub fn read(&self, r: &mut crate::bits::BitR) -> Walk {
		let mut n = 0usize;
		loop {
			let Some(b) = r.bit() else { return Walk::Eop };
			match self.nodes[n][b as usize] {
				0 => return Walk::Unassigned,
				x if x < 0 => return Walk::Entry((-x - 1) as u32),
				x => n = x as usize
			}
		}
	}
	/// Whether every bit sequence leads to an entry.
	pub fn complete(&self) -> bool {
		self.nodes.iter().all(|n| n[0] != 0 && n[1] != 0)
	}
}

/// Kraft sum in units of 2^-32.
pub fn kraft(lens: &[u8]) -> u64 {
	lens.iter().filter(|l| **l > 0).map(|l| 1u64 << (32 - *l as u32)).sum()
}

/// Minimum total number of bits to code symbols with these non-zero counts with codewords of at
/// most 32 bits (1 bit per symbol if there is only one).
pub fn optimal_cost(counts: &[u64]) -> u128 {
	let used: Vec<u64> = counts.iter().copied().filter(|c| *c > 0).collect();
	match used.len() {
		0 => return 0,
		1 => return used[0] as u128,
		_ => ()
	}
	// (weight, depth) merged with the smallest depth first gives the minimum maximum depth
	let mut heap: BinaryHeap<Reverse<(u128, u32)>> = used.iter().map(|c| Reverse((*c as u128, 0))).collect();
	let mut cost = 0u128;
	while heap.len() > 1 {
		let Reverse((a, da)) = heap.pop().unwrap();
		let Reverse((b, db)) = heap.pop().unwrap();
		cost += a + b;
		heap.push(Reverse((a + b, da.max(db) + 1)));
	}
	let Reverse((_, depth)) = heap.pop().unwrap();
	if depth <= 32 {
		cost
	} else {
		package_merge_cost(&used, 32)
	}
}

fn package_merge_cost(used: &[u64], limit: u32) -> u128 {
	// Coin collector's formulation: only the total cost is needed
	let mut leaves: Vec<(u128, u32)> = used.iter().map(|c| (*c as u128, 0)).collect();
	leaves.sort();
	let mut current: Vec<u128> = leaves.iter().map(|l| l.0).collect();
	for _ in 1..limit {
		let mut packages: Vec<u128> = current.chunks_exact(2).map(|p| p[0] + p[1]).collect();
		packages.extend(leaves.iter().map(|l| l.0));
		packages.sort();
		current = packages;
	}
	current[..2 * (used.len() - 1)].iter().sum()
}
