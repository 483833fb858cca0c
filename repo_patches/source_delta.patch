From ead8c2a22d235d4aaf0afddb5b091a9aeecba75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 01/15] fix: do not let bits beyond the integer width leak into
 the next bitpacked value

---
 packages/vorbis_bitpack/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index e1a8dd6..b20e82c 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -349,7 +349,11 @@ impl<W: Write> BitpackWriter<W> {
 		// at most 3 bytes, so the shift never overflows
 		integer >>= 8 * bytes_to_write;
 
-		self.byte_to_be_written = integer as u8;
+		// Ignore any bits beyond the requested integer width, as the bits that are not part
+		// of the integer will be combined with those of the next written integers
+		self.byte_to_be_written =
+			(integer & ones_mask(BitpackedIntegerWidth::__internal_unchecked_new(remainder_bits)))
+				as u8;
 		self.bits_to_be_written = remainder_bits;
 
 		Ok(())
-- 
2.43.0


From 9d97b125cc02d91765ab2d64b9dd0146bc0b8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 02/15] fix: do not write the bits of a finalized byte again
 when bitpacking continues

---
 packages/vorbis_bitpack/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index b20e82c..fadb2e1 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -409,8 +409,10 @@ impl<W: Write> BitpackWriter<W> {
 	/// destination after a call to [`flush`](Self::flush).
 	pub fn finalize(&mut self) -> Result<()> {
 		if self.bits_to_be_written > 0 {
+			let last_byte = self.byte_to_be_written;
+			self.byte_to_be_written = 0;
 			self.bits_to_be_written = 0;
-			self.sink.write_all(&[self.byte_to_be_written])
+			self.sink.write_all(&[last_byte])
 		} else {
 			Ok(())
 		}
-- 
2.43.0


From fcb0ae8a6517137f4705b8a8ba643f822555bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 03/15] fix: do not overflow when reading signed integers of
 zero width

---
 packages/vorbis_bitpack/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index fadb2e1..95d2f9e 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -443,6 +443,11 @@ const fn ones_mask(width: BitpackedIntegerWidth) -> u32 {
 /// Converts the specified variable-width signed integer in an unsigned constant-size
 /// word to a native 32-bit signed integer.
 const fn sign_extend(integer: u32, width: BitpackedIntegerWidth) -> i32 {
+	// Shifting by the full word width is not possible
+	if width.get() == 0 {
+		return 0;
+	}
+
 	let extended_bits = 32 - width.get() as u32;
 	(integer as i32) << extended_bits >> extended_bits
 }
-- 
2.43.0


From 5c663c7275571f68118a2bec94b3d38d91545aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 04/15] fix: pack zero and numbers with small exponents as
 Vorbis float32 without changing their value

---
 packages/vorbis_bitpack/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/vorbis_bitpack/src/lib.rs b/packages/vorbis_bitpack/src/lib.rs
index 95d2f9e..14dbb1f 100644
--- a/packages/vorbis_bitpack/src/lib.rs
+++ b/packages/vorbis_bitpack/src/lib.rs
@@ -521,7 +521,17 @@ fn float32_pack(float: f64) -> u32 {
 
 	// Copy the mantissa, ignoring any least significant digits we cannot store.
 	// Add the implicit 1 bit, required by IEEE-754 for normal floats
-	let mantissa_component = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+	let mantissa_component = if exponent == 0 {
+		// Zero, or a subnormal number that is much closer to zero than to any other number
+		// we can store
+		0
+	} else {
+		let mantissa = ((float.to_bits() & 0x000F_FFFF_0000_0000) >> 32) as u32 | 0x10_00_00;
+
+		// Exponents lower than the minimum are only possible for non-normalized mantissas,
+		// which have their highest bits set to zero
+		mantissa >> cmp::min((235u32 + 20).saturating_sub(exponent), u32::BITS - 1)
+	};
 
 	sign_component | exponent_component | mantissa_component
 }
-- 
2.43.0


From 9f866d353d8c102f37e82d4f6b11721ef5c581d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 05/15] fix: compute lookup1_values exactly

---
 .../src/vorbis/optimizer/setup_header_parse.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
index 5f2d60c..268b832 100644
--- a/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/setup_header_parse.rs
@@ -911,7 +911,23 @@ fn lookup1_values(codebook_entries: u32, codebook_dimensions: u16) -> u32 {
 	if codebook_dimensions == 0 {
 		u32::MAX
 	} else {
-		(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32
+		let values_fit = |values: u32| {
+			(values as u64)
+				.checked_pow(codebook_dimensions as u32)
+				.is_some_and(|entries| entries <= codebook_entries as u64)
+		};
+
+		// The floating point result may be rounded to an adjacent integer, so correct it
+		let mut values =
+			(codebook_entries as f32).powf(1.0 / codebook_dimensions as f32) as u32;
+		while !values_fit(values) {
+			values -= 1;
+		}
+		while values_fit(values + 1) {
+			values += 1;
+		}
+
+		values
 	}
 }
 
-- 
2.43.0


From ff63b4cc1b35206e41c11877aee948e64112c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:25 +0000
Subject: [PATCH 06/15] fix: limit optimal codewords to the 32 bits that the
 Vorbis format allows

---
 .../codebook/huffman_codeword_lengths.rs      | 85 ++++++++++++++++++-
 1 file changed, 83 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
index 4752eab..fc74e38 100644
--- a/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
+++ b/packages/optivorbis/src/vorbis/codebook/huffman_codeword_lengths.rs
@@ -8,6 +8,9 @@
 
 use std::ops::{Index, IndexMut};
 
+/// The maximum length of a codeword that can be represented in a Vorbis codebook.
+const MAXIMUM_CODEWORD_LENGTH: usize = 32;
+
 /// Decorates a slice of codebook number frequencies to be suitable for computing codeword
 /// lengths.
 pub(super) struct VorbisCodebookNumberFrequenciesDecorator<T: AsMut<[u64]> + AsRef<[u64]>> {
@@ -78,8 +81,24 @@ impl<T: AsMut<[u64]> + AsRef<[u64]>> VorbisCodebookNumberFrequenciesDecorator<T>
 				self.number_frequencies
 			}
 			used_codeword_count => {
-				// Our general algorithm can handle the rest of possible used entry counts
-				compute_huffman_codeword_lengths(self, used_codeword_count).number_frequencies
+				// Our general algorithm can handle the rest of possible used entry counts, but
+				// it may come up with codewords longer than what the Vorbis I format can
+				// represent if there are enough of them and their frequencies are skewed enough
+				let sorted_frequencies = if used_codeword_count > MAXIMUM_CODEWORD_LENGTH + 1 {
+					(0..used_codeword_count).map(|i| self[i]).collect()
+				} else {
+					vec![]
+				};
+
+				let mut codeword_lengths =
+					compute_huffman_codeword_lengths(self, used_codeword_count);
+
+				// The least frequent entry is the last, and has the longest codeword
+				if codeword_lengths[used_codeword_count - 1] > MAXIMUM_CODEWORD_LENGTH as u64 {
+					limit_huffman_codeword_lengths(&mut codeword_lengths, &sorted_frequencies);
+				}
+
+				codeword_lengths.number_frequencies
 			}
 		}
 	}
@@ -175,6 +194,68 @@ fn compute_huffman_codeword_lengths<T: IndexMut<usize, Output = u64>>(
 	w
 }
 
+/// Computes optimal codeword lengths under the constraint that no codeword is longer than
+/// [`MAXIMUM_CODEWORD_LENGTH`], using the package-merge algorithm by Larmore and Hirschberg.
+///
+/// `sorted_frequencies` contains the symbol frequencies in decreasing order.
+fn limit_huffman_codeword_lengths<T: IndexMut<usize, Output = u64>>(
+	codeword_lengths: &mut T,
+	sorted_frequencies: &[u64]
+) {
+	let frequency_count = sorted_frequencies.len();
+
+	// For each codeword length, from the longest to the shortest, whether each of the items
+	// available at that length, sorted by increasing weight, is a package of two items of the
+	// next length, or a symbol otherwise
+	let mut package_flags = Vec::with_capacity(MAXIMUM_CODEWORD_LENGTH);
+	let mut weights: Vec<u64> = vec![];
+
+	for _ in 0..MAXIMUM_CODEWORD_LENGTH {
+		let mut packages = weights.chunks_exact(2).map(|w| w[0] + w[1]).peekable();
+		let mut symbols = sorted_frequencies.iter().copied().rev().peekable();
+
+		let mut merged_weights = Vec::with_capacity(weights.len() / 2 + frequency_count);
+		let mut is_package = Vec::with_capacity(weights.len() / 2 + frequency_count);
+		loop {
+			let use_package = match (packages.peek(), symbols.peek()) {
+				(Some(package_weight), Some(frequency)) => package_weight < frequency,
+				(Some(_), None) => true,
+				(None, Some(_)) => false,
+				(None, None) => break
+			};
+
+			merged_weights.extend(if use_package {
+				packages.next()
+			} else {
+				symbols.next()
+			});
+			is_package.push(use_package);
+		}
+
+		weights = merged_weights;
+		package_flags.push(is_package);
+	}
+
+	// The length of each codeword is the number of times its symbol was selected
+	for i in 0..frequency_count {
+		codeword_lengths[i] = 0;
+	}
+
+	let mut selected_items = 2 * (frequency_count - 1);
+	for is_package in package_flags.iter().rev() {
+		let selected_packages = is_package[..selected_items]
+			.iter()
+			.filter(|is_package| **is_package)
+			.count();
+
+		for i in 0..selected_items - selected_packages {
+			codeword_lengths[frequency_count - 1 - i] += 1;
+		}
+
+		selected_items = 2 * selected_packages;
+	}
+}
+
 #[cfg(test)]
 mod test {
 	use super::*;
-- 
2.43.0


From 49d7e96964daadb47b40f7d1c1aeadf0b6ed8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 07/15] fix: apply the vendor string action to comment headers
 whose vendor string can't be read

---
 .../vorbis/optimizer/comment_header_parse.rs  | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
index 4659722..ec38a39 100644
--- a/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
@@ -93,6 +93,10 @@ impl CommentHeaderParse {
 			_ => ()
 		}
 
+		// A vendor string that could not be read is equivalent to an empty one, and it is subject
+		// to the same settings
+		vendor_string.get_or_insert_with(|| process_vendor_string(&[], settings));
+
 		// The parsing went as expected, or we found the end of packet. In any case,
 		// we've parsed what we could, and we can consider the job with this packet
 		// done
@@ -150,17 +154,7 @@ fn parse(
 		String::from_utf8_lossy(raw_vendor_string)
 	);
 
-	*vendor_string = Some(match settings.vendor_string_action {
-		VorbisVendorStringAction::Copy => raw_vendor_string.into(),
-		VorbisVendorStringAction::Replace => OPTIVORBIS_VERSION_TAG.into(),
-		VorbisVendorStringAction::AppendTag => {
-			append_tag_if_needed(raw_vendor_string, OPTIVORBIS_VERSION_TAG)
-		}
-		VorbisVendorStringAction::AppendShortTag => {
-			append_tag_if_needed(raw_vendor_string, OPTIVORBIS_SHORT_VERSION_TAG)
-		}
-		VorbisVendorStringAction::Empty => "".into()
-	});
+	*vendor_string = Some(process_vendor_string(raw_vendor_string, settings));
 
 	let mut user_comment_count = u32::from_le_bytes(
 		get_packet_checked!(4 + vendor_string_length..4 + vendor_string_length + 4)
@@ -206,6 +200,24 @@ fn parse(
 	Ok(())
 }
 
+/// Returns the vendor string to write in place of the specified one, according to the settings.
+fn process_vendor_string(
+	raw_vendor_string: &[u8],
+	settings: &VorbisOptimizerSettings
+) -> Vec<u8> {
+	match settings.vendor_string_action {
+		VorbisVendorStringAction::Copy => raw_vendor_string.into(),
+		VorbisVendorStringAction::Replace => OPTIVORBIS_VERSION_TAG.into(),
+		VorbisVendorStringAction::AppendTag => {
+			append_tag_if_needed(raw_vendor_string, OPTIVORBIS_VERSION_TAG)
+		}
+		VorbisVendorStringAction::AppendShortTag => {
+			append_tag_if_needed(raw_vendor_string, OPTIVORBIS_SHORT_VERSION_TAG)
+		}
+		VorbisVendorStringAction::Empty => "".into()
+	}
+}
+
 /// Appends the given tag to the given binary string if it doesn't already contain it.
 fn append_tag_if_needed<'str, S: Into<Cow<'str, [u8]>>>(vendor_string: S, tag: &str) -> Vec<u8> {
 	let mut vendor_string = vendor_string.into().into_owned();
-- 
2.43.0


From 1882ce9b76d6d6ac6002c2b2dc3b542877d36762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 08/15] fix: report errors that happen while writing the last
 bytes of the output file

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index a0b77a9..aeac587 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -252,11 +252,16 @@ fn remux<F: Read + Seek>(
 
 			let remux_begin = Instant::now();
 			OggToOgg::new(remuxer_settings, optimizer_settings)
-				.remux(input_file, output_file)
+				.remux(input_file, &mut *output_file)
 				.map(|_| remux_begin.elapsed())
 		}
 	} {
 		Ok(duration) => {
+			// Any error writing buffered data out would be ignored if we let that happen on drop
+			output_file
+				.flush()
+				.map_err(|err| format!("Could not write output file: {err}"))?;
+
 			info!(
 				"Optimization and repairs completed in {:.3} s. Have a nice day!",
 				duration.as_secs_f64()
-- 
2.43.0


From 72392b1a01eeeb13af6c06ec60a988581acd8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:22 +0000
Subject: [PATCH 09/15] fix: do not write the program header to the standard
 output when the output file goes there

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index aeac587..dcda24f 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -127,8 +127,13 @@ fn run() -> Result<(), Cow<'static, str>> {
 				let quiet_mode = matches.opt_present("q");
 
 				if !quiet_mode {
-					print_header();
-					println!();
+					if matches.free.get(1).is_some_and(|file_name| file_name == "-") {
+						// The header must not get mixed up with the output file
+						eprintln!("{}\n", header());
+					} else {
+						print_header();
+						println!();
+					}
 				}
 
 				if matches.free.len() != 2 {
@@ -309,9 +314,15 @@ fn init_logging(option_matches: &Matches, quiet_mode: bool) {
 }
 
 fn print_header() {
-	println!("{OPTIVORBIS_VERSION_TAG}");
-	println!("{}", env!("CARGO_PKG_DESCRIPTION"));
-	println!("Copyright (C) {}", env!("CARGO_PKG_AUTHORS"));
+	println!("{}", header());
+}
+
+fn header() -> String {
+	format!(
+		"{OPTIVORBIS_VERSION_TAG}\n{}\nCopyright (C) {}",
+		env!("CARGO_PKG_DESCRIPTION"),
+		env!("CARGO_PKG_AUTHORS")
+	)
 }
 
 enum AvailableRemuxer {
-- 
2.43.0


From 0c89375e4eda103bce915436f25e82b95cd883a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 10/15] fix: apply the start granule position offset to every
 audio page

---
 .../src/remuxer/ogg_to_ogg/granulator.rs      | 160 +++---------------
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs  |  52 ++++--
 2 files changed, 67 insertions(+), 145 deletions(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs
index def99e1..d741695 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/granulator.rs
@@ -31,17 +31,16 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 	match (
 		stream_state.last_written_packet_granule_position,
 		stream_state.last_written_packet_sample_block_size,
-		stream_state.original_last_audio_packet_in_first_audio_page_granule_position,
 		packet_number,
 		is_last_stream_packet
 	) {
-		(_, _, _, 0..=2, _) => {
+		(_, _, 0..=2, _) => {
 			// Vorbis I specification, § A.2: "the granule position of these first
 			// pages containing only [the three] headers is zero"
 
 			0
 		}
-		(None, None, None, 3, _) => {
+		(None, None, 3, _) => {
 			// Vorbis I specification, § 4.3.8: "data is not returned from the first
 			// frame; it must be used to 'prime' the decode engine. The encoder accounts
 			// for this priming when calculating PCM offsets; after the first frame,
@@ -49,52 +48,31 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 			// § A.2 further states that the granule position should be incremented by the
 			// number of actual samples returned by decode, after any windowing, lapping and
 			// the like, so the proper granule position of the first audio packet (a.k.a.
-			// frame) is zero
-
-			stream_state.last_written_packet_granule_position = Some(0);
-			stream_state.last_written_packet_sample_block_size =
-				Some(packet_sample_block_size.unwrap());
-
-			0
-		}
-		(
-			None,
-			None,
-			Some((_, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 3,
-			_
-		) if final_packet_in_first_audio_page_number != processed_packet_count => {
-			// Same case as above, this packet is not special in any other way
-
-			stream_state.last_written_packet_granule_position = Some(0);
-			stream_state.last_written_packet_sample_block_size =
-				Some(packet_sample_block_size.unwrap());
-
-			0
-		}
-		(
-			None,
-			None,
-			Some((first_audio_page_granule_position, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 3,
-			_
-		) if final_packet_in_first_audio_page_number == processed_packet_count => {
-			// Same case as above, but compare the calculated granule position for
-			// this packet, 0, with the actual granule position. Its difference
-			// is the initial sample offset we should add to any future granule
-			// position to not discard sample truncation at the beginning, or
-			// livestream running time up to the encoded start point
-
-			// No-op subtraction for human comprehension, optimized out by the compiler
-			#[allow(clippy::identity_op)]
-			let start_granule_position_offset = first_audio_page_granule_position - 0;
+			// frame) is zero.
+			//
+			// If the original stream did not start at time zero, that position, like any
+			// further one, is shifted by the initial sample offset of the original stream, to
+			// not discard sample truncation at the beginning, or livestream running time up
+			// to the encoded start point. The granule position of the first audio page does
+			// not tell this offset if it is also the last one, because then it may truncate
+			// samples from the end, save for when there is no other packet
 
-			let actual_granule_position =
-				0i64.wrapping_add(if remuxer_settings.ignore_start_sample_offset {
-					0
-				} else {
-					start_granule_position_offset
-				});
+			let start_granule_position_offset =
+				match stream_state.original_start_granule_position_offset {
+					Some((start_granule_position_offset, packet_number))
+						if packet_number == 3
+							|| packet_number < stream_state.analyzed_packet_count - 1 =>
+					{
+						start_granule_position_offset
+					}
+					_ => 0
+				};
+
+			let actual_granule_position = if remuxer_settings.ignore_start_sample_offset {
+				0
+			} else {
+				start_granule_position_offset
+			};
 
 			stream_state.start_granule_position_offset = Some(start_granule_position_offset);
 			stream_state.last_written_packet_granule_position = Some(actual_granule_position);
@@ -106,13 +84,12 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 		(
 			Some(last_written_packet_granule_position),
 			Some(last_written_packet_sample_block_size),
-			None,
 			4..,
 			false
 		) => {
 			// Non-first and non-last audio packet. These packets always are decoded
 			// and outputted completely, so we can just pass on our calculated granule
-			// position, maybe taking into account the start granule position offset.
+			// position, which already takes into account the start granule position offset.
 			// This can repair files with bad granule position data
 
 			let packet_sample_block_size = packet_sample_block_size.unwrap();
@@ -131,87 +108,6 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 		(
 			Some(last_written_packet_granule_position),
 			Some(last_written_packet_sample_block_size),
-			Some((_, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 4..,
-			false
-		) if final_packet_in_first_audio_page_number != processed_packet_count => {
-			// Same case as above, this packet is not special in any other way
-
-			let packet_sample_block_size = packet_sample_block_size.unwrap();
-
-			let calculated_granule_position = calculate_granule_position(
-				last_written_packet_granule_position,
-				last_written_packet_sample_block_size,
-				packet_sample_block_size
-			);
-
-			stream_state.last_written_packet_granule_position = Some(calculated_granule_position);
-			stream_state.last_written_packet_sample_block_size = Some(packet_sample_block_size);
-
-			calculated_granule_position
-		}
-		(
-			Some(last_written_packet_granule_position),
-			Some(last_written_packet_sample_block_size),
-			Some((first_audio_page_granule_position, final_packet_in_first_audio_page_number)),
-			processed_packet_count @ 4..,
-			false
-		) if final_packet_in_first_audio_page_number == processed_packet_count => {
-			// Same case as above, but compare the calculated granule position for
-			// this packet with the actual granule position. Its difference
-			// is the initial sample offset we should add to any future granule
-			// position to not discard sample truncation at the beginning, or
-			// livestream running time up to the encoded start point.
-			//
-			// Note that only packets returned from now on will have its granule
-			// adjusted. This is not a concern for our purposes, as the original
-			// Ogg Vorbis stream was checked to be valid, and the original stream
-			// either finishes the first page sooner or at the same time than us,
-			// so the non-adjusted granule position for previous packets will not
-			// be written to the stream. User-defined stream manglers can challenge
-			// this and other assumptions, though, but that's not a concern either.
-			//
-			// A concerning edge case is when enough packets in the first page of
-			// the original stream are discarded. In that case, the first last
-			// non-ignored audio packet may be placed in the second page by us, and
-			// thus the granule position of the first page we write will not account
-			// for any offset. This is extremely unlikely in practice, so we can solve
-			// it with the sophisticated ostrich algorithm. If it really matters to
-			// anyone, they can probably ignore the start sample offset anyway
-
-			let packet_sample_block_size = packet_sample_block_size.unwrap();
-
-			let calculated_granule_position = calculate_granule_position(
-				last_written_packet_granule_position,
-				last_written_packet_sample_block_size,
-				packet_sample_block_size
-			);
-
-			// Fuzzing discovered that the granule position may be very negative, and thus the
-			// subtraction would overflow. Saturate it to keep the numerically closest value.
-			// Such extremely negative granule positions are invalid according to the specification
-			// anyway
-			let start_granule_position_offset =
-				first_audio_page_granule_position.saturating_sub(calculated_granule_position);
-
-			let actual_granule_position = calculated_granule_position.wrapping_add(
-				if remuxer_settings.ignore_start_sample_offset {
-					0
-				} else {
-					start_granule_position_offset
-				}
-			);
-
-			stream_state.start_granule_position_offset = Some(start_granule_position_offset);
-			stream_state.last_written_packet_granule_position = Some(actual_granule_position);
-			stream_state.last_written_packet_sample_block_size = Some(packet_sample_block_size);
-
-			actual_granule_position
-		}
-		(
-			Some(last_written_packet_granule_position),
-			Some(last_written_packet_sample_block_size),
-			_,
 			_,
 			true
 		) => {
@@ -282,7 +178,7 @@ pub(super) fn granule_position_for_packet<M: OggVorbisStreamMangler>(
 /// the last written packet, its block size, and the block size of the current packet. Effectively,
 /// the granule position of the last packet will be incremented by the amount of samples that an
 /// Ogg Vorbis decoder can return after decoding this packet.
-const fn calculate_granule_position(
+pub(super) const fn calculate_granule_position(
 	last_written_packet_granule_position: i64,
 	last_written_packet_sample_block_size: u16,
 	packet_sample_block_size: u16
diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 05f4fed..e0e5f5e 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -11,7 +11,7 @@ use std::{
 	time::UNIX_EPOCH
 };
 
-use granulator::granule_position_for_packet;
+use granulator::{calculate_granule_position, granule_position_for_packet};
 use indexmap::{IndexMap, map::Entry};
 use log::info;
 use ogg::{OggReadError, PacketReader, PacketWriteEndInfo, PacketWriter, PageParsingOptions};
@@ -157,7 +157,11 @@ impl Default for Settings<OggVorbisStreamPassthroughMangler> {
 /// Holds the state needed for an optimizing remux of an Ogg Vorbis stream.
 struct VorbisStreamState<'settings> {
 	optimizer: VorbisOptimizer<'settings>,
-	original_last_audio_packet_in_first_audio_page_granule_position: Option<(i64, usize)>,
+	/// The start granule position offset that the first audio page of the original stream
+	/// implies, and the number of the last audio packet in that page.
+	original_start_granule_position_offset: Option<(i64, usize)>,
+	analyzed_granule_position: i64,
+	last_analyzed_packet_sample_block_size: Option<u16>,
 	last_written_packet_granule_position: Option<i64>,
 	last_written_packet_sample_block_size: Option<u16>,
 	start_granule_position_offset: Option<i64>,
@@ -322,7 +326,9 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 						stream_serial,
 						VorbisStreamState {
 							optimizer: stream_optimizer,
-							original_last_audio_packet_in_first_audio_page_granule_position: None,
+							original_start_granule_position_offset: None,
+							analyzed_granule_position: 0,
+							last_analyzed_packet_sample_block_size: None,
 							last_written_packet_granule_position: None,
 							last_written_packet_sample_block_size: None,
 							start_granule_position_offset: None,
@@ -365,20 +371,40 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 			// written out. It's convenient to pretend they weren't analyzed either, to
 			// handle them with almost the same code path on the second pass
 			if stream_state.analyzed_packet_count <= 2 || is_not_discarded_audio_packet {
-				// Remember the granule position of the last audio packet in the first audio page.
-				// This is needed to compute granule positions properly for streams that originally
-				// did not start at time zero (livestream recordings, truncating some samples in the
-				// beginning)
+				// Keep track of the granule position of the audio packets if the stream started at
+				// time zero
+				if let Some(packet_sample_block_size) = packet_sample_block_size {
+					if let Some(last_analyzed_packet_sample_block_size) =
+						stream_state.last_analyzed_packet_sample_block_size
+					{
+						stream_state.analyzed_granule_position = calculate_granule_position(
+							stream_state.analyzed_granule_position,
+							last_analyzed_packet_sample_block_size,
+							packet_sample_block_size
+						);
+					}
+					stream_state.last_analyzed_packet_sample_block_size =
+						Some(packet_sample_block_size);
+				}
+
+				// Remember how far the granule position of the last audio packet in the first audio
+				// page is from that. This is needed to compute granule positions properly for streams
+				// that originally did not start at time zero (livestream recordings, truncating some
+				// samples in the beginning)
 				if let (None, true, true) = (
-					stream_state.original_last_audio_packet_in_first_audio_page_granule_position,
+					stream_state.original_start_granule_position_offset,
 					packet.last_in_page(),
 					is_not_discarded_audio_packet
 				) {
-					stream_state.original_last_audio_packet_in_first_audio_page_granule_position =
-						Some((
-							packet.absgp_page() as i64,
-							stream_state.analyzed_packet_count
-						));
+					// Fuzzing discovered that the granule position may be very negative, and thus the
+					// subtraction would overflow. Saturate it to keep the numerically closest value.
+					// Such extremely negative granule positions are invalid according to the
+					// specification anyway
+					stream_state.original_start_granule_position_offset = Some((
+						(packet.absgp_page() as i64)
+							.saturating_sub(stream_state.analyzed_granule_position),
+						stream_state.analyzed_packet_count
+					));
 				}
 
 				stream_state.analyzed_packet_count =
-- 
2.43.0


From aad6881b2c4752bf7063eb95ea12f4d766d8ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:02 +0000
Subject: [PATCH 11/15] Hook: construct a remuxer of the WebAssembly bindings
 natively (cfg optivorbis_verif)

---
 packages/optivorbis/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/packages/optivorbis/src/lib.rs b/packages/optivorbis/src/lib.rs
index 50b6e99..7205340 100644
--- a/packages/optivorbis/src/lib.rs
+++ b/packages/optivorbis/src/lib.rs
@@ -230,6 +230,8 @@
 #![warn(clippy::used_underscore_binding)]
 #![warn(clippy::redundant_feature_names)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
+// optivorbis_verif is only set by verification tools
+#![allow(unexpected_cfgs)]
 
 pub use remuxer::{Remuxer, ogg_to_ogg::OggToOgg};
 #[doc(inline)]
@@ -258,3 +260,11 @@ mod vorbis;
 
 #[cfg(feature = "wasm-bindings")]
 mod wasm_bindings;
+
+/// Constructs a remuxer of the WebAssembly bindings, for verification tools only.
+#[cfg(all(feature = "wasm-bindings", optivorbis_verif))]
+#[doc(hidden)]
+pub fn wasm_bindings_remuxer() -> impl Fn(&[u8]) -> Result<Box<[u8]>, String> {
+	let remuxer = wasm_bindings::OggToOgg::new_with_defaults();
+	move |buf| remuxer.remux(buf)
+}
-- 
2.43.0


From fb3c9590f72ee164f7bba9ef2689813cbccd9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 12/15] fix: retry interrupted reads of the source

---
 .../optivorbis/src/remuxer/ogg_to_ogg/mod.rs  | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index e0e5f5e..99512a8 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -170,6 +170,27 @@ struct VorbisStreamState<'settings> {
 	checksum: u32
 }
 
+/// A byte source that retries reads that were interrupted, as the [`Read`] trait recommends.
+/// The `ogg` crate does not retry every read itself.
+struct RetryingSource<R>(R);
+
+impl<R: Read> Read for RetryingSource<R> {
+	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+		loop {
+			match self.0.read(buf) {
+				Err(error) if error.kind() == io::ErrorKind::Interrupted => (),
+				result => return result
+			}
+		}
+	}
+}
+
+impl<R: Seek> Seek for RetryingSource<R> {
+	fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
+		self.0.seek(pos)
+	}
+}
+
 /// Represents an error that may happen while remuxing with the [`OggToOgg`] remuxer.
 #[derive(Debug, Error)]
 pub enum RemuxError {
@@ -217,9 +238,11 @@ impl<M: OggVorbisStreamMangler> Remuxer for OggToOgg<M> {
 
 	fn remux<R: Read + Seek, W: Write>(
 		&self,
-		mut source: R,
+		source: R,
 		mut sink: W
 	) -> Result<W, Self::RemuxError> {
+		let mut source = RetryingSource(source);
+
 		// Remember the source stream position to rewind to it later
 		let initial_source_pos = source.stream_position()?;
 		let remuxer_settings = &mut *self.remuxer_settings.borrow_mut();
-- 
2.43.0


From 7f410c06b828edf80e055cf1532d0df8acf46992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 13/15] fix: report arguments that are no valid Unicode instead
 of panicking

---
 packages/optivorbis_cli/src/bin/optivorbis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/optivorbis_cli/src/bin/optivorbis.rs b/packages/optivorbis_cli/src/bin/optivorbis.rs
index dcda24f..6e6a7bb 100644
--- a/packages/optivorbis_cli/src/bin/optivorbis.rs
+++ b/packages/optivorbis_cli/src/bin/optivorbis.rs
@@ -110,7 +110,7 @@ fn run() -> Result<(), Cow<'static, str>> {
 		)
 		.parsing_style(ParsingStyle::StopAtFirstFree);
 
-	match options.parse(env::args().skip(1)) {
+	match options.parse(env::args_os().skip(1)) {
 		Ok(matches) => {
 			if matches.opt_present("h") {
 				print_header();
-- 
2.43.0


From 96770fac1baa2134b4f5e61efbf7af58b3c56dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:49 +0000
Subject: [PATCH 14/15] fix: reject Vorbis streams that go on after another one
 started

A stream whose EOS flag was set too early was considered ended, so the
next Vorbis stream was accepted, and later packets of the first one were
then interleaved with it in the output.
---
 packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
index 99512a8..ca6bddf 100644
--- a/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
+++ b/packages/optivorbis/src/remuxer/ogg_to_ogg/mod.rs
@@ -377,9 +377,17 @@ fn first_pass<'settings, R: Read + Seek, M: OggVorbisStreamMangler>(
 					return Err(error.into());
 				}
 			}
-		} else if let Some(stream_state) = vorbis_streams.get_mut(&stream_serial) {
+		} else if let Some(stream_index) = vorbis_streams.get_index_of(&stream_serial) {
 			// The second and next Vorbis packets of a Vorbis logical bitstream
 
+			if stream_index != vorbis_streams.len() - 1 {
+				// Another Vorbis logical bitstream already started. This one looked like it had
+				// ended, because it set the EOS flag, but it goes on, so both streams are grouped
+				return Err(RemuxError::UnsupportedStreamMultiplexing);
+			}
+
+			let stream_state = &mut vorbis_streams[stream_index];
+
 			// last_in_stream() may return false for the last packet of a bitstream
 			// if its page does not set the EOS flag, but that's not a concern if
 			// no other packets follow. If they do, and are not for this stream,
-- 
2.43.0


From a9805376d55f8fc716a22a7c424a8a9494949192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 15/15] fix: Do not overflow on the lengths of a corrupt
 comment header on 32-bit platforms

On platforms whose pointers take 32 bits, adding to string lengths close to
2^32 overflowed, which panics in builds with overflow checks.
---
 .../optivorbis/src/vorbis/optimizer/comment_header_parse.rs  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs b/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
index ec38a39..c7e0b77 100644
--- a/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
+++ b/packages/optivorbis/src/vorbis/optimizer/comment_header_parse.rs
@@ -147,7 +147,7 @@ fn parse(
 	// won't happen that valid vendor strings are made non-conforming by us.
 	//
 	// As a side benefit, skipping UTF-8 validation is a bit faster
-	let raw_vendor_string = get_packet_checked!(4..4 + vendor_string_length);
+	let raw_vendor_string = get_packet_checked!(4..vendor_string_length.saturating_add(4));
 
 	info!(
 		"Encoder vendor string: {}",
@@ -177,7 +177,8 @@ fn parse(
 					.try_into()
 					.unwrap()
 			))?;
-			let user_comment_end_index = user_comment_length_end_index + user_comment_length;
+			let user_comment_end_index =
+				user_comment_length_end_index.saturating_add(user_comment_length);
 
 			// We don't do any validation on the actual contents of the comments because not
 			// all encoders follow the specification, and we don't care about their contents
-- 
2.43.0

