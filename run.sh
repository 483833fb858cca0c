#!/bin/bash
# run.sh setup | run.sh <property> [quick|thorough]
# Builds what the check needs from /repo's working tree and runs it.
# Exit status: 0 held, 1 violation (with a VIOLATION line), anything else: no verdict.
cd "$(dirname "$0")" || exit 2
V=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16
export OVVERIF_DIR=$V RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_TARGET_DIR SOURCE_DATE_EPOCH CARGO_BUILD_TARGET
T=$V/.target
mkdir -p "$T" evidence out

# Modification times do not tell whether sources differ from what a target directory was built
# from (copies, checkouts), so the content decides
stamp() {
	(
		rustc -V
		find /repo/packages /repo/Cargo.toml /repo/Cargo.lock "$V/$1" -type f -not -path '*/target/*' -not -path '*/resources/*' -print0 2>/dev/null |
			LC_ALL=C sort -z | xargs -0 sha256sum
	) | sha256sum | cut -d' ' -f1
}

# build <dir for the stamp> <target dir> <packages to rebuild when the content changed> -- <cargo arguments>
build() {
	local src=$1 target=$T/$2 packages=$3
	shift 4
	local now
	now=$(stamp "$src")
	if [ -d "$target" ] && [ "$(cat "$target/.stamp" 2>/dev/null)" = "$now" ]; then
		touch "$target/.same"
	else
		for p in $packages; do
			[ -d "$target" ] && find "$target" -path "*/.fingerprint/$p-*/*" -type f -delete
		done
	fi
	if ! cargo build --offline --locked --target-dir "$target" "$@" >"$target.log" 2>&1; then
		cat "$target.log"
		echo "build failed: $src"
		return 1
	fi
	echo "$now" >"$target/.stamp"
}

build_harness() {
	RUSTFLAGS="--cfg optivorbis_verif" build harness harness "optivorbis vorbis_bitpack ovverif" -- --release --manifest-path "$V/harness/Cargo.toml"
}
build_nostd() {
	build harness_nostd nostd "vorbis_bitpack ovnostd" -- --release --manifest-path "$V/harness_nostd/Cargo.toml"
	local ok=$?
	export OVVERIF_NOSTD=$T/nostd/release/ovnostd
	return $ok
}
build_cli() {
	build none cli "optivorbis vorbis_bitpack optivorbis_cli" -- --release --manifest-path /repo/Cargo.toml -p optivorbis_cli
	local ok=$?
	export OVVERIF_CLI=$T/cli/release/optivorbis
	return $ok
}
build_variants() {
	local packages="optivorbis vorbis_bitpack ovvariant" m=$V/harness_variants/Cargo.toml
	build harness_variants checked "$packages" -- --profile checked --manifest-path "$m" &&
		build harness_variants plain "$packages" -- --release --no-default-features --manifest-path "$m"
}
# The standard library for WebAssembly is built from its source, as only that is installed
build_wasm() {
	python3 tools/wasm_vendor.py harness_variants/Cargo.lock "$T/wasm-vendor" || return 1
	RUSTC_BOOTSTRAP=1 RUSTFLAGS='--cfg getrandom_backend="custom" -C link-arg=--allow-undefined' \
		build harness_variants wasm "optivorbis vorbis_bitpack ovvariant" -- --lib --profile narrow --features wasm-bindings \
		--manifest-path "$V/harness_variants/Cargo.toml" -Zbuild-std=std,panic_abort --target wasm32-unknown-unknown \
		--config 'source.crates-io.replace-with="vendor"' --config "source.vendor.directory=\"$T/wasm-vendor\""
}
build_shim() {
	gcc -O1 -shared -fPIC -o "$T/faults.so" "$V/harness/shim/faults.c" -ldl || return 1
	export OVVERIF_SHIM=$T/faults.so
}

case $1 in
	setup)
		build_harness && build_nostd && build_cli && build_shim && build_variants && build_wasm || exit 2
		exit 0
		;;
	C[0-9][0-9]) ;;
	*)
		echo "usage: run.sh setup | <property> [quick|thorough]"
		exit 2
		;;
esac

export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
if [ "$VERIF_TIER" = thorough ]; then export OVVERIF_DEADLINE=${OVVERIF_DEADLINE:-840}; fi
build_harness || exit 2
case $1 in
	C25) build_wasm || exit 2 ;;
	C26) build_variants && build_wasm || exit 2 ;;
	C22) build_nostd || exit 2 ;;
	C23 | C24) build_cli && build_shim || exit 2 ;;
esac
ulimit -v 29000000
ulimit -c 0
exec "$T/harness/release/ovverif" run "$1"
