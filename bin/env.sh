# Sourced by the checks: the toolchain /repo is pinned to, and a harness build with the hooks on.
_here=$(pwd)
. /opt/vp/env.sh
cd "$_here"
export RUSTFLAGS="--cfg goko_verif --cap-lints warn"
export CARGO_TARGET_DIR=/verif/.build
