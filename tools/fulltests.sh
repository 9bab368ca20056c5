#!/bin/bash
# Runs the tests of /repo that the official build cannot: the Rust unit tests of the complete crate and the Python
# suite with test_collection_integration.py, both against the shim build. Usage: tools/fulltests.sh [REPO]
export RTEST_REPO="${1:-/repo}"
here="$(cd "$(dirname "$0")/.." && pwd)"
export RTEST_BUILD="${RTEST_BUILD:-$here/build}"
python3 "$here/lib/build.py" full || exit 2
(cd "$RTEST_BUILD/full" && HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR="$RTEST_BUILD/target-full" \
  cargo test -q --offline --lib 2>&1 | tail -40)
t=$(mktemp -d)
cp -a "$RTEST_REPO/tests" "$RTEST_REPO/test_utils" "$RTEST_REPO/pyproject.toml" "$t/"
/opt/vp/venv/bin/python -m venv --without-pip "$t/venv"
printf '%s\n%s\n%s\n' "$RTEST_BUILD/site" "$(/opt/vp/venv/bin/python -c 'import sysconfig; print(sysconfig.get_paths()["purelib"])')" "$t" \
  > "$t/venv/lib/python3.12/site-packages/x.pth"
printf '#!%s/venv/bin/python\nimport sys\nfrom rtest.__main__ import main\nsys.exit(main())\n' "$t" > "$t/venv/bin/rtest"
chmod +x "$t/venv/bin/rtest"
(cd "$t" && PATH="$t/venv/bin:$PATH" venv/bin/python -m pytest -q --no-header -p no:cacheprovider tests 2>&1 | tail -${TAIL:-15})
rm -rf "$t"
