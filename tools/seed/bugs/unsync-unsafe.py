PROP='C31'
EDITS=[('tower/src/lib.rs','#![forbid(unsafe_code)]\n',''),
('tower/src/util/boxed/unsync.rs',"    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), E>> {\n        self.inner.poll_ready(cx)","    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), E>> {\n        let inner = &mut *self.inner as *mut dyn Service<T, Response = U, Error = E, Future = _>;\n        unsafe { (*inner).poll_ready(cx) }")]
NEEDS="any build of the crate with the lint against unsafe code raised"
BREAKS="the crate dereferences a raw pointer: its memory safety no longer rests on the compiler"
DEMO='''#!/bin/bash
# compiles the crate with unsafe code forbidden from the command line
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$W"' EXIT
export CARGO_TARGET_DIR="$W/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
timeout 280 cargo rustc --offline -q -p tower --lib --all-features -- -F unsafe_code 2>"$W/err"; rc=$?
[ $rc -ne 0 ] && tail -n 12 "$W/err"
exit $rc
'''
