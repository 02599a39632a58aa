"""Builds everything a check needs from /repo's current tree.

build/            (git-ignored, recreated when missing)
  vendor/         links to the crates in the local cargo cache; solana-program
                  is a patched copy (run-time stubs, see PATCHES)
  subject/<prog>  copy of /repo/programs/<prog>/src, unmodified
  h/<harness>     harness crate manifests
  target/         cargo output
  sx, runner      symbolic executor, native replay runtime
"""
import os, sys, json, hashlib, shutil, subprocess, glob, time, re, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "1.70.0"

def cargo_home():
    for d in (os.environ.get("CARGO_HOME"), os.path.expanduser("~/.cargo"), "/root/.cargo"):
        if d and glob.glob(d + "/registry/src/*/anchor-lang-0.24.2"):
            return d
    raise SystemExit("no cargo cache with anchor-lang 0.24.2")

def sub1(path, pairs):
    s = open(path).read()
    for a, b, *fl in pairs:
        n = re.sub(a, lambda m: b if "\\" not in b else m.expand(b), s, flags=re.S)
        if n == s:
            raise SystemExit("patch does not apply: %s: %s" % (path, a))
        s = n
    open(path, "w").write(s)

def patch_solana(d):
    """Run-time stubs: the syscalls become hooks of the harness; the address
    derivation hash becomes a cheap mixing function; logging disappears."""
    ps = d + "/src/program_stubs.rs"
    s = open(ps).read()
    i = s.index("pub(crate) fn sol_log(message")
    j = s.index("/// Check that two regions do not overlap.")
    s = s[:i] + '''
/// hooks of the verification harness
pub type Cpi = fn(&Instruction, &[AccountInfo], &[&[&[u8]]]) -> ProgramResult;
pub static mut SX_CPI: Option<Cpi> = None;
pub static mut SX_SLOT: u64 = 0;
pub(crate) fn sol_log(_: &str) {}
pub(crate) fn sol_log_64(_: u64, _: u64, _: u64, _: u64, _: u64) {}
pub(crate) fn sol_log_compute_units() {}
pub(crate) fn sol_invoke_signed(i: &Instruction, a: &[AccountInfo], s: &[&[&[u8]]]) -> ProgramResult {
    match unsafe { SX_CPI } { Some(f) => f(i, a, s), None => Err(crate::program_error::ProgramError::InvalidArgument) }
}
pub(crate) fn sol_get_clock_sysvar(var_addr: *mut u8) -> u64 {
    unsafe {
        std::ptr::write(var_addr as *mut crate::clock::Clock, crate::clock::Clock { slot: SX_SLOT, epoch_start_timestamp: 0, epoch: 0, leader_schedule_epoch: 0, unix_timestamp: 0 });
    }
    0
}
pub(crate) fn sol_get_epoch_schedule_sysvar(_: *mut u8) -> u64 { UNSUPPORTED_SYSVAR }
pub(crate) fn sol_get_fees_sysvar(_: *mut u8) -> u64 { UNSUPPORTED_SYSVAR }
pub(crate) fn sol_get_rent_sysvar(var_addr: *mut u8) -> u64 {
    unsafe { std::ptr::write(var_addr as *mut crate::rent::Rent, crate::rent::Rent::default()); }
    0
}
pub(crate) fn sol_memcpy(dst: *mut u8, src: *const u8, n: usize) { unsafe { std::ptr::copy_nonoverlapping(src, dst, n) } }
pub(crate) fn sol_memmove(dst: *mut u8, src: *const u8, n: usize) { unsafe { std::ptr::copy(src, dst, n) } }
pub(crate) fn sol_memcmp(s1: *const u8, s2: *const u8, n: usize, result: *mut i32) {
    unsafe { *result = std::slice::from_raw_parts(s1, n).cmp(std::slice::from_raw_parts(s2, n)) as i32; }
}
pub(crate) fn sol_memset(s: *mut u8, c: u8, n: usize) { unsafe { std::ptr::write_bytes(s, c, n) } }
pub(crate) fn sol_get_return_data() -> Option<(Pubkey, Vec<u8>)> { None }
pub(crate) fn sol_set_return_data(_: &[u8]) {}
pub(crate) fn sol_log_data(_: &[&[u8]]) {}
pub(crate) fn sol_get_processed_sibling_instruction(_: usize) -> Option<Instruction> { None }
pub(crate) fn sol_get_stack_height() -> u64 { 0 }

''' + s[j:]
    # the default stub implementation of memcpy & co. is kept (unused)
    open(ps, "w").write(s)
    sub1(d + "/src/log.rs", [(r"\(\$msg:expr\) => \{\s*\$crate::log::sol_log\(\$msg\)\s*\};\s*\(\$\(\$arg:tt\)\*\) => \(\$crate::log::sol_log\(&format!\(\$\(\$arg\)\*\)\)\);",
        "($msg:expr) => { if false { $crate::log::sol_log($msg) } }; ($($arg:tt)*) => { if false { $crate::log::sol_log(&format!($($arg)*)) } };")])
    sub1(d + "/src/pubkey.rs", [
        (r'write!\(f, "\{\}", bs58::encode\(self.0\).into_string\(\)\)', "{ let _ = f; Ok(()) }"),
        (r"let mut hasher = crate::hash::Hasher::default\(\);.*?Ok\(Pubkey::new\(hash.as_ref\(\)\)\)", '''
            let mut h = [0x9e3779b97f4a7c15u64, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, 0x2545f4914f6cdd1d];
            let mut n = 0usize;
            let mut mix = |b: u8| {
                let i = n & 3;
                h[i] = (h[i] ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(29) ^ h[(i + 1) & 3];
                n += 1;
            };
            for seed in seeds.iter() { for b in seed.iter() { mix(*b); } }
            for b in program_id.as_ref().iter() { mix(*b); }
            for b in PDA_MARKER.iter() { mix(*b); }
            for _ in 0..8 { mix(0x5c); }
            let mut out = [0u8; 32];
            for i in 0..4 { out[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes()); }
            Ok(Pubkey::new_from_array(out))'''),
    ])
    # floating point rent arithmetic -> integer (amounts of lamports are irrelevant here)
    sub1(d + "/src/rent.rs", [
        (r"pub fn minimum_balance\(&self, data_len: usize\) -> u64 \{.*?\n    \}", "pub fn minimum_balance(&self, data_len: usize) -> u64 { (128 + data_len as u64) * 6960 }"),
        (r"pub fn is_exempt\(&self, balance: u64, data_len: usize\) -> bool \{.*?\n    \}", "pub fn is_exempt(&self, balance: u64, data_len: usize) -> bool { balance >= self.minimum_balance(data_len) }"),
    ])
    sub1(d + "/Cargo.toml", [(r'crate-type = \["cdylib", "rlib"\]', 'crate-type = ["rlib"]')])

def make_vendor():
    dst = B + "/vendor"
    if os.path.exists(dst + "/.done"):
        return
    shutil.rmtree(dst, ignore_errors=True)
    ch = cargo_home()
    src = glob.glob(ch + "/registry/src/*/anchor-lang-0.24.2")[0].rsplit("/", 1)[0]
    cache = src.replace("/registry/src/", "/registry/cache/")
    for d in sorted(os.listdir(src)):
        p = os.path.join(dst, d)
        if d.startswith("solana-program-1.9.29"):
            shutil.copytree(os.path.join(src, d), p, symlinks=True)
            for f in glob.glob(p + "/.cargo*"):
                os.unlink(f)
            patch_solana(p)
        else:
            os.makedirs(p, exist_ok=True)
            for f in os.listdir(os.path.join(src, d)):
                if not f.startswith(".cargo"):
                    os.symlink(os.path.join(src, d, f), os.path.join(p, f))
        h = hashlib.sha256(open("%s/%s.crate" % (cache, d), "rb").read()).hexdigest()
        json.dump({"files": {}, "package": h}, open(p + "/.cargo-checksum.json", "w"))
    os.makedirs(B + "/.cargo", exist_ok=True)
    open(B + "/.cargo/config.toml", "w").write(
        '[source.crates-io]\nreplace-with = "vend"\n[source.vend]\ndirectory = "%s"\n[net]\noffline = true\n' % dst)
    open(dst + "/.done", "w").close()

SUBJECT = {"farming": "5.2.1", "amm": "2.0.1"}
HARNESS = {"hfarm": "farming", "hfint": "farming", "hamm": "amm"}
USES = {"hfint": ["hfarm"]}  # sources shared between harness crates

def same(a, b):
    try:
        return open(a, "rb").read() == open(b, "rb").read()
    except OSError:
        return False

def sync(src, dst):
    """copy a tree, leaving identical files (and their timestamps) alone"""
    keep = set()
    for r, ds, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), src)
            keep.add(rel)
            t = os.path.join(dst, rel)
            if not same(os.path.join(r, f), t):
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(os.path.join(r, f), t)
    for r, ds, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(r, f), dst) not in keep:
                os.unlink(os.path.join(r, f))

def wr(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != s:
        open(path, "w").write(s)

def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_TARGET_DIR"] = B + "/target"
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_HOME"] = cargo_home()
    return e

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        o = r.stdout
        i = o.find("\nerror")
        sys.stdout.write(o[i:i + 2500] if i >= 0 else o[-2500:])
        raise SystemExit(2)
    return r.stdout

def tools():
    """start building the executor and the replay runtime; returns processes"""
    ps = []
    eng = VERIF + "/engine"
    def stale(out, srcs):
        h = hashlib.sha256(b"".join(open(s, "rb").read() for s in sorted(srcs))).hexdigest()
        if os.path.exists(out) and os.path.exists(out + ".h") and open(out + ".h").read() == h:
            return None
        return h
    for name, script in (("sx", "build.sh"), ("runner", "build_runner.sh")):
        h = stale(B + "/" + name, [p for p in glob.glob(eng + "/*") if os.path.isfile(p)])
        if h:
            p = subprocess.Popen(["bash", eng + "/" + script, B + "/" + name + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ps.append((p, name, h))
    return ps

def tools_wait(ps):
    for p, name, h in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            print(out[-4000:]); raise SystemExit(2)
        os.replace(B + "/" + name + ".tmp", B + "/" + name)
        open(B + "/" + name + ".h", "w").write(h)

def build(harness):
    """returns (bitcode, shared object)"""
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    ps = tools()
    make_vendor()
    prog = HARNESS[harness]
    sync("%s/programs/%s/src" % (REPO, prog), "%s/subject/%s/programs/%s/src" % (B, prog, prog))
    wr("%s/subject/%s/Cargo.toml" % (B, prog), '''[package]
name = "%s"
version = "%s"
edition = "2021"
[lib]
name = "%s"
path = "programs/%s/src/lib.rs"
[features]
no-entrypoint = []
no-idl = []
no-log-ix-name = []
cpi = ["no-entrypoint"]
default = []
dev = []
[dependencies]
anchor-lang = "0.24.2"
anchor-spl = "0.24.2"
decimal = { path = "../../r/decimal" }
''' % (prog, SUBJECT[prog], prog, prog))
    for c in ["decimal", "world", harness] + USES.get(harness, []):
        sync("%s/rust/%s" % (VERIF, c), "%s/r/%s" % (B, c))
    crate = "%s/r/%s" % (B, harness)
    run(["cargo", "rustc", "--release", "--offline", "--lib", "--", "--emit=llvm-bc,link",
         "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], cwd=crate, env=env())
    tools_wait(ps)
    bc = "%s/target/release/deps/%s.bc" % (B, harness)
    so = "%s/target/release/lib%s.so" % (B, harness)
    assert os.path.exists(bc) and os.path.exists(so)
    return bc, so, time.time() - t0

if __name__ == "__main__":
    for h in HARNESS if sys.argv[1] == "setup" else sys.argv[1:]:
        print(build(h))
