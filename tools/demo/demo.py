"""Builds main.rs against the repository given (in a scratch folder) and runs it."""
import os, shutil, subprocess, sys, tempfile
here, repo = os.path.dirname(os.path.abspath(__file__)), sys.argv[1]
with tempfile.TemporaryDirectory() as d:
    os.mkdir(f"{d}/src")
    shutil.copy(f"{here}/main.rs", f"{d}/src/main.rs")
    shutil.copy(f"{repo}/Cargo.lock", f"{d}/Cargo.lock")
    with open(f"{d}/Cargo.toml", "w") as f:
        f.write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                f'linesweeper = {{ path = "{repo}" }}\nkurbo = "0.12.0"\n[profile.dev]\nopt-level = 1\ndebug = 0\n')
    env = dict(os.environ, CARGO_TARGET_DIR=f"{d}/target", CARGO_NET_OFFLINE="true")
    b = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env)
    if b.returncode != 0:
        print("cannot build the demonstration")
        sys.exit(3)
    try:
        r = subprocess.run([f"{d}/target/debug/demo", f"{here}/cases.txt"], cwd=d, timeout=120).returncode
    except subprocess.TimeoutExpired:
        print("does not end")
        r = 1
    sys.exit(0 if r == 0 else 1)
