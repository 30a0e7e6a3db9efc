"""Builds the extractor and runs it on the current source of /repo."""
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CRATE = "safecurves_rust"


class ExtractError(Exception):
    pass


def toolenv():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET",
              "RUSTUP_TOOLCHAIN", "CARGO_BUILD_RUSTFLAGS"):
        env.pop(k, None)
    root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, capture_output=True, text=True,
                          check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = root + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def driver(env, scratch):
    """Path of the compiled extractor: the one setup made when it is up to date, otherwise a fresh build."""
    src = os.path.join(VERIF, "driver", "driver.rs")
    built = os.path.join(VERIF, "build", "drv")
    if os.path.exists(built) and os.path.getmtime(built) > os.path.getmtime(src):
        r = subprocess.run([built, "-vV"], env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return built
    out = os.path.join(scratch, "drv")
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", out], env=env,
                       capture_output=True, text=True)
    if r.returncode:
        raise ExtractError("the extractor does not build:\n" + r.stderr[-3000:])
    return out


# The source is read twice, once as a development build and once as a release build sees it (debug assertions off;
# overflow checks stay on so that the arithmetic obligations are visible): code under cfg(debug_assertions) differs.
# (name, cargo arguments, target, compiler flags)
PROFILES = [("dev", [], None, ""), ("release", ["--release"], None, "")]

# Other platforms: the standard library is checked from source for each of them, so that conditional compilation, pointer
# width and byte order are those of the platform.
PLATFORMS = [
    ("32-bit big-endian", [], "powerpc-unknown-linux-gnu", ""),
    ("64-bit ARM", ["--release"], "aarch64-unknown-linux-gnu", ""),
    ("x86-64-v4", ["--release"], "x86_64-unknown-linux-gnu", "-Ctarget-cpu=x86-64-v4"),
]
MORE_PLATFORMS = [
    ("32-bit x86", ["--release"], "i686-unknown-linux-gnu", ""),
    ("64-bit big-endian", [], "s390x-unknown-linux-gnu", ""),
    ("32-bit ARM", ["--release"], "armv7-unknown-linux-gnueabihf", ""),
    ("32-bit MIPS", [], "mips-unknown-linux-gnu", ""),
    ("Apple ARM", ["--release"], "aarch64-apple-darwin", ""),
]


def extract(repo="/repo", builds=PROFILES):
    """-> [(profile, path of the JSON dump)] (in a scratch directory the caller removes), scratch directory."""
    scratch = tempfile.mkdtemp(prefix="scv-")
    try:
        env = toolenv()
        drv = driver(env, scratch)
        jobs = []
        for i, (name, flags, target, rf) in enumerate(builds):
            out = os.path.join(scratch, "%d.json" % i)
            e = dict(env, SCV_OUT=out, SCV_CRATE=CRATE, RUSTC_WORKSPACE_WRAPPER=drv,
                     CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true",
                     CARGO_TARGET_DIR=os.path.join(scratch, "target-%d" % i))
            cmd = ["cargo", "+nightly", "check", "--offline", "--lib"] + flags
            if target:
                cmd += ["--target", target]
                if not rf:
                    cmd += ["-Zbuild-std=std"]
            if rf:
                e["RUSTFLAGS"] = rf
            log = open(os.path.join(scratch, "%d.log" % i), "w+")
            jobs.append((name, out, log, subprocess.Popen(cmd, cwd=repo, env=e, stdout=log, stderr=log)))
        res = []
        for i, (name, out, log, job) in enumerate(jobs):
            job.wait()
            log.seek(0)
            if job.returncode or not os.path.exists(out):
                raise ExtractError("the crate does not compile under the extractor (%s):\n%s" % (name, log.read()[-4000:]))
            shutil.rmtree(os.path.join(scratch, "target-%d" % i), ignore_errors=True)
            res.append((name, out))
        return res, scratch
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


def build_driver():
    env = toolenv()
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    src = os.path.join(VERIF, "driver", "driver.rs")
    subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", os.path.join(VERIF, "build", "drv")],
                   env=env, check=True)


if __name__ == "__main__":
    build_driver()
