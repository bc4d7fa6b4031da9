"""Compile harnesses and /repo sources to bitcode."""
import os, subprocess, hashlib
REPO = os.environ.get("VP_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VP_BUILD", os.path.join(os.path.dirname(HERE), "build"))


def config_dir():
    d = os.path.join(BUILD, "include")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, "include/pystd_config.hpp.in")).read()
    import re
    t = re.sub(r"#mesondefine (\w+)", r"#define \1", t)
    p = os.path.join(d, "pystd_config.hpp")
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(t)
        os.rename(tmp, p)
    return d


def flags():
    return ["-std=c++26", "-nostdinc++", "-DPYSTD_HAS_REGEX", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + config_dir(), "-Wno-everything"]


def bitcode(src, tag=None, extra=()):
    """src: path; returns path of bitcode (rebuilt every time)"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s.%d.bc" % (tag or os.path.basename(src).replace(".cpp", ""), os.getpid()))
    cmd = ["clang++-20"] + flags() + list(extra) + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-gline-tables-only", "-emit-llvm", "-c", src, "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("compilation failed: " + p.stderr[:3000])
    return out
