"""confirms planted bugs in scratch copies: the patch applies, the stable tests pass with it, and the demonstration
exits 0 without and nonzero with it.  usage: try_seed.py ID..."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp/plugin", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", JACK_NO_START_SERVER="1")
STABLE = set(x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"])
IGNORE = {"tests.tests._data._signals.test_signal_convolution::test_correlate_with_single_channel"}     # depends on the CPU's FFT rounding


def run(i):
    seed = os.path.join(HERE, "seeded", i)
    d = f"/tmp/seed_{i}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    out = []
    try:
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        r0 = subprocess.run(["bash", os.path.join(seed, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300, env=env)
        if r0.returncode:
            out.append(f"demo fails on the unchanged tree: {r0.stdout[-500:]}{r0.stderr[-800:]}")
        a = subprocess.run(["git", "-C", d, "apply", os.path.join(seed, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return i, [f"patch does not apply: {a.stderr}"]
        r1 = subprocess.run(["bash", os.path.join(seed, "demo.sh")], cwd=d, capture_output=True, text=True, timeout=300, env=env)
        if not r1.returncode:
            out.append("demo passes with the patch")
        else:
            out.append("demo says: " + (r1.stdout + r1.stderr).strip()[-200:])
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "sumpf_hypothesis", f"--rootdir={d}", "-W", "ignore", "--timeout=180", "-n", "3",
                        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--doctest-glob=*.rst", "--doctest-modules", "--ignore=docs", "--ignore=tests/unavailable_modules",
                        "--ignore=tests/tests/_blocks/test_jack.py", f"--junitxml={d}.xml"], cwd=d, env=ENV, capture_output=True)
        passed = set()
        for c in ET.parse(f"{d}.xml").getroot().iter("testcase"):
            if not any(x.tag in ("failure", "error", "skipped") for x in c):
                passed.add(f"{c.get('classname')}::{c.get('name')}")
        missing = [x for x in STABLE - passed - IGNORE if "test_jack" not in x]
        out.append("tests missing: " + ", ".join(missing) if missing else f"tests pass ({len(STABLE & passed)} of {len(STABLE)})")
    finally:
        shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(f"{d}.xml"):
            os.remove(f"{d}.xml")
    return i, out


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, out in ex.map(run, ids):
            print(i, *("\n    " + o for o in out), flush=True)
