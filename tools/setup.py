"""Checks that the tools the checks need are there, and that every specification parses."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for f in JARS.split(":") + ["/opt/venv/bin/python"]:
    if not os.path.exists(f):
        sys.exit(f"missing: {f}")
d = tempfile.mkdtemp(prefix="vfsetup.", dir="/tmp")
try:
    for f in glob.glob(os.path.join(HERE, "specs", "*.tla")):
        shutil.copy(f, d)
    mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, "*.tla")))
    p = subprocess.run(["java", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tla2sany.SANY"] + mods, cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    bad = [x for x in p.stdout.splitlines() if "error" in x.lower() and "no error" not in x.lower()]
    if p.returncode != 0 or bad:
        print(p.stdout[-3000:])
        sys.exit("a specification does not parse")
    print(f"{len(mods)} modules parsed")
finally:
    shutil.rmtree(d, ignore_errors=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
