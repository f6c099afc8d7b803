"""setup_cmd: check that the toolchain and the specification are usable"""
import subprocess, sys
from pathlib import Path
spec = Path(__file__).resolve().parent.parent / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for f in sorted(spec.glob("*.tla")):
    r = subprocess.run(["java", "-cp", CP, f"-DTLA-Library={spec}", "tla2sany.SANY", str(f)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=spec)
    out = r.stdout.decode()
    if r.returncode or "Error" in out or "Could not" in out:
        bad += 1
        print(f, out[-2000:])
sys.exit(1 if bad else 0)
