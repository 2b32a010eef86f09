"""Nothing is installed; this verifies that the tools the checks need are there and every specification parses."""
import glob, os, subprocess, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for cmd in (["/opt/pypyvenv/bin/python", "-W", "ignore", "-c", "import nmigen"], ["yosys", "-V"], ["clang", "--version"],
            ["java", "-version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ps = [subprocess.run(["java", "-cp", JAR, "tla2sany.SANY"] + [os.path.basename(f) for f in sorted(glob.glob(os.path.join(R, "spec", "*.tla")))],
                     cwd=os.path.join(R, "spec"), capture_output=True, text=True)]
for p in ps:
    if p.returncode or "*** Errors" in p.stdout:
        print(p.stdout[-2000:])
        sys.exit(1)
os.makedirs(os.path.join(R, "evidence"), exist_ok=True)
print("ok")
