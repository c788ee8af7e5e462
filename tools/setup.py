"""Nothing to install: verifies that the tools the checks need are there."""
import shutil, sys
bad = [t for t in ("gcc", "clang", "go", "python3") if not shutil.which(t)]
print("missing: %s" % bad if bad else "ok")
sys.exit(1 if bad else 0)
