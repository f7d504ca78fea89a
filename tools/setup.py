"""Nothing to build ahead: every check compiles the server from /repo and runs TLC itself. Say what is missing, if anything."""
import os
import shutil
import sys

bad = [x for x in ("gcc", "g++", "make", "java", "python3") if not shutil.which(x)]
bad += [x for x in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(x)]
if bad:
    print("missing:", bad)
    sys.exit(1)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ready")
