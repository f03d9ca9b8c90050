"""setup_cmd: warm the extension cache (best effort; checks rebuild what they need)."""
import sys
from pathlib import Path
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / "lib"))
import irsload
try:
    irsload.build_extensions()
    irsload.build_extensions(sched=True)
    print("extensions built")
except irsload.BuildError as e:
    print("extension build failed (checks will report)", str(e)[:500])
