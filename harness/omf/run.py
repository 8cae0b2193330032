from main import *
import importlib
for m in ("suites", "control", "known", "iface", "forms", "broken", "threads", "custom"):
    if os.path.exists(os.path.join(H, m + ".py")): extend(**importlib.import_module(m).SUITES)
main()
