"""development aid: run one check with line coverage of the code under test; usage: cov.py PID OUT
(appends file:line of each line executed inside functions or modules to OUT)"""
import os, sys, runpy
pid, out = sys.argv[1:3]
os.environ.update(PYTHONHASHSEED="1", PYTHONUTF8="1", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
if "COV_CHILD" not in os.environ:
    os.environ["COV_CHILD"] = "1"
    os.environ.setdefault("VERIF_SEED", "1")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), pid, out], os.environ)
fd = os.open(out, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
M = sys.monitoring
M.use_tool_id(3, "cov")


def line(code, n):
    f = code.co_filename
    if "/src/DLMS_SPODES/" in f:
        os.write(fd, f"{f.split('/src/DLMS_SPODES/')[1]}:{n}:{'m' if code.co_name == '<module>' else 'f'}\n".encode())
    return M.DISABLE


M.register_callback(3, M.events.LINE, line)
M.set_events(3, M.events.LINE)
R = "/verif/mc/run.py"
sys.argv = [R, pid]
sys.path.insert(0, "/verif/mc")
runpy.run_path(R, run_name="__main__")
