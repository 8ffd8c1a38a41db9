"""python check.py <property id> [--replay FILE]: decide one property on the working tree of /repo."""

import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "CUDA_VISIBLE_DEVICES": "", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "RAY_ADDRESS": "local", "RAY_USAGE_STATS_ENABLED": "0",
    "WANDB_MODE": "disabled", "MLFLOW_DISABLE_TELEMETRY": "true", "MLFLOW_DISABLE_AGENT_HINT": "1",
    "MLFLOW_ALLOW_FILE_STORE": "true", "PYTHONPATH": os.path.join(REPO, "src"), "HOME": "/root",
    "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "RAY_DEDUP_LOGS": "0",
}
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env["VERIF_CHILD"] = "1"
        os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.join(HERE, "harness"))
    import common

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0) % 1_000_000_007
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return common.replay(sys.argv[3])
    try:
        ctx = common.Ctx(prop, tier, seed)
        driver = importlib.import_module(f"drivers.{prop.lower()}")
        common.tell_torch()
        driver.run(ctx)
        code = ctx.finish()
    except common.MachineryError as ex:
        print(f"ERROR of the check: {ex}", file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    return code


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
