import importlib
import os
import sys
import traceback
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

sys.path.insert(0, vlib.REPO)
warnings.filterwarnings("ignore")
os.environ["TQDM_DISABLE"] = "1"

FAMILY = {}
for m, ids in {"c_ewma": "C01 C02 C03 C04 C05 C06", "c_combine": "C08 C09 C10 C11 C12 C17 C18", "c_relate": "C07 C13 C14 C15 C16", "c_reg": "C19 C20 C21", "c_trader": "C22 C23 C24 C25",
              "c_score": "C26 C27 C28", "c_vec": "C29 C31", "c_ret": "C30", "c_prec": "C32", "c_metric": "C33 C34 C36", "c_factor": "C35", "c_tool": "C37 C38"}.items():
    for i in ids.split():
        FAMILY[i] = m


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = vlib.Check(prop, tier, seed)
    try:
        importlib.import_module(FAMILY[prop]).check(ck)
        rc = ck.finish()
    except Exception:
        traceback.print_exc()
        print("ERROR: the check itself failed")
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
