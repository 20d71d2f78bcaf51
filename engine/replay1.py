"""replay1.py FILE: reproduce one reported violation on the real code"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
if __name__ == "__main__":
    j = json.load(open(sys.argv[1]))
    import gsply
    from engine.replay import run_job
    r = run_job(j["job"], gsply)
    print(json.dumps({k: r[k] for k in r if k != "observed"}, indent=1))
    sys.exit(1 if r["failed"] or r["status"] != "ok" else 0)
