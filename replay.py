"""Shows a replay artefact and runs it again: replay.py PATH..."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mc import build, runner


def main():
    so = build.build_vm()
    for path in sys.argv[1:]:
        with open(path, encoding="utf-8") as f:
            d = json.load(f)
        print("=" * 70)
        print(d["property"], d.get("space"), "|", d.get("label"), "|", d["what"])
        for name, text in d.get("files", {}).items():
            print(f"--- {name}")
            if os.environ.get("TAIL"):
                text = "\n".join(text.split("\n")[-int(os.environ["TAIL"]):])
            print(text)
        print("--- expected:", json.dumps(d.get("expected"), ensure_ascii=False))
        print("--- got     :", json.dumps(d.get("got"), ensure_ascii=False))
        if d.get("job") or d.get("files"):
            job = d.get("job") or {"files": d["files"], "entry": d.get("entry", "main.ama")}
            if d.get("stdin") is not None:
                job["stdin"] = d["stdin"].encode("latin-1")
            w = runner.Worker(so)
            try:
                print("--- now     :", w.run(job)._replace(blob=None))
            finally:
                import shutil

                shutil.rmtree(w.dir, ignore_errors=True)


main()
