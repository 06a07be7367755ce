"""A process that does the work of cases given on its standard input (one JSON
line each) and answers with the texts of vlib.digest."""
import json
import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if os.environ.get("VERIF_NONUMBA"):
    sys.modules["numba"] = None
    sys.modules["numba.types"] = None


def main():
    from vlib import boot, digest, runner
    chan = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    boot.load()
    for line in sys.stdin:
        req = json.loads(line)
        try:
            with runner.quiet():
                kw = req.get("kw") or {}
                out = {}
                for c in req.get("before", []):
                    try:
                        digest.work(c)
                    except Exception:
                        pass
                with warnings.catch_warnings(record=True) as seen:
                    warnings.simplefilter("always", RuntimeWarning)
                    out = digest.short(digest.work(req["case"], **kw))
            ans = {"out": out, "overflows": [
                f"{w.message} at {w.filename}:{w.lineno}" for w in seen
                if "overflow" in str(w.message)
                and os.sep + "inflation" + os.sep in w.filename][:3]}
        except runner.Skip as e:
            ans = {"skip": str(e)}
        except MemoryError:
            ans = {"skip": "memory"}
        except Exception as e:
            lib = runner.library_frames(e.__traceback__)
            ans = {"error": type(e).__name__, "message": str(e)[:300],
                   "where": lib[-1].name if lib else None}
        chan.write(json.dumps(ans) + "\n")
        chan.flush()


if __name__ == "__main__":
    main()
