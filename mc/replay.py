"""python -m mc.replay <file>: runs the job of a replay file again and prints what is wrong."""
import json
import sys


def main(path):
    from . import jobs

    d = json.load(open(path))
    if d["job"] is None:
        print("no job")
        return 2
    res = jobs.execute(d["job"])
    for code, msg, detail in res["bad"]:
        print(code, msg)
        print("   ", json.dumps(detail, default=str)[:3000])
    return 1 if res["bad"] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
