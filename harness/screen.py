"""The compiled specification as a quick judge: which recorded cases does TLC
have to look at?"""
import json
import os

import icuref
import spec2py

HERE = os.path.dirname(os.path.abspath(__file__))


class Screen:
    def __init__(self):
        self.m = spec2py.module()
        with open(os.path.join(os.path.dirname(HERE), "data", "schemes.json")) as f:
            self.m.set_registry([tuple(x) for x in json.load(f)["schemes"]])
        self.asked = {}

    def flagged(self, c):
        """True: a mismatch, or not decided here."""
        if c["crash"]:
            return True
        if c["k"] == "thr":
            return any([self.flagged(h) for h in c["hs"]])
        try:
            for _ in range(8):
                v = self.m.check(self.m.load(c))
                if not v["skip"]:
                    return bool(v["tags"])
                q = v["exp"]
                if not q["d"]:
                    return False
                k = (q["d"], q["strict"])
                if k not in self.asked:
                    if len(self.asked) > 20000:
                        self.asked.clear()
                    self.asked[k] = icuref.ask(list(q["d"]), q["strict"])
                if self.asked[k] in c["env"]:
                    return False
                c["env"].append(self.asked[k])
            return False
        except Exception:  # noqa  (TLC decides)
            return True
