"""Hashes of shipped simulations, run in a process of its own: python -m aptv.simhash '<json>'."""

import hashlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(case):
    from aptv import deps, harness

    sys.path.insert(0, harness.REPO)
    deps.ensure()
    import numpy as np

    result = {}
    with harness.quiet():
        from aptv import kit, shipped

        order = case["order"]
        built = {}
        for kind in order:
            built[kind] = shipped.build(kind, llh_name=f"llh_{kind}", data_names=case["data"][kind], name="c")
        for kind in order:
            key, out = built[kind].simulate(kit.key_of(case["key"]), shipped.batch(kind, case["batch"]), shipped.parameters(kind, built[kind]))
            h = hashlib.sha256()
            for x in [key] + list(out):
                x = np.ascontiguousarray(np.asarray(x))
                h.update(str(x.dtype).encode() + str(x.shape).encode() + x.tobytes())
            result[kind] = h.hexdigest()
    return result


if __name__ == "__main__":
    print(json.dumps(main(json.loads(sys.argv[1]))))
