"""One of the processes of a check: its share of the cases of every component."""
import hashlib
import json
import sys
import time


def main():
    job = json.loads(sys.argv[1])
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    import logging
    logging.disable(logging.CRITICAL)
    from vf import core
    comps = core.load_property(job["prop"])
    ctx = core.Ctx(job["scratch"])
    t_end = time.monotonic() + job["budget"]
    out = {}
    for name in sorted(comps):
        if job["only"] and name not in job["only"]:
            continue
        comp = comps[name]
        total = comp.quick if job["tier"] == "quick" else comp.thorough
        total = int(round(total * job["scale"]))
        share = total // job["shards"] + (1 if job["shard"] < total % job["shards"] else 0)
        if share == 0 and job["shard"] != 0:
            continue
        seed = int(hashlib.sha256(
            ("%s/%s/%s/%s/%s" % (job["seed"], job["prop"], name, job["shard"], job["tier"])).encode()
        ).hexdigest()[:15], 16)
        res = core.explore(comp, share, seed, ctx, set(job["known"].get(name, [])), t_end,
                           job["shrink"], with_examples=job["shard"] == 0)
        out[name] = dict(res.as_dict(), rule=comp.rule)
        if res.failure:
            break
    with open(job["out"], "w") as f:
        json.dump(out, f)


if __name__ == "__main__":
    main()
