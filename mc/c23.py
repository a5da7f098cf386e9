"""C23: all sequences of CLIC2020 image downloads, with every network fault and a crash at every file-system operation."""
import io
import itertools
import os
import sys
import zipfile
from pathlib import Path
import numpy as np
from PIL import Image
from . import core, faults, fsenv

faults.install_hashes()
PID = "C23"
ASSUMPTIONS = ["archives are scripted (same layout as the published ones); the published md5 is reported for exactly their content",
               "a crash ends the process without cleanup; completed writes survive it, a file just opened for writing is empty"]
SPLITS = {
    "train": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_train_2020.zip", "a6845cac88c3dd882246575f7a2fc5f9", "train/", "train.zip"),
    "val": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_valid_2020.zip", "7111ee240435911db04dbc5f40d50272", "valid/", "val.zip"),
    "test": ("https://storage.googleapis.com/clic2021_public/professional_test_2021.zip", "4476b708ea4c492505dd70061bebe202", "", "test.zip"),
}
IDS = {"train": [0, 1, 2], "val": [10, 11], "test": [20, 21, 22]}
NAMES = ["a.png", "b.png", "c.png"]


def png(i):
    b = io.BytesIO()
    Image.fromarray(np.full((2, 3 + i, 3), i, dtype=np.uint8), "RGB").save(b, "PNG")
    return b.getvalue()


def archive(s):
    url, md5, pre, _ = SPLITS[s]
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        def add(n, data):
            z.writestr(zipfile.ZipInfo(n, (2020, 1, 1, 0, 0, 0)), data)
        if pre:
            add(pre, "")
        for n, i in zip(NAMES, IDS[s]):
            add(pre + n, png(i))
        add("__MACOSX/", "")
        if pre:
            add("__MACOSX/" + pre, "")
        add("__MACOSX/" + pre + "._a.png", b"resource fork")
        add("__MACOSX/._x", b"x")
    return b.getvalue()


ZIPS = {s: archive(s) for s in SPLITS}
CONTENT = {SPLITS[s][0]: ZIPS[s] for s in SPLITS}
for _s in SPLITS:
    faults.alias("md5", ZIPS[_s], SPLITS[_s][1])


def bounds(tier):
    return "all sequences of <= %d downloads over 3 splits; from every initial state (none, same split, other splits, archive only, interrupted move) every network fault at every request and a crash before/after every file-system operation of each split's download, then every continuation (retry, other split then retry%s)" % (4 if tier == "quick" else 6, "" if tier == "quick" else ", second crash at every operation")


def cases(tier):
    for s in SPLITS:
        yield {"kind": "seq", "first": s, "n": 4 if tier == "quick" else 6}
        for prior in PRIOR:
            for after in (False, True):
                yield {"kind": "crash", "split": s, "prior": prior, "after": after, "second": tier != "quick"}
            yield {"kind": "net", "split": s, "prior": prior}
    yield {"kind": "opening"}


PRIOR = ["none", "same", "others", "all", "zip", "badzip"]


def ids(ds):
    return [v.size[0] - 3 for v in (ds[i] for i in range(len(ds)))]


def download(t, name, root, s, server):
    from neuralcompression.data import CLIC2020Image
    t.step()
    with server:
        return CLIC2020Image(root, split=s, download=True)


def complete(t, name, root, s, ds=None):
    from neuralcompression.data import CLIC2020Image
    for what, d in (("returned", ds), ("reopened", None)):
        if what == "returned" and ds is None:
            continue
        ok, d = (True, ds) if d is not None else t.attempt(f"{name}: opening {s}", CLIC2020Image, root, s)
        if not ok:
            return
        ok, got = t.attempt(f"{name}: reading {s}", ids, d)
        t.check(ok and sorted(got) == IDS[s], f"{name}: {what} {s} split has images {got}, expected {IDS[s]}")
        if ok:
            for v, i in zip((d[j] for j in range(len(d))), got):
                t.check(bool((np.asarray(v) == i).all()), f"{name}: {s} image {i} has wrong content")


def tree(root, s):
    base = Path(root) / "clic2020" / s
    return {str(p.relative_to(base)): p.read_bytes() for p in base.rglob("*") if p.is_file()} if base.exists() else None


def prepare(t, root, s, prior):
    done = set()
    todo = {"none": [], "same": [s], "others": [o for o in SPLITS if o != s], "all": list(SPLITS), "zip": [], "badzip": []}[prior]
    for o in todo:
        download(t, "prepare", root, o, faults.Server(CONTENT))
        done.add(o)
    if prior in ("zip", "badzip"):
        p = Path(root) / "clic2020"
        p.mkdir()
        (p / SPLITS[s][3]).write_bytes(ZIPS[s] if prior == "zip" else ZIPS[s][:100])
    return done


def finish(t, name, root, s, done, order):
    """Downloads with a working source; everything requested must be complete."""
    others = {o: tree(root, o) for o in done if o != s}
    for o in order:
        ok, ds = t.attempt(f"{name}: downloading {o} with a working source", download, t, name, root, o, faults.Server(CONTENT))
        if not ok:
            return
        done = done | {o}
        complete(t, name, root, o, ds)
        for q, tr in others.items():
            if q not in order:
                t.check(tree(root, q) == tr, f"{name}: downloading {o} changed the {q} split")
    for o in done:
        complete(t, name, root, o)
    t.trace()


def run_case(t, case):
    k = case["kind"]
    if k == "seq":
        for n in range(0, case["n"]):
            for rest in itertools.product(SPLITS, repeat=n):
                seq = (case["first"],) + rest
                with fsenv.scratch() as root:
                    done = set()
                    for j, s in enumerate(seq):
                        name = f"download {seq[:j+1]}"
                        server = faults.Server(CONTENT)
                        before = {o: tree(root, o) for o in SPLITS if o != s}
                        ok, ds = t.attempt(name, download, t, name, root, s, server)
                        t.state(seq[:j + 1])
                        if not ok:
                            break
                        t.check(bool(server.log) == (s not in done), f"{name}: {len(server.log)} requests although {'already' if s in done else 'not yet'} downloaded")
                        t.check(all(u == SPLITS[s][0] for u in server.log), f"{name}: fetched {server.log}")
                        t.check(before == {o: tree(root, o) for o in SPLITS if o != s}, f"{name}: other splits changed")
                        done.add(s)
                        complete(t, name, root, s, ds)
                    for o in done:
                        complete(t, f"after {seq}", root, o)
                    t.trace()
    elif k == "crash":
        s = case["split"]
        conts = [[s]] + [[o, s] for o in SPLITS if o != s]
        for cont in conts:
            n = 0
            while True:
                with fsenv.scratch() as root:
                    done = prepare(t, root, s, case["prior"])
                    name = f"{s} from '{case['prior']}' crash {'after' if case['after'] else 'before'} operation {n}, then {cont}"
                    others = {o: tree(root, o) for o in SPLITS if o != s}
                    st, info = faults.in_child(lambda: download(t, name, root, s, faults.Server(CONTENT)) and None, root, n, case["after"])
                    t.step()
                    t.state(s, case["prior"], case["after"], n, tuple(cont), st)
                    t.outcome(st)
                    t.check(st in ("ok", "crash"), f"{name}: {st} {info}")
                    t.check(others == {o: tree(root, o) for o in SPLITS if o != s}, f"{name}: the interrupted download changed another split")
                    if case["second"] and st == "crash" and len(cont) == 1:
                        second(t, case, s, n)
                    finish(t, name, root, s, done - {s}, cont)
                    if st != "crash":
                        t.check(n >= 5, f"{name}: only {n} operations seen")
                        break
                n += 1
                if n > 300:
                    t.fail(f"{name}: no end")
                    break
    elif k == "net":
        s = case["split"]
        for req in range(0, 3):
            for f in faults.ERRORS + faults.CRASHES:
                for cont in [[s]] + [[o, s] for o in SPLITS if o != s]:
                    with fsenv.scratch() as root:
                        done = prepare(t, root, s, case["prior"])
                        name = f"{s} from '{case['prior']}' network fault {f} at request {req}, then {cont}"
                        others = {o: tree(root, o) for o in SPLITS if o != s}
                        server = faults.Server(CONTENT, {req: f})
                        if f in faults.CRASHES:
                            st, info = faults.in_child(lambda: download(t, name, root, s, server) and None)
                        else:
                            try:
                                ds = download(t, name, root, s, server)
                                st = "ok"
                                complete(t, name, root, s, ds)
                            except Exception as e:
                                st = "error"
                        t.state(s, case["prior"], req, f, st)
                        t.outcome(f, st)
                        t.check(others == {o: tree(root, o) for o in SPLITS if o != s}, f"{name}: the failed download changed another split")
                        finish(t, name, root, s, done - {s}, cont)
    else:
        opening(t)
    t.sample(case)


def second(t, case, s, n1):
    m = 0
    while True:
        with fsenv.scratch() as root:
            done = prepare(t, root, s, case["prior"])
            go = lambda: download(t, "", root, s, faults.Server(CONTENT)) and None
            faults.in_child(go, root, n1, case["after"])
            st, info = faults.in_child(go, root, m, case["after"])
            name = f"{s} from '{case['prior']}' crashes at {n1} and {m}"
            t.state(s, case["prior"], case["after"], n1, m)
            t.check(st in ("ok", "crash"), f"{name}: {st} {info}")
            finish(t, name, root, s, done - {s}, [s])
            if st != "crash":
                return
        m += 1
        if m > 300:
            t.fail("no end")
            return


def opening(t):
    """Without download: exactly the requested split, nothing fetched or created."""
    from neuralcompression.data import CLIC2020Image
    for r, junk in itertools.product(range(0, 4), itertools.product((0, 1), repeat=3)):
        for have in itertools.combinations(SPLITS, r):
            with fsenv.scratch() as root:
                for s in have:
                    base = Path(root) / "clic2020" / s
                    base.mkdir(parents=True)
                    for n, i in zip(NAMES, IDS[s]):
                        (base / n).write_bytes(png(i))
                # what interrupted downloads can leave behind
                top = Path(root) / "clic2020"
                top.mkdir(exist_ok=True)
                left = []
                if junk[0]:
                    left += [top / s / "__MACOSX" / "._a.png" for s in have] + [top / s / "__MACOSX" / s / "._a.png" for s in have] + [top / "__MACOSX" / "train" / "._a.png"]
                if junk[1]:
                    left += [top / SPLITS[s][3] for s in SPLITS]
                if junk[2]:
                    left += [top / "valid" / "z.png", top / "z.png", Path(root) / "z.png"]
                for p in left:
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_bytes(b"resource fork" if p.name.startswith("._") else png(40))
                for s in SPLITS:
                    server = faults.Server(CONTENT)
                    before = sorted(str(p) for p in Path(root).rglob("*"))
                    with server:
                        ok, ds = t.attempt(f"opening {s} with {have}", CLIC2020Image, root, s)
                    t.state(have, junk, s)
                    t.check(ok and sorted(ids(ds)) == (IDS[s] if s in have else []), f"opening {s} with {have} and leftovers {junk} present")
                    t.check(not server.log and sorted(str(p) for p in Path(root).rglob("*")) == before, f"opening {s} fetched or created something")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
