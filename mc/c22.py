"""C22: every fault and crash point of the Kodak download, followed by every kind of retry."""
import io
import os
import sys
from pathlib import Path
import numpy as np
from PIL import Image
from . import core, faults, fsenv

faults.install_hashes()
PID = "C22"
ASSUMPTIONS = ["the images are scripted; the published sha1 is reported for exactly their content (the real images are not available offline)",
               "a crash ends the process without cleanup; completed writes survive it",
               "corruptions that move bytes across a file boundary without changing the concatenation are out of scope"]
URL = "http://r0k.us/graphics/kodak/kodak/"
SHA = "076e2a5fd4515b5fda677f15fe63dd112d266bc5"
PRIOR = ["absent", "empty", "valid", "stale", "partial", "long"]
N = 24


def png(i, colour=None):
    b = io.BytesIO()
    a = np.full((2, 2 + i, 3), 5 * i if colour is None else colour, dtype=np.uint8)
    Image.fromarray(a, "RGB").save(b, "PNG")
    return b.getvalue()


BODY = [png(i) for i in range(1, N + 1)]
CONTENT = {f"{URL}kodim{i:02}.png": BODY[i - 1] for i in range(1, N + 1)}
faults.alias("sha1", b"".join(BODY), SHA)


def bounds(tier):
    return ("6 initial directories x forced or not x (every image 1..24 x %d faults, and a crash before every file-system operation), each followed by a probe and by a retry; %s two-fault histories; final retries must succeed"
            % (len(faults.ERRORS + faults.CRASHES), "all pairs on images {1,2,13,24} for" if tier == "quick" else "all pairs on images {1,2,3,7,13,20,23,24} for"))


def cases(tier):
    for prior in PRIOR:
        for kind in faults.ERRORS + faults.CRASHES:
            yield {"kind": "single", "prior": prior, "fault": kind}
        yield {"kind": "fs", "prior": prior}
        yield {"kind": "noforce", "prior": prior}
    imgs = [1, 2, 13, 24] if tier == "quick" else [1, 2, 3, 7, 13, 20, 23, 24]
    for f1 in faults.ERRORS + faults.CRASHES:
        yield {"kind": "pairs", "f1": f1, "imgs": imgs}
    yield {"kind": "options"}


def prepare(root, prior):
    if prior == "absent":
        return
    root.mkdir()
    if prior == "empty":
        return
    for i in range(1, N + 1):
        p = root / f"kodim{i:02}.png"
        if prior == "valid":
            p.write_bytes(BODY[i - 1])
        elif prior == "stale":
            p.write_bytes(png(i, 250))
        elif prior == "partial" and i <= 11:
            p.write_bytes(BODY[i - 1] if i < 11 else BODY[i - 1][:20])
        elif prior == "long":
            p.write_bytes(BODY[i - 1] + b"x" * 300)
    if prior != "valid":
        (root / "notes.txt").write_text("mine")


def snapshot(root):
    return {p.name: p.read_bytes() for p in sorted(root.iterdir())} if root.exists() else None


def is_good(ds, root):
    """The dataset hands out exactly the published images."""
    if len(ds) != N:
        return f"{len(ds)} items"
    for i in range(N):
        if (root / f"kodim{i+1:02}.png").read_bytes() != BODY[i]:
            return f"file {i+1} has unverified content"
        a = np.asarray(ds[i])
        if a.shape != (2, 3 + i, 3) or not (a == 5 * (i + 1)).all():
            return f"item {i} is not image {i+1}"
    return None


def attempt(t, name, root, server, force, crash=False, crash_at=None):
    """One construction with download=True. Returns 'ok' | 'error' | 'crash'."""
    from neuralcompression.data import Kodak

    def go():
        with server:
            ds = Kodak(root, download=True, force_download=force)
            bad = is_good(ds, root)
            return (bad, len(server.log))
    t.step()
    if crash or crash_at is not None:
        st, info = faults.in_child(go, root, crash_at)
        if st == "ok":
            bad, n = eval(info)
            t.check(bad is None, f"{name}: download succeeded but {bad}")
            server.log[:] = [None] * n
        return st
    try:
        bad, _ = go()
    except Exception as e:
        return "error"
    t.check(bad is None, f"{name}: download succeeded but {bad}")
    return "ok"


def probe(t, name, root):
    """Opening whatever is there: either refused or exactly the verified files."""
    from neuralcompression.data import Kodak
    t.step()
    try:
        ds = Kodak(root)
    except Exception:
        return False
    bad = is_good(ds, root)
    t.check(bad is None, f"{name}: opening hands out unverified data: {bad}")
    return True


def final(t, name, root):
    s = faults.Server(CONTENT)
    st = attempt(t, name, root, s, True)
    t.check(st == "ok", f"{name}: a forced retry with a working source does not succeed")
    t.check(sorted(set(s.log)) == sorted(CONTENT), f"{name}: the forced retry fetched only {len(set(s.log))} of the files")
    t.check(probe(t, name, root), f"{name}: cannot be opened after a successful retry")
    t.trace()


def run_case(t, case):
    k = case["kind"]
    if k == "single":
        f = case["fault"]
        for img in range(1, N + 1):
            with fsenv.scratch() as d:
                root = Path(d) / "kodak"
                prepare(root, case["prior"])
                name = f"kodak prior={case['prior']} fault={f}@{img}"
                s = faults.Server(CONTENT, {f"{URL}kodim{img:02}.png": f})
                st = attempt(t, name, root, s, True, crash=f in faults.CRASHES)
                t.check(st != "ok", f"{name}: the faulty download was accepted")
                t.outcome(st)
                t.state(case["prior"], f, img, st)
                if case["prior"] not in ("absent", "empty", "valid"):
                    t.check((root / "notes.txt").exists(), f"{name}: an unrelated file was removed")
                probe(t, name, root)
                # retry without force is refused while the directory exists
                before = snapshot(root)
                s2 = faults.Server(CONTENT)
                st2 = attempt(t, name + " unforced retry", root, s2, False)
                if before is not None:
                    t.check(st2 == "error" and snapshot(root) == before and not s2.log, f"{name}: an unforced retry touched an existing directory ({st2}, {len(s2.log)} requests)")
                else:
                    t.check(st2 == "ok", f"{name}: a retry into a missing directory failed")
                final(t, name, root)
    elif k == "fs":
        n = 0
        while True:
            with fsenv.scratch() as d:
                root = Path(d) / "kodak"
                prepare(root, case["prior"])
                name = f"kodak prior={case['prior']} crash before file operation {n}"
                st = attempt(t, name, root, faults.Server(CONTENT), True, crash_at=n)
                t.state(case["prior"], "fs", n, st)
                if st == "ok":
                    t.check(n >= N, f"{name}: only {n} file operations seen")
                    break
                t.check(st == "crash", f"{name}: {st}")
                probe(t, name, root)
                final(t, name, root)
            n += 1
            if n > 400:
                t.fail("unbounded number of file operations")
                break
    elif k == "noforce":
        with fsenv.scratch() as d:
            root = Path(d) / "kodak"
            prepare(root, case["prior"])
            before = snapshot(root)
            s = faults.Server(CONTENT)
            st = attempt(t, "kodak unforced", root, s, False)
            name = f"kodak prior={case['prior']} unforced download"
            t.state(case["prior"], "noforce", st)
            if case["prior"] == "absent":
                t.check(st == "ok" and len(set(s.log)) == N, f"{name}: {st}, {len(s.log)} requests")
            else:
                t.check(st == "error" and snapshot(root) == before and not s.log, f"{name}: touched an existing directory")
            opened = probe(t, name, root)
            t.check(opened == (case["prior"] in ("absent", "valid")), f"{name}: opened={opened}")
            final(t, name, root)
    elif k == "pairs":
        f1 = case["f1"]
        for i1 in case["imgs"]:
            for f2 in faults.ERRORS + faults.CRASHES:
                for i2 in case["imgs"]:
                    with fsenv.scratch() as d:
                        root = Path(d) / "kodak"
                        name = f"kodak {f1}@{i1} then {f2}@{i2}"
                        st1 = attempt(t, name, root, faults.Server(CONTENT, {f"{URL}kodim{i1:02}.png": f1}), False, crash=f1 in faults.CRASHES)
                        probe(t, name, root)
                        st2 = attempt(t, name, root, faults.Server(CONTENT, {f"{URL}kodim{i2:02}.png": f2}), True, crash=f2 in faults.CRASHES)
                        t.check(st1 != "ok" and st2 != "ok", f"{name}: a faulty download was accepted")
                        t.state(f1, i1, f2, i2)
                        probe(t, name, root)
                        final(t, name, root)
    else:
        options(t)
    t.sample(case)


def options(t):
    from neuralcompression.data import Kodak
    with fsenv.scratch() as d:
        # another source
        alt = {u.replace(URL, "http://mirror/k/"): b for u, b in CONTENT.items()}
        s = faults.Server(alt)
        with s:
            ok, ds = t.attempt("kodak_url", Kodak, Path(d) / "m", download=True, kodak_url="http://mirror/k/")
        t.check(ok and is_good(ds, Path(d) / "m") is None and len(s.log) == N, "kodak_url is not used")
        # corrupted content is refused with the check and accepted without it
        for img in range(1, N + 1):
            for f in ("short", "flip", "html", "empty", "extra"):
                root = Path(d) / f"c{img}{f}"
                s = faults.Server(CONTENT, {f"{URL}kodim{img:02}.png": f})
                with s:
                    ok, _ = t.attempt(f"unchecked download {f}@{img}", Kodak, str(root), check_hash=False, download=True)
                t.state("unchecked", img, f)
                t.must_raise(f"opening corrupted image {img} ({f})", Exception, Kodak, root)
                t.must_raise(f"opening corrupted image {img} ({f})", RuntimeError, Kodak, root, check_hash=True)
                (root / f"kodim{img:02}.png").unlink()
                t.must_raise(f"opening with image {img} missing", Exception, Kodak, root)
        # no download: nothing is fetched and nothing is created
        s = faults.Server(CONTENT)
        with s:
            t.must_raise("missing directory", FileNotFoundError, Kodak, Path(d) / "nope")
            t.must_raise("missing directory", FileNotFoundError, Kodak, Path(d) / "nope", force_download=True)
        t.check(not s.log and not (Path(d) / "nope").exists(), "opening without download fetched or created something")


if __name__ == "__main__":
    core.main(sys.modules[__name__])
