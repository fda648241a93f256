"""Known findings: genuine defects that are recorded, not repaired (see KNOWN_FINDINGS).

The generators never produce these inputs.  Each is replayed here exactly as it is recorded; a line is printed while it still
fails in the recorded way."""
import os, re, shutil, subprocess, tempfile
import spasm

# property, name, source, what shows that it fails
FINDINGS = [
    ("C25", "echo-file-name", '\t.echo >log.txt "x"\n', lambda d: os.path.exists(d + "/og.txt") and not os.path.exists(d + "/log.txt")),
    ("C25", "echo-file-forward", "\t.echo > log.txt fwd\n\tnop\nfwd:\n", lambda d: read(d, "log.txt") == b""),
    ("C03", "seek-back-deferred", "\t.dw fwd\n\t.seek 0\n\t.db 5,6\nfwd:\n", lambda d: read(d, "out.bin") == b"\2\0"),
    ("C14", "run-rest-of-line", '\twr("\tnop")\n\trun() \\ inc a\n', lambda d: re.search(rb"\n {14}3C", read(d, "out.lst")) is not None),
]


def read(d, n):
    try: return open(os.path.join(d, n), "rb").read()
    except OSError: return None


def texts():
    t = {}
    with open(os.path.join(spasm.VERIF, "KNOWN_FINDINGS")) as f:
        for ln in f:
            m = re.match(r"finding: property=(\w+) \[([\w-]+)\] (.*)", ln)
            if m: t[m.group(1), m.group(2)] = m.group(3)
    return t


def report(r):
    t = texts()
    for prop, name, src, fails in FINDINGS:
        if prop != r.prop or (prop, name) not in t: continue
        d = tempfile.mkdtemp(dir=spasm.tmproot())
        try:
            with open(d + "/in.asm", "w") as f: f.write(src)
            subprocess.run([r.exe, "-N", "-T", "in.asm", "out.bin"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=30)
            try: f = fails(d)
            except Exception: f = False
            if f:
                print("KNOWN-FINDING: property=%s [%s] %s" % (prop, name, t[prop, name]))
                r.notes.append("known finding: " + name)
        finally:
            shutil.rmtree(d, True)
