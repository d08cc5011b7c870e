"""Lemmas about real numbers that the contracts and the rules of pyvc use (/verif/lemmas),
checked by Lean. They do not depend on /repo: a lemma that is not accepted is reported in the
evidence as an assumption, and is no violation."""
import os
import re
import shutil
import subprocess

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas")


def start(files):
    """Lean on each file, in processes of their own"""
    exe = shutil.which("lean")
    if not exe:
        return None
    return [(f, subprocess.Popen([exe, os.path.join(DIR, f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for f in files]


def finish(jobs, files, timeout=240):
    out = []
    for f in files:
        text = open(os.path.join(DIR, f)).read()
        names = re.findall(r"^theorem (\S+)", text, re.M)
        ok = False
        for g, p in jobs or ():
            if g == f:
                try:
                    msg = p.communicate(timeout=timeout)[0]
                except subprocess.TimeoutExpired:
                    p.kill()
                    msg = "timeout"
                ok = p.returncode == 0 and "sorry" not in msg and "error" not in msg
        out.append({"file": "lemmas/" + f, "theorems": names, "accepted": ok})
    return out
