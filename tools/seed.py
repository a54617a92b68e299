"""Takes the compiled third-party dependencies over from one cargo target folder to another."""
import os, shutil, sys
src, dst = sys.argv[1:3]
can_link = True
def put(a, b):
    global can_link
    if os.path.lexists(b):
        return
    if can_link:
        try:
            os.link(a, b, follow_symlinks=False)
            return
        except OSError:
            can_link = False
    shutil.copy2(a, b, follow_symlinks=False)
def walk(a, b, keep):
    os.makedirs(b, exist_ok=True)
    for e in os.scandir(a):
        if e.is_dir(follow_symlinks=False):
            if keep(e.name, True):
                walk(e.path, os.path.join(b, e.name), lambda n, d: True)
        elif keep(e.name, False):
            put(e.path, os.path.join(b, e.name))
    shutil.copystat(a, b)
own = lambda n: "lightyear" in n or n.startswith("vh-")
lib = lambda n, d: not own(n) and (d or n.endswith((".rlib", ".rmeta", ".d", ".so")))
walk(src + "/deps", dst + "/deps", lib)
walk(src + "/.fingerprint", dst + "/.fingerprint", lambda n, d: not own(n))
walk(src + "/build", dst + "/build", lambda n, d: not own(n))
