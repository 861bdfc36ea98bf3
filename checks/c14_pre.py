"""Builds the AddressSanitizer variants of the native extensions from the current sources."""
import atexit, os, shutil, subprocess, tempfile


def prepare(argv):
    from vlib import boot

    d = tempfile.mkdtemp(prefix="smtverif-asan-")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(d, ignore_errors=True))
    for lib in boot.LIBS:
        boot.build(lib, d, flags=("-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"))
    os.environ["SMTVERIF_ASANDIR"] = d
    os.environ["SMTVERIF_ASANLIB"] = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
    return None
