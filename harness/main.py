import sys, os, traceback, importlib
import vlib

def blames_code(exc):
    """whether an exception came out of the code under test"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame in traceback.extract_tb(exc.__traceback__):
            if "/src/dispersion/" in frame.filename or "/pkg copy/dispersion/" in frame.filename:
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def report(chk, exc):
    try:
        chk.violation("the code failed where it has to work: %r" % exc, {"traceback": "".join(traceback.format_exception(exc))})
    except vlib.TooMany:
        pass


def main():
    pid = sys.argv[1]
    chk = vlib.Check(pid)
    try:
        try:
            import dispersion, dispersion.material, dispersion.config
            import dispersion.scripts.setup_dispersion, dispersion.scripts.catalogue_rebuild
            assert os.path.realpath(dispersion.__file__).startswith("/repo/src/"), dispersion.__file__
        except AssertionError:
            raise
        except Exception as exc:
            chk.violation("the package cannot be imported: %r" % exc, {"traceback": traceback.format_exc()})
            return chk.finish()
        mod = importlib.import_module("check_" + pid.lower())
        try:
            mod.run(chk)
        except vlib.TooMany:
            pass
        return chk.finish()
    except vlib.MachineryError as exc:
        if blames_code(exc):
            report(chk, exc)
        if chk.violations:
            print("note: machinery stopped after violations: %s" % exc)
            return chk.finish()
        print("MACHINERY ERROR property=%s: %s" % (pid, exc))
        return 2
    except (Exception, vlib.Timeout) as exc:
        if blames_code(exc):
            report(chk, exc)
        if chk.violations:
            print("note: stopped after violations: %r" % exc)
            return chk.finish()
        traceback.print_exc()
        print("MACHINERY ERROR property=%s" % pid)
        return 2

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
