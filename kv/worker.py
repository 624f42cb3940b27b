"""Concrete job runner (one subprocess per job; reads a JSON job on stdin)."""
import sys, json, os, resource, faulthandler
sys.dont_write_bytecode = True


def main():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    job = json.load(sys.stdin)
    real = os.dup(1)
    os.dup2(2, 1)                 # the code under test may print
    from . import concrete as C, checks
    C.setup()
    out = checks.run_job(job)
    with os.fdopen(real, 'w') as f:
        json.dump(out, f)


main()
