"""Runs the generator's Python 2 tools under Jython, one request per line: a slow JVM start is paid once.

Each run is one execution of a tool's main() with its own arguments, working directory, input and output files."""
import json
import logging
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
requests, replies = sys.stdin, sys.stdout
real_err = sys.stderr

import domainGenerator
import PFWScriptGenerator

while True:
    line = requests.readline()
    if not line:
        break
    q = json.loads(line)
    tool = {"domain": domainGenerator, "script": PFWScriptGenerator}[q["tool"]]
    logging.root.handlers = []
    sys.argv = [str(tool.__file__)] + [a.encode("utf-8") for a in q["args"]]
    out, err, inp = open(q["out"], "wb"), open(q["err"], "wb"), open(q["in"] or os.devnull, "r")
    sys.stdin, sys.stdout, sys.stderr = inp, out, err
    try:
        try:
            code = tool.main()
            code = 0 if code is None else code
        except SystemExit, e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except:
            traceback.print_exc(file=err)
            code = 1
    finally:
        for h in logging.root.handlers:
            h.flush()
        for f in (out, err, inp):
            f.close()
        sys.stdin, sys.stdout, sys.stderr = requests, replies, real_err
    replies.write("%d\n" % code)
    replies.flush()
