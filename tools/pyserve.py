"""Answers calls to the Python module, one JSON line per request.

pyserve.py MODULE.so
  {"call": name, "args": [value...], "kwargs": {name: value}}
A value is {"str": text}, {"bytes"|"bytearray"|"memoryview"|"list"|"tuple": hex},
{"int": n}, {"bool": b}, {"none": null}.
Answer: {"ok": JSON of the result} or {"raise": type, "module_error": bool, "value_error": bool, "text": message}.
"""
import importlib.util
import json
import sys

spec = importlib.util.spec_from_file_location("pymbusparser", sys.argv[1])
module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(module)

KINDS = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview, "list": list, "tuple": tuple}


def value(v):
    (kind, x), = v.items()
    return KINDS[kind](bytes.fromhex(x)) if kind in KINDS else x


sys.stdin.reconfigure(encoding="utf-8")
sys.stdout.reconfigure(encoding="utf-8")
while True:
    line = sys.stdin.readline()
    if not line:
        break
    q = json.loads(line)
    try:
        r = getattr(module, q["call"])(*[value(v) for v in q["args"]], **{k: value(v) for k, v in q["kwargs"].items()})
        answer = {"ok": r}
    except BaseException as e:
        answer = {"raise": type(e).__name__, "module_error": isinstance(e, module.MbusParserError),
                  "value_error": isinstance(e, ValueError), "text": str(e)}
    print(json.dumps(answer), flush=True)
