"""
Runs on the project's interpreter. Imports the package under test from the
repository's working tree and executes the programs received on the standard
input, one JSON document per line; answers on the standard output.

A program is {"steps": [...], "fork": bool}. Every step yields {"ok": value},
{"exc": {...}} or {"skip": true} (it refers to something that was not built).
"""
import copy
import csv
import gc
import importlib
import io
import json
import logging
import os
import pickle
import signal
import sys
import threading

_out = os.fdopen(os.dup(1), "w")
_null = os.open(os.devnull, os.O_WRONLY)
os.dup2(_null, 1)
sys.stdout = io.StringIO()

import warnings

warnings.simplefilter("ignore")

import numpy as np

import qctrlopencontrols as q
from qctrlopencontrols import exceptions as q_exceptions

_here = os.path.realpath(q.__file__)
_expected = os.path.realpath(os.environ["VERIF_REPO"])
if not _here.startswith(_expected + os.sep):
    sys.stderr.write("imported the package from %s, not from %s\n" % (_here, _expected))
    sys.exit(3)

ARRAYS = {
    "DrivenControl": ["durations", "rabi_rates", "azimuthal_angles", "detunings"],
    "DynamicDecouplingSequence": [
        "duration",
        "offsets",
        "rabi_rotations",
        "azimuthal_angles",
        "detuning_rotations",
    ],
}


class Missing(Exception):
    pass


def decode(value, env):
    if isinstance(value, list):
        return [decode(v, env) for v in value]
    if isinstance(value, dict):
        if "$ref" in value:
            if value["$ref"] not in env:
                raise Missing()
            return env[value["$ref"]]
        if "$arr" in value:
            return np.array(value["$arr"], dtype=value.get("dtype", "float64"))
        if "$strided" in value:
            data = value["$strided"]
            buffer = np.full(2 * len(data) + 1, -12345.0)
            buffer[1::2] = data
            return buffer[1::2]
        if "$readonly" in value:
            array = np.array(value["$readonly"], dtype="float64")
            array.setflags(write=False)
            return array
        if "$thing" in value:
            thing = type(str(value["$thing"]), (), {})()
            for key, item in value["attributes"]:
                setattr(thing, key, decode(item, env))
            return thing
        if "$dict" in value:
            return {decode(k, env): decode(v, env) for k, v in value["$dict"]}
        if "$tuple" in value:
            return tuple(decode(v, env) for v in value["$tuple"])
        if "$np" in value:
            return getattr(np, value["$np"][0])(value["$np"][1])
        raise ValueError("unknown value %r" % (value,))
    return value


def number(value):
    return [float(value.real), float(value.imag)] if isinstance(value, complex) else value


def encode(value):
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, np.bool_):
        return bool(value)
    if isinstance(value, (int, float)) and not isinstance(value, np.generic):
        return value
    if isinstance(value, np.integer):
        return int(value)
    if isinstance(value, np.floating):
        return float(value)
    if isinstance(value, (complex, np.complexfloating)):
        return {"c": [float(value.real), float(value.imag)]}
    if isinstance(value, np.ndarray):
        flat = value.ravel().tolist()
        kind = value.dtype.kind
        if kind == "c":
            flat = [[v.real, v.imag] for v in flat]
        elif kind not in "fiub":
            flat = [encode(v) for v in flat]
        return {"a": flat, "shape": list(value.shape), "dtype": str(value.dtype)}
    if isinstance(value, list):
        return [encode(v) for v in value]
    if isinstance(value, tuple):
        return {"t": [encode(v) for v in value]}
    if isinstance(value, dict):
        return {"d": [[encode(k), encode(v)] for k, v in value.items()]}
    kind = type(value).__name__
    if isinstance(value, (q.DrivenControl, q.DynamicDecouplingSequence)):
        kind = (
            "DrivenControl"
            if isinstance(value, q.DrivenControl)
            else "DynamicDecouplingSequence"
        )
        fields = {name: encode(getattr(value, name)) for name in ARRAYS[kind]}
        fields["name"] = encode(value.name)
        return {"obj": kind, "fields": fields}
    return {"other": kind, "repr": repr(value)[:200]}


def encode_exception(error):
    result = {
        "type": type(error).__name__,
        "argument_error": isinstance(error, q_exceptions.ArgumentsValueError),
        "package_error": isinstance(error, q_exceptions.QctrlError),
        "str": str(error)[:100000],
    }
    if result["argument_error"]:
        for name in ("description", "message"):
            result[name] = encode(getattr(error, name, None))
        for name in ("arguments", "extras"):
            table = getattr(error, name, None)
            result[name] = (
                None
                if table is None
                else [[str(k), repr(v)] for k, v in table.items()]
            )
    return result


def mutate(target, how):
    """
    What a caller may do with something it received: overwrite its numbers.
    """
    if isinstance(target, (q.DrivenControl, q.DynamicDecouplingSequence)):
        for entry in list(getattr(target, "__dict__", {}).values()):
            mutate(entry, how)
        return
    if isinstance(target, np.ndarray):
        if target.size and target.dtype.kind in "fic" and target.flags.writeable:
            if how == "zero":
                target[...] = 0
            elif how == "reverse":
                target[...] = target[::-1].copy()
            else:
                target += 1
        return
    if isinstance(target, dict):
        if how == "zero":
            target.clear()
        else:
            for entry in target.values():
                mutate(entry, how)
        return
    if isinstance(target, list):
        if how == "zero":
            del target[:]
        elif how == "reverse":
            target.reverse()
        else:
            for entry in target:
                if isinstance(entry, dict):
                    for key in list(entry):
                        entry[key] = 7.0
        return


def duplicate(target, how):
    if how == "copy":
        return copy.copy(target)
    if how == "deepcopy":
        return copy.deepcopy(target)
    return pickle.loads(pickle.dumps(target, how))


def process_state():
    """What every part of a program shares and expects to stay as it is."""
    import decimal
    import locale
    import random

    mask = os.umask(0o022)
    os.umask(mask)
    return {
        "print options": repr(sorted(np.get_printoptions().items())),
        "error handling": repr(sorted(np.geterr().items())),
        "directory": os.getcwd(),
        "environment": repr(sorted(os.environ.items())),
        "random numbers": repr(hash(random.getstate())),
        "numpy random numbers": repr(hash(np.random.get_state()[1].tobytes())),
        "decimal context": repr(decimal.getcontext()),
        "locale": repr(locale.setlocale(locale.LC_ALL)),
        "recursion limit": repr(sys.getrecursionlimit()),
        "warnings": repr(warnings.filters),
        "mask for new files": repr(mask),
        "printed text": repr(sys.stdout.getvalue()) if isinstance(sys.stdout, io.StringIO) else repr(sys.stdout),
        "text of arrays": repr(np.array([0.1, 1e-9, 123456.789])),
        "buffer size": repr(np.getbufsize()),
        "search path": repr(sys.path),
        "hooks": repr((sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile())),
        "tables": repr((csv.field_size_limit(), sorted(csv.list_dialects()))),
        "threads": repr(threading.active_count()),
        "garbage collection": repr(gc.isenabled()),
        "logging": repr((logging.root.level, len(logging.root.handlers), logging.root.manager.disable)),
        "signals": repr([str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]),
    }


def step(item, env):
    op = item["op"]
    if op == "call":
        function = getattr(q, item["fn"])
        args = [decode(v, env) for v in item.get("args", [])]
        kwargs = {k: decode(v, env) for k, v in item.get("kw", {}).items()}
        return function(*args, **kwargs)
    if op == "helper":
        # helpers that are documented but not exported; one that is gone has nothing to be judged
        function = getattr(importlib.import_module("qctrlopencontrols." + item["module"]), item["fn"], None)
        if function is None:
            raise Missing()
        args = [decode(v, env) for v in item.get("args", [])]
        result = function(*args, **{k: decode(v, env) for k, v in item.get("kw", {}).items()})
        return encode_exception(result) if isinstance(result, Exception) else result
    if op == "value":
        return decode(item["value"], env)
    target = None
    if "obj" in item:
        if item["obj"] not in env:
            raise Missing()
        target = env[item["obj"]]
    if op == "method":
        args = [decode(v, env) for v in item.get("args", [])]
        kwargs = {k: decode(v, env) for k, v in item.get("kw", {}).items()}
        return getattr(target, item["name"])(*args, **kwargs)
    if op == "get":
        if "names" in item:
            return {name: getattr(target, name) for name in item["names"]}
        return getattr(target, item["name"])
    if op == "setitem":
        getattr(target, item["name"])[item["index"]] = item["value"]
        return None
    if op == "change":
        # what an owner may do: move one number (or replace the whole array)
        current = getattr(target, item["name"])
        array = np.array(current, dtype="float64")
        if array.size:
            index = item["index"] % array.size
            if item["name"] == "offsets":
                array[index] = array[index] / 2
            else:
                array[index] = abs(array[index]) + 0.5 * max(1.0, abs(array[index]))
            try:
                if item["whole"] or not current.flags.writeable:
                    setattr(target, item["name"], array)
                else:
                    current[index] = array[index]
            except (AttributeError, TypeError, ValueError):
                pass  # objects that cannot be changed are fine
        return None
    if op == "setattr":
        try:
            setattr(target, item["name"], decode(item["value"], env))
        except (AttributeError, TypeError, ValueError):
            pass
        return None
    if op == "ambient":
        # settings of the program that uses the package
        np.set_printoptions(**item["print"])
        np.seterr(**item["errors"])
        np.random.seed(item["seed"])
        elsewhere = os.path.join(os.environ["VERIF_SCRATCH"], "elsewhere")
        os.makedirs(elsewhere, exist_ok=True)
        os.chdir(elsewhere)
        return None
    if op == "globals":
        return process_state()
    if op == "snap":
        return target
    if op == "str":
        return str(target)
    if op == "repr":
        return repr(target)
    if op == "duplicate":
        return duplicate(target, item["how"])
    if op == "duplicate_error":
        # the refusal of a call, or an error built as such, and its duplicate
        try:
            error = step(item["step"], env) if "step" in item else None
            if "error" in item:
                error = getattr(q_exceptions, item["fn"])(**{k: decode(v, env) for k, v in item["error"].items()})
            if not isinstance(error, Exception):
                raise Missing()
        except q_exceptions.ArgumentsValueError as caught:
            error = caught
        try:
            twin = duplicate(error, item["how"])
        except Exception as failure:
            return {"failure": "%s: %s" % (type(failure).__name__, failure)}
        return {"first": encode_exception(error), "second": encode_exception(twin),
                "same": error is twin, "args": [repr(error.args), repr(twin.args)]}
    if op == "eval_repr":
        text = repr(target)
        namespace = {
            "DrivenControl": q.DrivenControl,
            "DynamicDecouplingSequence": q.DynamicDecouplingSequence,
            "array": np.array,
            "np": np,
            "numpy": np,
            "float64": np.float64,
            "int64": np.int64,
            "nan": float("nan"),
            "inf": float("inf"),
        }
        return eval(text, namespace)
    if op == "mutate":
        mutate(target, item["how"])
        return None
    if op == "write":
        with open(item["path"], "w", newline="") as handle:
            handle.write(item["text"])
        return None
    if op == "read":
        if not os.path.exists(item["path"]):
            return None
        with open(item["path"], "rb") as handle:
            data = handle.read()
        try:
            return data.decode("utf-8")
        except UnicodeDecodeError:
            return "not UTF-8: " + repr(data)
    if op == "ls":
        return sorted(os.listdir(item["path"]))
    if op == "remove":
        path = os.path.realpath(item["path"])
        if os.path.dirname(path) != os.path.realpath(os.environ["VERIF_SCRATCH"]):
            raise RuntimeError("refusing to remove " + path)
        if os.path.exists(path):
            os.remove(path)
        return None
    raise RuntimeError("unknown step %r" % (op,))


HARNESS_OPS = {"value", "snap", "mutate", "write", "read", "ls", "remove", "setitem", "setattr", "change", "globals", "ambient"}


def run(program):
    env = {}
    results = []
    for item in program["steps"]:
        try:
            value = step(item, env)
        except Missing:
            results.append({"skip": True})
            continue
        except Exception as error:  # what the package raises is data
            if item["op"] in HARNESS_OPS and item["op"] != "snap":
                raise
            results.append({"exc": encode_exception(error)})
            continue
        if "as" in item:
            env[item["as"]] = value
        results.append({"ok": None if item.get("quiet") else encode(value)})
    return results


def answer(program):
    try:
        return json.dumps({"results": run(program)})
    except Exception as error:  # harness error
        import traceback

        return json.dumps({"harness_error": traceback.format_exc()})


def run_forked(program):
    read_end, write_end = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read_end)
            with os.fdopen(write_end, "w") as handle:
                handle.write(answer(program))
        finally:
            os._exit(0)
    os.close(write_end)
    with os.fdopen(read_end, "r") as handle:
        text = handle.read()
    os.waitpid(pid, 0)
    return text or json.dumps({"died": True})


def main():
    _out.write(json.dumps({"ready": True}) + "\n")
    _out.flush()
    for line in sys.stdin:
        program = json.loads(line)
        if program.get("fork"):
            # a list of programs, each in a pristine copy of this process
            texts = [run_forked(p) for p in program["programs"]]
            _out.write('{"forked": [' + ",".join(texts) + "]}\n")
        else:
            _out.write(answer(program) + "\n")
        _out.flush()


main()
