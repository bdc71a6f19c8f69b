"""Parsing and judging exported files."""
import csv
import io
import json
import math

from .. import gen
from ..core import fail

TITLES = {
    "rabi": ("rabi_rate", "rabi_rates"),
    "az": ("azimuthal_angle", "azimuthal_angles"),
    "x": ("amplitude_x",),
    "y": ("amplitude_y",),
    "det": ("detuning", "detunings"),
    "dur": ("duration", "durations"),
    "max": ("maximum_rabi_rate",),
}


def _refuse_constant(text):
    raise ValueError("not standard JSON: " + text)


def parse(text, file_type, coordinates):
    """
    {"first", "second", "det", "dur", "max", "name"} of the file's text.
    """
    if text is None:
        fail("no file was written")
    keys = ("x", "y", "det", "dur") if coordinates == "cartesian" else ("rabi", "az", "det", "dur")
    if file_type == "JSON":
        try:
            data = json.loads(text, parse_constant=_refuse_constant)
        except ValueError as error:
            fail("the file is not valid JSON", error=str(error), text=text[:300])
        if not isinstance(data, dict):
            fail("the JSON file is not one object")
        known = {"name"}
        result = {"name": data.get("name"), "has_name": "name" in data}
        for key in keys + ("max",):
            title = next((t for t in TITLES[key] if t in data), None)
            if title is None:
                fail("the file lacks a field", field=TITLES[key][0], fields=sorted(data))
            known.add(title)
            result[key] = data[title]
        if set(data) - known:
            fail("the file has unexpected fields", fields=sorted(set(data) - known))
        for key in keys:
            if not isinstance(result[key], list) or not all(
                isinstance(v, (int, float)) and not isinstance(v, bool) for v in result[key]
            ):
                fail("a field is not a list of numbers", field=key)
        if not isinstance(result["max"], (int, float)):
            fail("the maximum Rabi rate is not a number")
        return result
    rows = list(csv.reader(io.StringIO(text)))
    if not rows:
        fail("the CSV file is empty")
    header = rows[0]
    if len(header) != 5 or len(set(header)) != 5:
        fail("the CSV file does not have five titled columns", header=header)
    result = {"name": None, "has_name": None}
    for key in keys + ("max",):
        column = next((header.index(t) for t in TITLES[key] if t in header), None)
        if column is None:
            fail("the CSV file lacks a column", column=TITLES[key][0], header=header)
        try:
            result[key] = [float(row[column]) for row in rows[1:]]
        except (ValueError, IndexError) as error:
            fail("a CSV row is incomplete or not numeric", error=str(error))
        if any(len(row) != 5 for row in rows[1:]):
            fail("a CSV row does not have five entries")
    if len(set(result["max"])) > 1:
        fail("the maximum Rabi rate is not the same in every row")
    result["max"] = result["max"][0] if result["max"] else None
    return result


def judge(text, file_type, coordinates, want, name, precision=1e-12, exact=True):
    """want: {"durations", "rabi", "az", "det"} as stored in the control."""
    data = parse(text, file_type, coordinates)
    n = len(want["durations"])
    top = max(want["rabi"])
    if data["max"] is None or not gen.close(data["max"], top, 0.0 if exact else precision):
        fail("wrong maximum Rabi rate in the file", got=data["max"], expected=top)
    unit = top if top else 1.0
    columns = {"det": want["det"], "dur": want["durations"]}
    if coordinates == "cartesian":
        columns["x"] = [r / unit * math.cos(a) for r, a in zip(want["rabi"], want["az"])]
        columns["y"] = [r / unit * math.sin(a) for r, a in zip(want["rabi"], want["az"])]
    else:
        columns["rabi"] = [r / unit for r in want["rabi"]]
        columns["az"] = want["az"]
    for key, expected in columns.items():
        got = data[key]
        if len(got) != n:
            fail("wrong number of segments in the file", field=key, got=len(got), expected=n)
        for i, (a, b) in enumerate(zip(got, expected)):
            floor = 0.0
            if key in ("x", "y"):
                floor = 1e-12 * want["rabi"][i] / unit
            # stored values are written as they are, normalised ones may be rounded differently
            if not gen.close(a, b, 0.0 if exact and key in ("det", "dur", "az") else precision, floor):
                fail("wrong value in the file", field=key, segment=i, got=a, expected=b)
    if file_type == "JSON":
        if data["has_name"] != (name is not None):
            fail("the name is in the file although there is none, or missing", expected=name)
        if name is not None and data["name"] != name:
            fail("wrong name in the file", got=data["name"], expected=name)
