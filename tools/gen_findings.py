"""Writes KNOWN_FINDINGS.json: the repairs in /repo's history by property, and the (few) defects that are only recorded."""
import json, pathlib, subprocess
BASE = "2ded593"
RANGES = [  # (last commit of the range, property), in the order of the history
    ("cf1b7dc", "C01"), ("28de0de", "C09"), ("bd3be81", "C09"), ("9f09c86", "C02"), ("2e82547", "C04"), ("e93f814", "C13"),
    ("80c797d", "C05"), ("ebc21f0", "C06"), ("4aa82f1", "C07"), ("2ac22e1", "C08"), ("f76f490", "C11"), ("602ae17", "C09"),
    ("ce9ebcf", "C13"), ("0f63734", "C06"), ("d4174b3", "C03"), ("a37f9cb", "C14"), ("e10adb7", "C15"), ("775cf37", "C16"),
    ("2494a76", "C20"), ("c94c512", "C17"), ("98cea72", "C18"), ("f14b319", "C19"), ("8262891", "C21"), ("b95a7de", "C22"),
    ("96d5244", "C23"), ("a5c49f3", "C24"), ("07ea8bd", "C25"), ("f35329b", "C31"), ("7764373", "C25"), ("740b124", "C26"),
    ("7f1e672", "C28"), ("9de4575", "C30"), ("447920b", "C27"), ("06b588a", "C08"), ("b86335e", "C29"), ("a7ce330", "C08"), ("0d4eac3", "C29"), ("f08f7c4", "C31"), ("548ac19", "C32"), ("8cedfcf", "C08"),
    ("90d0f3c", "C21"), ("15d099c", "C27"), ("5efbdf6", "C30"), ("756e9d5", "C16"),
    ("5b0f103", "C16"), ("18b8a12", "C26"), ("bab5725", "C26"), ("dcf384f", "C26"), ("b1387da", "C11"), ("1d6190b", "C36"), ("257d061", "C22"), ("7142232", "C15"), ("d83ec82", "C22"), ("962c720", "C16"), ("e3c1c3f", "C26")]
TAKEN_BACK = {"5a9a75a", "fa93562", "acbbeff", "3d358db", "6dd70bc", "5fe1c98", "f307ec5"}   # src/reactpy/testing may not be changed
ALSO = {"28de0de": ["C02"], "bd3be81": ["C04"], "98cea72": ["C04"], "e6d16d3": ["C18"], "06b588a": ["C29"], "a7ce330": ["C29"]}
FINDINGS = [
    {"id": "C34-nested", "property": "C34", "kind": "nested_blocks", "what": "script nested_blocks: a record that was logged in an outer block of capture_reactpy_logs before an inner one was entered is shown by the inner one too (src/reactpy/testing/logs.py capture_reactpy_logs)"},
    {"id": "C34-hidden", "property": "C34", "kind": "hidden_assertion", "what": "script hidden_assertion: assert_reactpy_did_not_log swallows a LogAssertionError raised in its block (src/reactpy/testing/logs.py assert_reactpy_did_not_log)"},
    {"id": "C34-deleted", "property": "C34", "kind": "deleted_records", "what": "script deleted_records: of three logged exceptions list_logged_exceptions returns the first and third and deletes other records than theirs (src/reactpy/testing/logs.py list_logged_exceptions)"},
    {"id": "C34-awaitables", "property": "C34", "kind": "awaitables", "what": "script awaitables: poll does not await what a function returns that is no coroutine function itself, e.g. a future (src/reactpy/testing/common.py poll.__init__)"},
    {"id": "C34-left", "property": "C34", "kind": "left_exceptions", "what": "script left_exceptions: BackendFixture never reports logged exceptions since it clears the records first (src/reactpy/testing/backend.py BackendFixture.__aexit__)"},
    {"id": "C34-restart", "property": "C34", "kind": "right_after_restart", "what": "script right_after_restart: BackendFixture.restart returns before the server accepts connections again (src/reactpy/testing/backend.py BackendFixture.__aenter__)"},
]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", BASE + "..HEAD"], text=True).splitlines()]
fixed, it, r = [], iter(RANGES), None
r = next(it)
for h, s in log:
    if h in TAKEN_BACK:
        continue
    if r is None:
        raise SystemExit(f"no property for {h} {s}")
    for prop in [r[1], *ALSO.get(h, [])]:
        fixed.append(f"fixed: property={prop} {h} what failed before: {s.removeprefix('fix: ')}")
    if h == r[0]:
        r = next(it, None)
assert r is None, r
out = pathlib.Path(__file__).resolve().parent.parent / "KNOWN_FINDINGS.json"
out.write_text(json.dumps({"findings": FINDINGS, "fixed": fixed}, indent=1) + "\n")
print(len(fixed))
