#!/usr/bin/env python3
"""Writes the cases of the known findings."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "findings")

def save(name, prop, files, **more):
    fs = [{"path": p, "kind": "raw", "raw": t} for p, t in files.items()]
    case = dict({"w": {"files": fs}}, **more)
    with open(os.path.join(HERE, name + ".json"), "w") as f:
        json.dump({"prop": prop, "case": case}, f, indent=1)
        f.write("\n")

save("c13-include", "C13", {"main.raml": """#%RAML 1.0 Library
types:
  A: !include a.raml
""", "a.raml": """#%RAML 1.0 DataType
type: string
facets:
  must: string
"""})
save("c13-override", "C13", {"main.raml": """#%RAML 1.0 Library
types:
  S:
    type: string
    facets:
      "level?": integer
  P:
    properties:
      a:
        type: S
        level: 5
  Q:
    type: P
    properties:
      a:
        type: string
        minLength: 2
"""})


def typed(name, prop, types, vals):
    """A case of declarations."""
    case = {"w": {"files": [{"path": "main.raml", "kind": "Library", "types": [{"n": n, "t": t} for n, t in types]}]},
            "vals": [{"id": {"f": "main.raml", "n": n}, "v": v} for n, v in vals]}
    with open(os.path.join(HERE, name + ".json"), "w") as f:
        json.dump({"prop": prop, "case": case}, f, indent=1)
        f.write("\n")


ref = lambda n: {"expr": {"name": n}, "scalar": True}
typed("c09-pattern", "C09", [
    ("P", {"expr": {"name": "string"}, "pattern": "^a"}),
    ("H", {"expr": {"name": "P"}, "pattern": "b$"}),
], [("H", "b")])
with open(os.path.join(HERE, "c20-override.json"), "w") as f:
    json.dump({'prop': 'C20',
 'case': {'w': {'files': [{'path': 'main.raml',
                           'kind': 'Library',
                           'uses': [{'p': 'lib1.raml'}],
                           'types': [{'n': 'A',
                                      't': {'props': [{'n': 'next', 'o': True, 't': {'include': 'rec1.raml'}},
                                                      {'n': 'left', 'o': True, 't': {'props': [{'n': 'in', 't': {'expr': {'name': 'B'}}}]}}]}},
                                     {'n': 'B', 't': {'expr': {'name': 'A'}, 'props': [{'n': 'next', 'o': True, 't': {'include': 'rec1.raml'}}]}},
                                     {'n': 'C', 't': {'include': 'rec1.raml'}}]},
                          {'path': 'lib1.raml',
                           'uses': [{'n': 'lib', 'p': 'main.raml'}],
                           'types': [{'n': 'B', 't': {'props': [{'t': {'expr': {'name': 'lib.C'}}}]}}]},
                          {'path': 'rec1.raml',
                           'kind': 'DataType',
                           'uses': [{'n': 'l', 'p': 'main.raml'}],
                           'body': {'items': {'expr': {'op': 'a', 'args': [{'name': 'l.B'}]}}}}]},
          'vals': [{'id': {'f': 'main.raml', 'n': 'B'}, 'v': {'left': {'in': {'next': [['{}']]}}}}]}}, f, indent=1)
    f.write("\n")


def anything(name, prop, text):
    """A case of files of any content."""
    case = {"files": [{"path": "main.raml", "text": text}], "entry": "main.raml", "how": 0, "from": "finding", "edits": 1}
    with open(os.path.join(HERE, name + ".json"), "w") as f:
        json.dump({"prop": prop, "case": case}, f, indent=1)
        f.write("\n")


anything("c01-groups", "C01", "#%RAML 1.0 DataType\ntype: ((((((((string))))))))\n")
anything("c01-diamond", "C01", "#%RAML 1.0 Library\ntypes:\n" + "".join(
    f"  T{i}:\n    properties:\n      a: T{i + 1}\n      b: T{i + 1}\n" for i in range(23)) + "  T23: string\n")
