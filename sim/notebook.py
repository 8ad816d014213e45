"""The controls of displayed slides, run in a small stand-in for a notebook's document."""
import json
import os
import re

import lxml.html

from . import kernel as K, tools

SCRIPT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "notebook.js")
_done = {}


def parse(html, views, els, scripts):
    """Adds the elements of one display to the document."""
    # pictures do not matter for the controls
    html = re.sub(r"<svg\b[^>]*/>", "", html)
    n = 1
    while n:
        html, n = re.subn(r"<svg\b[^>]*>(?:(?!<svg\b).)*?</svg>", "", html, flags=re.S)
    html = re.sub(r"<\?xml[^>]*>", "", html)
    html = re.sub(r'src="data:[^"]*"', "", html)
    root = lxml.html.fragment_fromstring(html, create_parent="div")
    view = {"next": -1, "prev": -1, "label": -1, "steps": []}

    def walk(e, parent):
        if not isinstance(e.tag, str):
            return
        if e.tag == "script":
            scripts.append(e.text or "")
            return
        i = len(els)
        cls = (e.get("class") or "").split()
        els.append({"tag": e.tag, "cls": cls, "attrs": dict(e.attrib), "parent": parent,
                    "text": (e.text or "").strip()})
        for name, c in (("next", "elsie-next"), ("prev", "elsie-previous"),
                        ("label", "elsie-current-step")):
            if c in cls:
                view[name] = i
        if "elsie-step" in cls:
            n = [int(c[5:]) for c in cls if re.match(r"step-\d+$", c)]
            view["steps"].append([n[0] if n else 0, i])
        for k in e:
            walk(k, i)

    walk(root, -1)
    views.append(view)


def same(names):
    """Replaces the identifiers of displays, so that equal displays are run only once."""
    def sub(m):
        return "elsie-wrapper-%d" % names.setdefault(m.group(), len(names))
    return sub


def run(displays):
    """Runs displays of one notebook and clicks through the last one.

    Returns a description of what is wrong, or None; ("unknown", why) when it cannot be told.
    """
    views, els, scripts = [], [], []
    names = {}
    for html in displays:
        parse(re.sub(r"elsie-wrapper-\w+", same(names), html), views, els, scripts)
    last = len(views) - 1
    count = [len(v["steps"]) for v in views]
    n = count[last]
    clicks = [[last, "next"]] * n + [[last, "prev"]] * n
    doc = json.dumps({"els": els, "scripts": scripts, "views": views, "clicks": clicks},
                     sort_keys=True)
    if doc not in _done:
        k = K.CURRENT
        k.muted += 1
        try:
            p = tools._real["Popen"](["node", SCRIPT], stdin=-1, stdout=-1, stderr=-3)
            res = json.loads(p.communicate(doc.encode())[0])
        except (OSError, ValueError):
            res = {"unknown": "node does not run"}
        finally:
            k.muted -= 1
        _done[doc] = judge(res, views, count, last, n)
    return _done[doc]


def judge(res, views, count, last, n):
    if "unknown" in res:
        return ("unknown", res["unknown"])
    if "error" in res:
        return "a script of the display fails: " + res["error"]
    at = [1]
    for i in range(1, 2 * n + 1):
        at.append(min(at[-1] + 1, n) if i <= n else max(at[-1] - 1, 1))
    for i, state in enumerate(res["states"]):
        for j, v in enumerate(state):
            want = at[i] if j == last else 1
            if count[j] <= 1:
                if v["shown"] != [1][: count[j]]:
                    return f"a display of one fragment shows {v['shown']}"
                continue
            if v["shown"] != [want]:
                return f"after {i} clicks the display of {count[j]} fragments shows " \
                    f"{v['shown']}, expected {want}"
            if v["next"] is not None and (v["next"] != (want < count[j])
                                          or v["prev"] != (want > 1)):
                return f"at fragment {want} of {count[j]}: next {v['next']}, previous {v['prev']}"
            if v["label"] is not None and re.findall(r"\d+", v["label"])[:1] != [str(want)]:
                return f"at fragment {want} the controls say {v['label']!r}"
    return None
