"""Synthetic images and PDF files used by the simulated decks (versioned, deterministic)."""
import functools
import io
import random
import zipfile

from .tools import make_pdf


def svg_layers(name):
    """Selectors of the layers of an SVG/ORA asset, derived from its name."""
    r = random.Random("layers/" + name)
    if r.random() < 0.35:
        return []
    pool = ["1+", "2", "2+", "1-2", "3", "3+", "1,3", "2-3", "1-3", "4+"]
    return [r.choice(pool) for _ in range(r.randint(1, 3))]


def token(name, version, part):
    return f"A{name.split('.')[0].replace('-', '')}v{version}p{part}"


def damaged_layer(data, n):
    """An ORA archive of which one picture is cut off."""
    f = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(data)) as old, zipfile.ZipFile(f, "w") as z:
        names = sorted(x for x in old.namelist() if x.startswith("data/"))
        victim = names[n % len(names)]
        for info in old.infolist():
            body = old.read(info)
            z.writestr(info, body[:45] if info.filename == victim else body)
    return f.getvalue()


@functools.lru_cache(maxsize=400)
def make(name, version):
    kind = name.rsplit(".", 1)[1]
    r = random.Random(f"{name}/{version}")
    # versions of an image do not differ in size
    if kind == "svg":
        data = _svg(name, version, r)
        return data + b"<!--" + b"p" * (1000 - len(data)) + b"-->"
    if kind == "png":
        # pictures of one format are of few sizes
        return _bitmap("png", r, (5 + version % 2, 4)).ljust(200, b"\n")
    if kind in ("jpg", "jpeg"):
        return _bitmap("jpeg", r, (4, 5 + version % 2)).ljust(1000, b"\n")
    if kind == "ora":
        return _ora(name, version, r)
    if kind == "pdf":
        n = random.Random("pages/" + name).randint(1, 3)
        return make_pdf([f"RAW:{name}:{version}:{i}" for i in range(n)],
                        9000 if name.startswith("q") else 0)
    raise ValueError(kind)


def _svg(name, version, r):
    w, h = r.randint(20, 120), r.randint(20, 120)
    out = [
        "<svg xmlns='http://www.w3.org/2000/svg' "
        "xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' "
        f"width='{w}' height='{h}'>"
    ]
    out.append(f"<rect id='{token(name, version, 0)}' x='0' y='0' width='{w}' height='{h}'/>")
    for i, sel in enumerate(svg_layers(name)):
        out.append(
            f"<g inkscape:label='L{i} **{sel}'><circle id='{token(name, version, i + 1)}' "
            f"cx='{r.randint(0, 9)}' cy='3' r='2'/></g>"
        )
    out.append("</svg>")
    return "".join(out).encode()


def _bitmap(fmt, r, size=None):
    from PIL import Image

    img = Image.new("RGB", size or (r.randint(3, 9), r.randint(3, 9)),
                    (r.randint(0, 255), r.randint(0, 255), r.randint(0, 255)))
    f = io.BytesIO()
    img.save(f, fmt)
    return f.getvalue()


def _ora(name, version, r):
    layers = svg_layers(name)
    f = io.BytesIO()
    w, h = r.randint(8, 30), r.randint(8, 30)
    xml = [f"<image w='{w}' h='{h}'><stack x='0' y='0' opacity='1' name='root' "
           "visibility='visible'>"]
    with zipfile.ZipFile(f, "w") as z:
        def add(fname, data):
            z.writestr(zipfile.ZipInfo(fname, (2020, 1, 1, 0, 0, 0)), data)

        add("mimetype", "image/openraster")
        for i, sel in list(enumerate(layers))[::-1] + [(-1, None)]:
            src = f"data/l{i + 1}.png"
            lab = token(name, version, i + 1) + (f" **{sel}" if sel else "")
            xml.append(
                f"<layer name='{lab}' src='{src}' x='{r.randint(0, 5)}' y='0' opacity='1.0' "
                "visibility='visible'/>"
            )
            add(src, _bitmap("png", r))
        xml.append("</stack></image>")
        add("stack.xml", "".join(xml))
        left = 2900 - f.tell() - 80 * len(z.infolist())
        add("pad", b"p" * left)
    return f.getvalue()
