from . import drv_c, drv_go, drv_rust, drv_ts, drv_csharp, drv_zig, drv_as
from .common import *
from spec.proto import Proto

LANGS = {m.L.name: m.L for m in (drv_c, drv_go, drv_rust, drv_ts, drv_csharp, drv_zig, drv_as)}


class Unit:
    """(language, protocol, options) with its generated text and, on demand, its driver."""

    def __init__(self, lang, proto_path, opts=None, namespace=None, indent=None, label=None):
        self.lang, self.path, self.opts, self.namespace, self.indent = lang, proto_path, dict(opts or {}), namespace, indent
        self.p = Proto.load(proto_path)
        if namespace:
            self.p.namespace = namespace
        self.label = label or (lang + ":" + os.path.basename(proto_path).replace(".toml", ""))
        self.text = self.error = None
        self.drv = None
        self.build_error = None

    def job(self):
        j = {"lang": self.lang, "protocol": self.path, "args": self.opts}
        if self.namespace:
            j["namespace"] = self.namespace
        if self.indent:
            j["indent"] = self.indent
        return j

    def prepare(self):
        if self.drv or self.build_error or self.text is None:
            return
        try:
            L = LANGS[self.lang](self.p, self.opts)
            d = cached_build(self.lang, L.sources(self.text), L.build)
            self.drv = Driver(L.argv(d), L.envx)
        except BuildError as e:
            self.build_error = str(e)

    def close(self):
        if self.drv:
            self.drv.close()


def make_units(specs):
    units = [Unit(**s) for s in specs]
    res = generate([u.job() for u in units])
    for u, r in zip(units, res):
        if r["ok"]:
            u.text = r["text"]
        else:
            u.error = r["error"]
    return units
