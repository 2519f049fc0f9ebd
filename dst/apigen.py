"""The data_dict_generator used through the Python API (importable, picklable)."""
from . import wave

FATAL = {}          # uid -> "keyboard" | "sysexit": not an ordinary failure
_memo = {}


class Generator:
    __name__ = __qualname__ = "make"

    def __call__(self, params, extra):
        params, uid = wave.resolve(params, extra)
        kind = FATAL.get(repr(uid))
        if kind == "keyboard":
            raise KeyboardInterrupt("interrupted")
        if kind == "sysexit":
            raise SystemExit(7)
        if "dst_extra" in extra:
            assert extra["dst_extra"] == [1, {"a": None}], extra
        if extra.get("memo"):               # a caching generator: same object for the same sample
            key = (float(params["w"]), params.get("mode"), params.get("mode_code"), bool(extra.get("zeroecc")))
            if key not in _memo:
                _memo[key] = wave.make(params, extra)
            return _memo[key]
        return wave.make(params, extra)

    def __repr__(self):
        return "<function make>"


make = Generator()
