"""The seam to the code under test: everything here calls the rsm of /repo's working tree."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("RSM_REPO", "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import rsm  # noqa: E402
import rsm.app  # noqa: E402
import rsm.tsparser  # noqa: E402
import rsm.transformer  # noqa: E402
import rsm.translator  # noqa: E402
import rsm.nodes  # noqa: E402
import rsm.linter  # noqa: E402

assert os.path.realpath(rsm.__file__).startswith(os.path.realpath(REPO) + "/"), rsm.__file__


class Sink(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def quiet():
    logging.disable(logging.CRITICAL)


def render(src, handrails=False, add_source=False):
    """rsm.render with its log output dropped."""
    quiet()
    return rsm.render(source=src, handrails=handrails, add_source=add_source)


def render_logged(src, handrails=False, level=logging.WARNING):
    """(html, [(levelno, message)]) of one rsm.render call."""
    logging.disable(logging.NOTSET)
    lg = logging.getLogger("RSM")
    for h in list(lg.handlers):
        lg.removeHandler(h)
    sink = Sink()
    app = rsm.app.ProcessorApp(plain=src, handrails=handrails, add_source=False, loglevel=level)
    saved = list(lg.handlers)
    lg.handlers[:] = [sink]
    try:
        out = app.run()
    finally:
        lg.handlers[:] = saved
        for h in list(lg.handlers):
            lg.removeHandler(h)
        logging.disable(logging.CRITICAL)
    return out, Log(sink.records)


class Log(list):
    """[(levelno, message)], with the records themselves in .records."""

    def __init__(self, records):
        super().__init__((r.levelno, r.getMessage()) for r in records)
        self.records = list(records)


def tree(src, transform=True):
    quiet()
    t = rsm.tsparser.TSParser().parse(src)
    if transform:
        t = rsm.transformer.Transformer().transform(t)
    return t
