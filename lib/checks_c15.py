"""C15: topics map to predictable, separate files under the configured root."""
import os
from vlib import build_driver

def run(c):
    c.model("MCTopic", "MCTopicQuick.cfg" if c.quick else "MCTopic.cfg")
    drv = build_driver("asan", "topic_seq", ["topic_seq.cpp"])
    d = os.path.join(c.tmp, "scratch")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(c.tmp, "topic.ndjson")
    if c.drive(drv, [d, 40 if c.quick else 400, c.seed], f) is not None:
        c.validate("TopicTrace", "TopicTrace.cfg", f, label="names, templates and roots")
    c.assumptions.append("paths with . or .. segments are not tried")
    c.cover["rule"] = ("every pair of the listed and random templates and names; every protocol object in C and C++ under every root with default, "
                       "overridden, absolute and unusable templates, watching which file appears; every file operation on relative and absolute "
                       "paths with decoys of the same name elsewhere")
